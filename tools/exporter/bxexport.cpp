// bxexport: dumps the resolved (type-checked) syntax tree of the functions,
// records and globals defined under a source root as JSON.
// usage: bxexport ROOT FILE -- clang flags
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/OpenMPClause.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
using namespace clang;
namespace json = llvm::json;

static std::string Root;

class Dumper : public RecursiveASTVisitor<Dumper> {
  ASTContext &C;
  SourceManager &SM;
  std::map<const Decl *, int> LocalIds;
  std::set<std::string> DoneFn, DoneRec, DoneVar;

public:
  json::Array Fns, Recs, Vars;
  Dumper(ASTContext &C) : C(C), SM(C.getSourceManager()) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool shouldVisitLambdaBody() const { return true; }

  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    if (L.isInvalid()) return "";
    auto F = SM.getFilename(L);
    return F.str();
  }
  int lineOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    if (L.isInvalid()) return 0;
    return SM.getExpansionLineNumber(L);
  }
  bool inRoot(SourceLocation L) {
    std::string f = fileOf(L);
    return f.compare(0, Root.size(), Root) == 0;
  }
  std::string usr(const Decl *D) {
    llvm::SmallString<128> B;
    if (index::generateUSRForDecl(D, B)) return "";
    return B.str().str();
  }
  std::string declId(const ValueDecl *D) {
    if (auto *V = dyn_cast<VarDecl>(D)) {
      if (V->isLocalVarDeclOrParm()) {
        const Decl *K = V->getCanonicalDecl();
        auto it = LocalIds.find(K);
        if (it == LocalIds.end()) it = LocalIds.insert({K, (int)LocalIds.size()}).first;
        return "v" + std::to_string(it->second);
      }
    }
    std::string u = usr(D->getCanonicalDecl() ? cast<ValueDecl>(D->getCanonicalDecl()) : D);
    if (u.empty()) {
      const Decl *K = D->getCanonicalDecl();
      auto it = LocalIds.find(K);
      if (it == LocalIds.end()) it = LocalIds.insert({K, (int)LocalIds.size()}).first;
      return "v" + std::to_string(it->second);
    }
    return u;
  }

  std::string cat(QualType T, int depth = 0) {
    if (T.isNull()) return "?";
    std::string suffix;
    if (T->isReferenceType()) {
      suffix = "&";
      T = T->getPointeeType();
    }
    bool cst = T.isConstQualified();
    QualType CT = T.getCanonicalType().getUnqualifiedType();
    const Type *P = CT.getTypePtr();
    std::string s;
    if (P->isBooleanType()) s = "bool";
    else if (P->isAnyCharacterType()) s = "char";
    else if (P->isEnumeralType()) s = "enum";
    else if (P->isIntegerType()) {
      s = P->isUnsignedIntegerType() ? "u" : "";
      s += "int" + std::to_string(C.getTypeSize(CT));
    } else if (P->isRealFloatingType()) s = C.getTypeSize(CT) == 64 ? "double" : (C.getTypeSize(CT) == 32 ? "float" : "ldouble");
    else if (P->isVoidType()) s = "void";
    else if (P->isPointerType()) s = "ptr<" + (depth > 4 ? std::string("?") : cat(P->getPointeeType(), depth + 1)) + ">";
    else if (P->isArrayType()) {
      auto *AT = C.getAsArrayType(CT);
      std::string n = "?";
      if (auto *CA = dyn_cast<ConstantArrayType>(AT)) n = std::to_string(CA->getSize().getZExtValue());
      s = "arr<" + n + "," + cat(AT->getElementType(), depth + 1) + ">";
    } else if (P->isFunctionType()) s = "fn";
    else if (auto *RD = P->getAsCXXRecordDecl()) {
      if (RD->isLambda()) s = "lambda";
      else {
        std::string qn = RD->getQualifiedNameAsString();
        if (auto *TS = dyn_cast<ClassTemplateSpecializationDecl>(RD)) {
          if (qn == "std::vector" || qn == "std::__cxx11::basic_string" || qn == "Eigen::Array" || qn == "Eigen::Matrix" || qn == "std::valarray" ||
              qn == "std::array" || qn == "std::unique_ptr" || qn == "std::shared_ptr" || qn == "std::pair" || qn == "std::function" || qn == "std::map") {
            std::string a;
            unsigned k = 0;
            for (auto &A : TS->getTemplateArgs().asArray()) {
              if ((qn == "std::vector" || qn == "std::unique_ptr" || qn == "std::shared_ptr") && k >= 1) break;
              if (qn == "std::map" && k >= 2) break;
              if (qn == "std::__cxx11::basic_string") break;
              if (k) a += ",";
              if (A.getKind() == TemplateArgument::Type) a += depth > 4 ? "?" : cat(A.getAsType(), depth + 1);
              else if (A.getKind() == TemplateArgument::Integral) a += std::to_string(A.getAsIntegral().getExtValue());
              else a += "?";
              k++;
            }
            if (qn == "std::__cxx11::basic_string") s = "string";
            else s = qn + "<" + a + ">";
          } else s = qn;
        } else s = qn;
      }
    } else s = CT.getAsString();
    if (cst) s = "const " + s;
    return s + suffix;
  }

  json::Array kids(const Stmt *S) {
    json::Array A;
    for (const Stmt *K : S->children()) A.push_back(dump(K));
    return A;
  }

  json::Object varDecl(const VarDecl *V) {
    json::Object O;
    O["id"] = declId(V);
    O["name"] = V->getNameAsString();
    O["t"] = cat(V->getType());
    O["l"] = lineOf(V->getLocation());
    if (V->isStaticLocal()) O["static"] = true;
    if (V->getTLSKind() != VarDecl::TLS_None) O["tls"] = true;
    if (V->hasInit() && !isa<ParmVarDecl>(V)) O["init"] = dump(V->getInit());
    else if (auto *PV = dyn_cast<ParmVarDecl>(V)) {
      if (PV->hasDefaultArg() && !PV->hasUninstantiatedDefaultArg() && !PV->hasUnparsedDefaultArg())
        O["def"] = dump(PV->getDefaultArg());
    }
    return O;
  }

  void calleeInfo(json::Object &O, const FunctionDecl *F) {
    O["fn"] = F->getQualifiedNameAsString();
    O["fu"] = usr(F->getCanonicalDecl());
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      O["cls"] = M->getParent()->getQualifiedNameAsString();
      if (M->isConst()) O["cm"] = true;
      if (M->isStatic()) O["sm"] = true;
    }
    json::Array PT;
    for (auto *P : F->parameters()) PT.push_back(cat(P->getType()));
    O["pt"] = std::move(PT);
    if (F->hasBody() && inRoot(F->getLocation())) O["repo"] = true;
  }

  json::Value dump(const Stmt *S) {
    if (!S) return nullptr;
    // transparent wrappers
    if (auto *E = dyn_cast<ParenExpr>(S)) return dump(E->getSubExpr());
    if (auto *E = dyn_cast<ExprWithCleanups>(S)) return dump(E->getSubExpr());
    if (auto *E = dyn_cast<MaterializeTemporaryExpr>(S)) return dump(E->getSubExpr());
    if (auto *E = dyn_cast<CXXBindTemporaryExpr>(S)) return dump(E->getSubExpr());
    if (auto *E = dyn_cast<ConstantExpr>(S)) return dump(E->getSubExpr());
    if (auto *E = dyn_cast<SubstNonTypeTemplateParmExpr>(S)) return dump(E->getReplacement());
    if (auto *E = dyn_cast<CXXRewrittenBinaryOperator>(S)) return dump(E->getSemanticForm());
    if (auto *E = dyn_cast<FullExpr>(S)) return dump(E->getSubExpr());
    if (auto *E = dyn_cast<OpaqueValueExpr>(S)) return dump(E->getSourceExpr());
    if (auto *E = dyn_cast<AttributedStmt>(S)) return dump(E->getSubStmt());

    json::Object O;
    O["k"] = S->getStmtClassName();
    O["l"] = lineOf(S->getBeginLoc());
    if (auto *E = dyn_cast<Expr>(S)) {
      O["t"] = cat(E->getType());
      if (E->isGLValue()) O["lv"] = true;
      // constant-fold integral non-literals (sizeof, enumerators, constexpr)
    }
    if (auto *E = dyn_cast<DeclRefExpr>(S)) {
      O["d"] = declId(E->getDecl());
      O["n"] = E->getDecl()->getQualifiedNameAsString();
      O["dk"] = E->getDecl()->getDeclKindName();
      if (auto *F = dyn_cast<FunctionDecl>(E->getDecl())) calleeInfo(O, F);
      if (auto *EC = dyn_cast<EnumConstantDecl>(E->getDecl())) O["v"] = EC->getInitVal().getExtValue();
      return O;
    }
    if (auto *E = dyn_cast<MemberExpr>(S)) {
      O["d"] = declId(E->getMemberDecl());
      O["n"] = E->getMemberDecl()->getNameAsString();
      O["qn"] = E->getMemberDecl()->getQualifiedNameAsString();
      O["dk"] = E->getMemberDecl()->getDeclKindName();
      if (auto *F = dyn_cast<FunctionDecl>(E->getMemberDecl())) calleeInfo(O, F);
      if (auto *EC = dyn_cast<EnumConstantDecl>(E->getMemberDecl())) O["v"] = EC->getInitVal().getExtValue();
      if (E->isArrow()) O["arrow"] = true;
      O["c"] = kids(S);
      return O;
    }
    if (auto *E = dyn_cast<IntegerLiteral>(S)) {
      O["v"] = (int64_t)E->getValue().getSExtValue();
      return O;
    }
    if (auto *E = dyn_cast<CharacterLiteral>(S)) {
      O["v"] = (int64_t)E->getValue();
      return O;
    }
    if (auto *E = dyn_cast<CXXBoolLiteralExpr>(S)) {
      O["v"] = E->getValue();
      return O;
    }
    if (auto *E = dyn_cast<FloatingLiteral>(S)) {
      llvm::SmallString<64> B;
      E->getValue().toString(B, 0, 0);
      O["v"] = B.str().str();
      return O;
    }
    if (auto *E = dyn_cast<StringLiteral>(S)) {
      if (E->getCharByteWidth() == 1) O["v"] = json::fixUTF8(E->getString());
      return O;
    }
    if (auto *E = dyn_cast<CastExpr>(S)) {
      O["ck"] = E->getCastKindName();
      if (isa<ExplicitCastExpr>(S)) O["ex"] = true;
      if (auto *CF = dyn_cast_or_null<FunctionDecl>(E->getConversionFunction())) calleeInfo(O, CF);
      O["c"] = kids(S);
      return O;
    }
    if (auto *E = dyn_cast<CXXOperatorCallExpr>(S)) {
      O["op"] = getOperatorSpelling(E->getOperator());
      if (auto *F = E->getDirectCallee()) calleeInfo(O, F);
      json::Array A;
      for (auto *X : E->arguments()) A.push_back(dump(X));
      O["a"] = std::move(A);
      return O;
    }
    if (auto *E = dyn_cast<CXXMemberCallExpr>(S)) {
      if (auto *F = E->getMethodDecl()) calleeInfo(O, F);
      json::Array A;
      for (auto *X : E->arguments()) A.push_back(dump(X));
      O["a"] = std::move(A);
      O["obj"] = E->getImplicitObjectArgument() ? dump(E->getImplicitObjectArgument()) : json::Value(nullptr);
      return O;
    }
    if (auto *E = dyn_cast<CallExpr>(S)) {
      if (auto *F = E->getDirectCallee()) calleeInfo(O, F);
      json::Array A;
      for (auto *X : E->arguments()) A.push_back(dump(X));
      O["a"] = std::move(A);
      O["callee"] = dump(E->getCallee());
      return O;
    }
    if (auto *E = dyn_cast<CXXConstructExpr>(S)) {
      calleeInfo(O, E->getConstructor());
      O["copy"] = E->getConstructor()->isCopyOrMoveConstructor();
      O["elid"] = E->isElidable();
      json::Array A;
      for (auto *X : E->arguments()) A.push_back(dump(X));
      O["a"] = std::move(A);
      return O;
    }
    if (auto *E = dyn_cast<CXXDefaultArgExpr>(S)) {
      O["c"] = json::Array{dump(E->getExpr())};
      return O;
    }
    if (auto *E = dyn_cast<CXXDefaultInitExpr>(S)) {
      O["c"] = json::Array{dump(E->getExpr())};
      return O;
    }
    if (auto *E = dyn_cast<UnaryOperator>(S)) {
      O["op"] = UnaryOperator::getOpcodeStr(E->getOpcode()).str();
      O["post"] = E->isPostfix();
      O["c"] = kids(S);
      return O;
    }
    if (auto *E = dyn_cast<BinaryOperator>(S)) {
      O["op"] = E->getOpcodeStr().str();
      if (auto *CA = dyn_cast<CompoundAssignOperator>(S)) O["ct"] = cat(CA->getComputationResultType());
      O["c"] = kids(S);
      return O;
    }
    if (auto *E = dyn_cast<UnaryExprOrTypeTraitExpr>(S)) {
      Expr::EvalResult R;
      if (!E->isValueDependent() && E->EvaluateAsInt(R, C)) O["v"] = R.Val.getInt().getExtValue();
      return O;
    }
    if (auto *E = dyn_cast<LambdaExpr>(S)) {
      json::Array Caps;
      for (auto &Cp : E->captures()) {
        json::Object X;
        X["kind"] = Cp.getCaptureKind() == LCK_ByRef ? "ref" : (Cp.getCaptureKind() == LCK_ByCopy ? "copy" : "this");
        if (Cp.capturesVariable()) {
          X["id"] = declId(Cp.getCapturedVar());
          X["name"] = Cp.getCapturedVar()->getNameAsString();
          if (auto *V = dyn_cast<VarDecl>(Cp.getCapturedVar())) X["t"] = cat(V->getType());
        }
        Caps.push_back(std::move(X));
      }
      json::Array CI;
      for (auto it = E->capture_init_begin(); it != E->capture_init_end(); ++it) CI.push_back(*it ? dump(*it) : json::Value(nullptr));
      O["capinit"] = std::move(CI);
      json::Array Ps;
      for (auto *P : E->getCallOperator()->parameters()) Ps.push_back(varDecl(P));
      O["caps"] = std::move(Caps);
      O["params"] = std::move(Ps);
      O["fu"] = usr(E->getCallOperator());
      O["ret"] = cat(E->getCallOperator()->getReturnType());
      O["body"] = dump(E->getBody());
      return O;
    }
    if (auto *E = dyn_cast<CXXNewExpr>(S)) {
      O["at"] = cat(E->getAllocatedType());
      if (E->isArray() && E->getArraySize()) O["size"] = dump(*E->getArraySize());
      if (E->getInitializer()) O["init"] = dump(E->getInitializer());
      return O;
    }
    if (auto *E = dyn_cast<InitListExpr>(S)) {
      O["c"] = kids(E->isSemanticForm() ? E : (E->getSemanticForm() ? E->getSemanticForm() : E));
      return O;
    }
    if (auto *D = dyn_cast<DeclStmt>(S)) {
      json::Array A;
      for (auto *X : D->decls()) {
        if (auto *V = dyn_cast<VarDecl>(X)) A.push_back(varDecl(V));
        else {
          json::Object U;
          U["other"] = X->getDeclKindName();
          A.push_back(std::move(U));
        }
      }
      O["decls"] = std::move(A);
      return O;
    }
    if (auto *F = dyn_cast<ForStmt>(S)) {
      O["init"] = dump(F->getInit());
      O["cond"] = dump(F->getCond());
      O["inc"] = dump(F->getInc());
      O["body"] = dump(F->getBody());
      return O;
    }
    if (auto *W = dyn_cast<WhileStmt>(S)) {
      O["cond"] = dump(W->getCond());
      O["body"] = dump(W->getBody());
      if (W->getConditionVariableDeclStmt()) O["var"] = dump(W->getConditionVariableDeclStmt());
      return O;
    }
    if (auto *W = dyn_cast<DoStmt>(S)) {
      O["cond"] = dump(W->getCond());
      O["body"] = dump(W->getBody());
      return O;
    }
    if (auto *I = dyn_cast<IfStmt>(S)) {
      O["init"] = dump(I->getInit());
      if (I->getConditionVariableDeclStmt()) O["var"] = dump(I->getConditionVariableDeclStmt());
      O["cond"] = dump(I->getCond());
      O["then"] = dump(I->getThen());
      O["else"] = dump(I->getElse());
      return O;
    }
    if (auto *W = dyn_cast<SwitchStmt>(S)) {
      O["cond"] = dump(W->getCond());
      O["body"] = dump(W->getBody());
      return O;
    }
    if (auto *X = dyn_cast<CaseStmt>(S)) {
      O["lhs"] = dump(X->getLHS());
      Expr::EvalResult R;
      if (X->getLHS()->EvaluateAsInt(R, C)) O["v"] = R.Val.getInt().getExtValue();
      O["sub"] = dump(X->getSubStmt());
      return O;
    }
    if (auto *X = dyn_cast<DefaultStmt>(S)) {
      O["sub"] = dump(X->getSubStmt());
      return O;
    }
    if (auto *R = dyn_cast<CXXForRangeStmt>(S)) {
      O["range"] = dump(R->getRangeInit());
      O["var"] = varDecl(R->getLoopVariable());
      O["body"] = dump(R->getBody());
      return O;
    }
    if (auto *T = dyn_cast<CXXTryStmt>(S)) {
      O["body"] = dump(T->getTryBlock());
      json::Array H;
      for (unsigned i = 0; i < T->getNumHandlers(); i++) {
        json::Object X;
        auto *Hd = T->getHandler(i);
        X["l"] = lineOf(Hd->getBeginLoc());
        if (Hd->getExceptionDecl()) {
          X["t"] = cat(Hd->getCaughtType());
          X["var"] = varDecl(Hd->getExceptionDecl());
        } else X["t"] = "...";
        X["body"] = dump(Hd->getHandlerBlock());
        H.push_back(std::move(X));
      }
      O["handlers"] = std::move(H);
      return O;
    }
    if (auto *X = dyn_cast<CXXThisExpr>(S)) {
      (void)X;
      return O;
    }
    if (auto *D = dyn_cast<OMPExecutableDirective>(S)) {
      O["omp"] = llvm::omp::getOpenMPDirectiveName(D->getDirectiveKind()).str();
      json::Array Cl;
      for (auto *Cz : D->clauses()) {
        if (!Cz) continue;
        json::Object X;
        X["kind"] = llvm::omp::getOpenMPClauseName(Cz->getClauseKind()).str();
        X["implicit"] = Cz->isImplicit();
        json::Array Vs;
        for (auto *K : Cz->children())
          if (K) {
            const Stmt *B = K;
            if (auto *BE = dyn_cast<Expr>(B)) B = BE->IgnoreParenImpCasts();
            if (auto *DR = dyn_cast<DeclRefExpr>(B)) {
              json::Object Y;
              Y["id"] = declId(DR->getDecl());
              Y["n"] = DR->getDecl()->getNameAsString();
              Vs.push_back(std::move(Y));
            } else if (auto *ME = dyn_cast<MemberExpr>(B)) {
              json::Object Y;
              Y["id"] = declId(ME->getMemberDecl());
              Y["n"] = ME->getMemberDecl()->getNameAsString();
              Vs.push_back(std::move(Y));
            } else Vs.push_back(dump(K));
          }
        X["vars"] = std::move(Vs);
        Cl.push_back(std::move(X));
      }
      O["clauses"] = std::move(Cl);
      if (D->hasAssociatedStmt() && D->getAssociatedStmt()) O["body"] = dump(D->getRawStmt());
      return O;
    }
    if (auto *X = dyn_cast<CapturedStmt>(S)) return dump(X->getCapturedStmt());
    if (auto *X = dyn_cast<OMPCanonicalLoop>(S)) return dump(X->getLoopStmt());
    O["c"] = kids(S);
    return O;
  }

  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!F->isThisDeclarationADefinition() || !F->hasBody()) return true;
    if (F->isDependentContext() || F->getDescribedFunctionTemplate()) return true;
    if (!inRoot(F->getLocation())) return true;
    if (F->isDefaulted()) return true;
    std::string u = usr(F->getCanonicalDecl());
    if (!DoneFn.insert(u).second) return true;
    json::Object O;
    O["u"] = u;
    O["qn"] = F->getQualifiedNameAsString();
    O["name"] = F->getNameAsString();
    O["file"] = fileOf(F->getLocation());
    O["l"] = lineOf(F->getLocation());
    O["ret"] = cat(F->getReturnType());
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      O["cls"] = M->getParent()->getQualifiedNameAsString();
      O["method"] = true;
      if (M->isConst()) O["const"] = true;
      if (M->isStatic()) O["sm"] = true;
      if (M->getAccess() == AS_public) O["public"] = true;
      if (M->getParent()->isLambda()) O["lambda"] = true;
    }
    if (isa<CXXDestructorDecl>(F)) O["dtor"] = true;
    if (F->getFormalLinkage() == Linkage::Internal) O["internal"] = true;
    json::Array Ps;
    for (auto *P : F->parameters()) Ps.push_back(varDecl(P));
    O["params"] = std::move(Ps);
    if (auto *K = dyn_cast<CXXConstructorDecl>(F)) {
      O["ctor"] = true;
      json::Array I;
      for (auto *In : K->inits()) {
        json::Object X;
        if (In->isAnyMemberInitializer()) {
          X["n"] = In->getAnyMember()->getNameAsString();
          X["id"] = declId(In->getAnyMember());
        } else if (In->isDelegatingInitializer()) X["delegate"] = true;
        else X["base"] = true;
        X["written"] = In->isWritten();
        X["e"] = dump(In->getInit());
        I.push_back(std::move(X));
      }
      O["inits"] = std::move(I);
    }
    O["body"] = dump(F->getBody());
    Fns.push_back(std::move(O));
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext()) return true;
    if (!inRoot(R->getLocation()) || R->isLambda()) return true;
    std::string u = usr(R);
    if (!DoneRec.insert(u).second) return true;
    json::Object O;
    O["qn"] = R->getQualifiedNameAsString();
    O["file"] = fileOf(R->getLocation());
    O["l"] = lineOf(R->getLocation());
    bool dtor = R->hasUserDeclaredDestructor();
    O["udtor"] = dtor;
    json::Array Bs;
    for (auto &B : R->bases()) Bs.push_back(cat(B.getType()));
    O["bases"] = std::move(Bs);
    json::Array Fs;
    for (auto *F : R->fields()) {
      json::Object X;
      X["n"] = F->getNameAsString();
      X["id"] = declId(F);
      X["t"] = cat(F->getType());
      X["l"] = lineOf(F->getLocation());
      X["access"] = F->getAccess() == AS_public ? "public" : (F->getAccess() == AS_private ? "private" : "protected");
      if (F->hasInClassInitializer() && F->getInClassInitializer()) X["init"] = dump(F->getInClassInitializer());
      Fs.push_back(std::move(X));
    }
    O["fields"] = std::move(Fs);
    json::Array Ms;
    for (auto *M : R->methods()) {
      if (M->isImplicit()) continue;
      json::Object X;
      X["n"] = M->getNameAsString();
      X["u"] = usr(M->getCanonicalDecl());
      X["access"] = M->getAccess() == AS_public ? "public" : (M->getAccess() == AS_private ? "private" : "protected");
      Ms.push_back(std::move(X));
    }
    O["methods"] = std::move(Ms);
    Recs.push_back(std::move(O));
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (V->isLocalVarDeclOrParm() || isa<ParmVarDecl>(V)) return true;
    if (V->getDeclContext()->isDependentContext()) return true;
    if (!inRoot(V->getLocation())) return true;
    std::string u = declId(V);
    if (!DoneVar.insert(u).second) return true;
    json::Object O = varDecl(V);
    O["qn"] = V->getQualifiedNameAsString();
    O["file"] = fileOf(V->getLocation());
    Vars.push_back(std::move(O));
    return true;
  }
};

class Cons : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext &C) override {
    Dumper D(C);
    D.TraverseDecl(C.getTranslationUnitDecl());
    json::Object O;
    O["fns"] = std::move(D.Fns);
    O["recs"] = std::move(D.Recs);
    O["vars"] = std::move(D.Vars);
    llvm::outs() << json::Value(std::move(O)) << "\n";
  }
};
class Act : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Cons>(); }
};

int main(int argc, const char **argv) {
  if (argc < 4) {
    llvm::errs() << "usage: bxexport ROOT FILE -- flags\n";
    return 2;
  }
  Root = argv[1];
  std::string File = argv[2];
  std::vector<std::string> Flags;
  for (int i = 4; i < argc; i++) Flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", Flags);
  tooling::ClangTool Tool(DB, {File});
  return Tool.run(tooling::newFrontendActionFactory<Act>().get());
}
