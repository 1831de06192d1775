"""Front end for the Python part of the package: syntax trees of src/booz_xform/*.py lowered to the statement vocabulary of the abstract interpreter."""
import ast, os
from .frontend import AnalysisBroken, REPO

PKG = 'booz_xform'


class Module:
    def __init__(self, name, path):
        self.name, self.path = name, path
        try:
            with open(path) as f:
                self.tree = ast.parse(f.read(), path)
        except (OSError, SyntaxError) as e:
            raise AnalysisBroken('%s: %s' % (path, e))
        self.fns, self.consts, self.imports, self.classes = {}, {}, {}, {}
        self.scan(self.tree.body)

    def scan(self, body):
        for s in body:
            if isinstance(s, (ast.Import, ast.ImportFrom)):
                self.imports.update(imports(s, self.name))
            elif isinstance(s, ast.FunctionDef):
                self.fns[s.name] = s
            elif isinstance(s, ast.ClassDef):
                self.classes[s.name] = s
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.consts[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                self.consts[s.target.id] = s.value
            elif isinstance(s, ast.Try):
                self.scan(s.body)
            elif isinstance(s, ast.If):
                t = s.test
                if isinstance(t, ast.Compare) and isinstance(t.left, ast.Name) and t.left.id == '__name__':
                    continue
                self.scan(s.body)


def imports(s, modname):
    out = {}
    if isinstance(s, ast.Import):
        for a in s.names:
            out[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
    else:
        base = s.module or ''
        if s.level:
            base = PKG + ('.' + base if base else '')
        for a in s.names:
            out[a.asname or a.name] = base + '.' + a.name
    return out


def load():
    d = os.path.join(REPO, 'src', PKG)
    mods = {}
    try:
        names = sorted(os.listdir(d))
    except OSError as e:
        raise AnalysisBroken(str(e))
    for f in names:
        if f.endswith('.py'):
            mods[f[:-3]] = Module(f[:-3], os.path.join(d, f))
    return mods


# ------------------------------------------------------------------ lowering
def names_of(t):
    if isinstance(t, ast.Name):
        return {t.id}
    if isinstance(t, (ast.Tuple, ast.List)):
        r = set()
        for x in t.elts:
            r |= names_of(x)
        return r
    if isinstance(t, ast.Starred):
        return names_of(t.value)
    return set()


def reads(node):
    return {x.id for x in ast.walk(node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}


def killed(body, targets):
    """names that every iteration assigns before any use"""
    dead, used = set(targets), set()
    for s in body:
        if isinstance(s, ast.Assign):
            used |= reads(s.value)
            for t in s.targets:
                if not isinstance(t, ast.Name):
                    used |= reads(t) | {x.id for x in ast.walk(t) if isinstance(x, ast.Name)} - names_of(t)
                dead |= names_of(t) - used
        elif isinstance(s, ast.If):
            used |= reads(s.test)

            def both(bs):
                r = None
                for b in bs:
                    if b and isinstance(b[-1], (ast.Continue, ast.Break, ast.Return, ast.Raise)):
                        d = None
                    else:
                        d = killed(b, ())
                    if d is not None:
                        r = d if r is None else r & d
                return r or set()
            k = both([s.body, s.orelse])
            inner = {x.id for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}
            aug = {x.target.id for x in ast.walk(s) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name)}
            dead |= (k - used) - aug
            used |= (inner | aug) - dead
        else:
            for x in ast.walk(s):
                if isinstance(x, ast.Name):
                    used.add(x.id)
    return dead


class Lower:
    def __init__(self):
        self.cache = {}

    def block(self, body):
        k = id(body)
        if k not in self.cache:
            out = []
            for i, s in enumerate(body):
                if i == 0 and isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, str):
                    continue
                out.append(self.stmt(s))
            self.cache[k] = ({'k': 'PyBlock', 'c': out, 'l': getattr(body[0], 'lineno', 0) if body else 0}, body)
        return self.cache[k][0]

    def stmt(self, s):
        l = s.lineno
        if isinstance(s, ast.Assign):
            return {'k': 'PyAssign', 't': s.targets, 'v': s.value, 'l': l}
        if isinstance(s, ast.AnnAssign):
            return {'k': 'PyAssign', 't': [s.target], 'v': s.value, 'l': l} if s.value is not None else {'k': 'NullStmt', 'l': l}
        if isinstance(s, ast.AugAssign):
            return {'k': 'PyAug', 't': s.target, 'op': type(s.op).__name__, 'v': s.value, 'l': l}
        if isinstance(s, ast.If):
            return {'k': 'IfStmt', 'cond': self.expr(s.test), 'then': self.block(s.body), 'else': self.block(s.orelse) if s.orelse else None, 'l': l}
        if isinstance(s, ast.For):
            return {'k': 'PyFor', 'target': s.target, 'iter': s.iter, 'body': self.block(s.body), 'orelse': self.block(s.orelse) if s.orelse else None,
                    'kill': killed(s.body, names_of(s.target)), 'l': l}
        if isinstance(s, ast.While):
            if s.orelse:
                return {'k': 'PyGap', 'why': 'while-else', 'l': l}
            return {'k': 'WhileStmt', 'cond': self.expr(s.test), 'body': self.block(s.body), 'l': l}
        if isinstance(s, ast.Return):
            return {'k': 'PyReturn', 'v': s.value, 'l': l}
        if isinstance(s, ast.Break):
            return {'k': 'BreakStmt', 'l': l}
        if isinstance(s, ast.Continue):
            return {'k': 'ContinueStmt', 'l': l}
        if isinstance(s, (ast.Pass, ast.Global, ast.Nonlocal)):
            return {'k': 'NullStmt', 'l': l}
        if isinstance(s, ast.Expr):
            return {'k': 'PyExprStmt', 'v': s.value, 'l': l}
        if isinstance(s, ast.Assert):
            return {'k': 'PyAssert', 'v': s.test, 'l': l}
        if isinstance(s, ast.Raise):
            return {'k': 'PyRaise', 'v': s.exc, 'l': l}
        if isinstance(s, ast.Try):
            return {'k': 'PyTry', 'body': self.block(s.body), 'handlers': [(h.type, h.name, self.block(h.body)) for h in s.handlers],
                    'orelse': self.block(s.orelse) if s.orelse else None, 'final': self.block(s.finalbody) if s.finalbody else None, 'l': l}
        if isinstance(s, ast.With):
            return {'k': 'PyWith', 'items': [(i.context_expr, i.optional_vars) for i in s.items], 'body': self.block(s.body), 'l': l}
        if isinstance(s, ast.FunctionDef):
            return {'k': 'PyDef', 'fn': s, 'l': l}
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            return {'k': 'PyImport', 's': s, 'l': l}
        return {'k': 'PyGap', 'why': type(s).__name__, 'l': l}

    def expr(self, e):
        return {'k': 'PyExpr', 'e': e, 'l': e.lineno}
