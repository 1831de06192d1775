"""Expression and statement semantics of the abstract interpreter."""
from fractions import Fraction
import math
from .terms import *
from . import terms as tm
from . import nf as N
from .interp import *
from .interp import _cheap


NARROW = {'int16': 16, 'int8': 8, 'uint8': -8, 'uint16': -16}


def wrap(v, bits):
    """value of an integer after conversion to a type of that many bits (< 0: unsigned)"""
    k = 1 << abs(bits)
    v %= k
    return v - k if bits > 0 and v >= k // 2 else v


class Exit:
    __slots__ = ('kind', 'val', 'st', 'ty', 'site')

    def __init__(self, kind, val, st, ty=None, site=None):
        self.kind = kind
        self.val = val
        self.st = st
        self.ty = ty
        self.site = site


class EvMixin:
    # ---------------------------------------------------------- entry points
    def rv(self, n, st):
        return self.read(self.ev(n, st), st, n)

    def scal(self, n, st):
        v = self.rv(n, st)
        return self.as_scalar(v, n)

    def as_scalar(self, v, n=None):
        if type(v) is T:
            return v
        if type(v) is Choice:
            return ite(v.c, self.as_scalar(v.a, n), self.as_scalar(v.b, n))
        if type(v) is Arr and v.rank == 1 and v.shape[0] is ONE:
            return self.rd(v, (ZERO,))
        self.gap('scalar expected, got %r' % (type(v).__name__,), n)
        return unk('non-scalar %s' % type(v).__name__)

    def arr(self, v, st, n=None):
        v = self.read(v, st, n)
        if type(v) is Vec:
            a = self.vec2arr(v)
            if a is not None:
                return a
        if type(v) is Choice:
            a, b = self.arr(v.a, st, n), self.arr(v.b, st, n)
            if type(a) is Arr and type(b) is Arr:
                return self.merge_val(v.c, a, b)
        return v

    def ev(self, n, st):
        k = n['k']
        m = getattr(self, 'e_' + k, None)
        if m is None:
            self.gap('expression ' + k, n)
            for c in n.get('c') or []:
                if isinstance(c, dict):
                    self.ev(c, st)
            return unk('expression ' + k)
        return m(n, st)

    # ---------------------------------------------------------- leaves
    def e_IntegerLiteral(self, n, st):
        return num(int(n['v']))

    def e_CXXBoolLiteralExpr(self, n, st):
        return TRUE if n['v'] in (True, 'true', 1) else FALSE

    def e_CharacterLiteral(self, n, st):
        return num(int(n['v']))

    def e_FloatingLiteral(self, n, st):
        v = float(n['v'])
        if v == math.pi:
            return PI
        if v == 2 * math.pi:
            return mul(num(2), PI)
        return num(Fraction(n['v']) if 'e' not in n['v'].lower() and 'n' not in n['v'].lower() else Fraction(repr(v)))

    def e_StringLiteral(self, n, st):
        return string(n['v'])

    def e_GNUNullExpr(self, n, st):
        return NULLP

    def e_CXXNullPtrLiteralExpr(self, n, st):
        return NULLP

    def e_UnaryExprOrTypeTraitExpr(self, n, st):
        return num(int(n['v'])) if 'v' in n else unk('sizeof')

    def e_CXXThisExpr(self, n, st):
        return Ptr(LV(('this', self.frame.this)))

    def e_CXXDefaultArgExpr(self, n, st):
        return self.ev(n['c'][0], st)

    e_CXXDefaultInitExpr = e_CXXDefaultArgExpr

    def e_ExprWithCleanups(self, n, st):
        return self.ev(n['c'][0], st)

    e_MaterializeTemporaryExpr = e_CXXBindTemporaryExpr = e_ParenExpr = e_ConstantExpr = \
        e_SubstNonTypeTemplateParmExpr = e_ExprWithCleanups

    def key_of(self, vid):
        for f in reversed(self.frames):
            if vid in f.ids:
                return f.ids[vid]
        return None

    def e_DeclRefExpr(self, n, st):
        dk = n.get('dk')
        if dk == 'EnumConstant':
            return num(int(n['v']))
        if dk in ('Function', 'CXXMethod'):
            return Opq('function', fu=n.get('fu') or n.get('d'), fn=n.get('fn') or n.get('n'))
        vid = n['d']
        key = self.frame.ids.get(vid)
        if key is None:
            key = self.key_of(vid)
        if key is None:
            if vid in self.P.vars or n.get('n', '').startswith('std::') or vid.startswith('c:'):
                nm = n.get('n', '')
                if nm in ('std::cout', 'std::cerr', 'std::clog'):
                    return Opq('stream', name=nm)
                key = ('g', vid)
                if key not in st.s:
                    st.s[key] = self.global_init(key, st)
            else:
                self.gap('unbound variable ' + n.get('n', vid), n)
                return unk('unbound ' + n.get('n', ''))
        v = st.s.get(key)
        if type(v) in (LV, View) or type(v) is Choice and type(v.a) in (LV, View):
            return v        # reference variable
        return LV(key)

    def member_base(self, n, st):
        b = n['c'][0]
        v = self.ev(b, st)
        if n.get('arrow'):
            v = self.read(v, st, b)
        return v

    def obj_of(self, v, st, n):
        """object identity denoted by an lvalue / pointer / value"""
        if type(v) is Ptr:
            v = v.lv
        if type(v) is LV and v.key[0] == 'this':
            return v.key[1]
        if type(v) is LV:
            v = self.read(v, st, n)
        if type(v) is Ptr:
            return self.obj_of(v, st, n)
        if type(v) is Obj:
            return v
        return None

    def e_MemberExpr(self, n, st):
        b = self.member_base(n, st)
        o = self.obj_of(b, st, n)
        if o is None:
            if n.get('dk') in ('CXXMethod', 'Function'):
                return Opq('method')
            self.gap('member of unknown object ' + n.get('n', ''), n)
            return unk('member ' + n.get('n', ''))
        key = ('o', o.oid, n['n'])
        if key not in st.s:
            self.gap('unknown field ' + n['n'], n)
            st.s[key] = unk('field ' + n['n'])
        v = st.s[key]
        if type(v) in (LV, View):
            return v
        return LV(key)

    # ---------------------------------------------------------- casts
    def e_ImplicitCastExpr(self, n, st):
        ck = n['ck']
        c = n['c'][0]
        if ck in ('NoOp', 'UncheckedDerivedToBase', 'DerivedToBase', 'BaseToDerived', 'FunctionToPointerDecay',
                  'BuiltinFnToFnPtr', 'ConstructorConversion', 'UserDefinedConversion', 'BitCast'):
            return self.ev(c, st)
        if ck == 'LValueToRValue':
            return self.rv(c, st)
        if ck == 'ToVoid':
            self.ev(c, st)
            return NONE
        if ck == 'ArrayToPointerDecay':
            v = self.ev(c, st)
            if type(v) is T:
                return v
            if type(v) is LV:
                a = st.s.get(v.key)
                return Ptr(LV(v.key, (ZERO,)), getattr(a, 'gen', None))
            return v
        if ck in ('NullToPointer', 'NullToMemberPointer'):
            return NULLP
        v = self.rv(c, st)
        if ck in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean', 'MemberPointerToBoolean'):
            if type(v) is Ptr:
                return TRUE
            if v is NULLP:
                return FALSE
            return truth(self.as_scalar(v, n))
        if type(v) is not T:
            if ck in ('IntegralCast', 'IntegralToFloating', 'FloatingToIntegral', 'FloatingCast'):
                v = self.as_scalar(v, n)
            else:
                return v
        if ck in ('IntegralCast', 'IntegralToFloating', 'BooleanToSignedIntegral'):
            if is_bool(v):
                return b2i(v)
            if ck == 'IntegralCast' and type(v) is T and v.op != 'str':
                bits = NARROW.get(base_t(n['t']))
                if bits:
                    if v.op == 'num':
                        return num(wrap(v.a[0], bits))
                    r = fn('wrap', v, num(bits))
                    r.kind = 'int'
                    return r
            return v
        if ck == 'FloatingToIntegral':
            return self.trunc(v)
        if ck == 'FloatingCast':
            if base_t(n['t']) == 'float':
                return fn('f32', v)
            return v
        self.gap('cast ' + ck, n)
        return v

    def trunc(self, v):
        if v.op == 'num':
            return num(int(v.a[0]))
        r = fn('trunc', v)
        r.kind = 'int'
        return r

    e_CStyleCastExpr = e_CXXStaticCastExpr = e_CXXFunctionalCastExpr = e_ImplicitCastExpr
    e_CXXConstCastExpr = e_CXXReinterpretCastExpr = e_ImplicitCastExpr

    # ---------------------------------------------------------- operators
    def arith(self, op, a, b, t, n=None):
        if type(a) is Choice:
            return self.merge_val(a.c, self.arith(op, a.a, b, t, n), self.arith(op, a.b, b, t, n))
        if type(a) is Ptr and type(b) is T and op in '+-':
            return self.ptr_add(a, b if op == '+' else neg(b))
        if type(a) is Iter or type(b) is Iter:
            if type(a) is Iter and type(b) is Iter and op == '-':
                return sub(a.pos, b.pos)
            if type(a) is Iter and type(b) is T:
                return Iter(a.lv, add(a.pos, b) if op == '+' else sub(a.pos, b), a.arr)
        a = self.as_scalar(a, n)
        b = self.as_scalar(b, n)
        if op in '+-*/%':
            if is_bool(a):
                a = b2i(a)
            if is_bool(b):
                b = b2i(b)
        if op == '+':
            return add(a, b)
        if op == '-':
            return sub(a, b)
        if op == '*':
            return mul(a, b)
        if op == '/':
            if is_float_t(t):
                return div(a, b)
            return idiv(a, b)
        if op == '%':
            return imod(a, b)
        if op == '&' and b is ONE:
            return fn('abs', imod(a, num(2)))
        if op == '&' and a is ONE:
            return fn('abs', imod(b, num(2)))
        if op in ('&', '|') and is_bool(a) and is_bool(b):
            return and_(a, b) if op == '&' else or_(a, b)
        if op == '<<' and b.op == 'num':
            return mul(a, num(2 ** b.a[0]))
        r = fn('bits' + op, a, b)
        r.kind = 'int'
        return r

    def compare(self, op, a, b, n=None):
        if type(a) is Choice:
            c = a.c
            x, y = self.compare(op, a.a, b, n), self.compare(op, a.b, b, n)
            return ite_bool(c, x, y)
        if type(a) is Iter and type(b) is Iter:
            a, b = a.pos, b.pos
        if a is NULLP or b is NULLP or type(a) is Ptr or type(b) is Ptr:
            if op in ('==', '!='):
                r = None
                if a is NULLP and b is NULLP:
                    r = TRUE
                elif (a is NULLP and type(b) is Ptr) or (b is NULLP and type(a) is Ptr):
                    r = FALSE
                elif type(a) is Ptr and type(b) is Ptr and a == b:
                    r = TRUE
                if r is not None:
                    return r if op == '==' else not_(r)
            return fn_bool('ptrcmp', string(repr(a)), string(repr(b)))
        a = self.as_scalar(a, n)
        b = self.as_scalar(b, n)
        if op in ('==', '!='):
            if is_bool(a) and is_bool(b):
                r = or_(and_(a, b), and_(not_(a), not_(b)))
            else:
                if is_bool(a):
                    a = b2i(a)
                if is_bool(b):
                    b = b2i(b)
                r = eq(a, b)
            return r if op == '==' else not_(r)
        if is_bool(a):
            a = b2i(a)
        if is_bool(b):
            b = b2i(b)
        if op == '<':
            return lt(a, b)
        if op == '>':
            return lt(b, a)
        if op == '<=':
            return le(a, b)
        if op == '>=':
            return le(b, a)
        raise Gap(op)

    def cond(self, n, st):
        v = self.rv(n, st)
        if type(v) is Ptr:
            return TRUE
        if v is NULLP:
            return FALSE
        if type(v) is Opq and v.why == 'stream':
            return not_(self.stream_fail(v, st))
        return truth(self.as_scalar(v, n))

    def e_BinaryOperator(self, n, st):
        op = n['op']
        a, b = n['c']
        if op == '=':
            v = self.rv(b, st)
            l = self.ev(a, st)
            if type(v) is T and base_t(n['t']) == 'bool':
                v = truth(v)
            self.write(l, v, st, n)
            return l
        if op == ',':
            self.ev(a, st)
            return self.ev(b, st)
        if op in ('&&', '||'):
            c = self.cond(a, st)
            d = self.decide(c, st)
            if d is True:
                return self.cond(b, st) if op == '&&' else TRUE
            if d is False:
                return FALSE if op == '&&' else self.cond(b, st)
            s1 = st.fork(c if op == '&&' else not_(c))
            try:
                v = self.cond(b, s1)
            except Dead:
                st.become(st.fork(not_(c) if op == '&&' else c))
                return FALSE if op == '&&' else TRUE
            s2 = st.fork(not_(c) if op == '&&' else c)
            if s1.s == s2.s and len(s1.pc) == len(s2.pc):
                pass
            else:
                m, cc = self.merge(s1, s2)
                st.become(m)
            return and_(c, v) if op == '&&' else or_(c, v)
        x = self.rv(a, st)
        y = self.rv(b, st)
        if op in ('==', '!=', '<', '>', '<=', '>='):
            return self.compare(op, x, y, n)
        if op in '/%' and not is_float_t(n['t']):
            self.emit('div', n, st, den=y)
        elif op == '/':
            self.emit('fdiv', n, st, den=y)
        return self.arith(op, x, y, n['t'], n)

    def e_CompoundAssignOperator(self, n, st):
        op = n['op'][:-1]
        a, b = n['c']
        y = self.rv(b, st)
        l = self.ev(a, st)
        x = self.read(l, st, n)
        ct = n.get('ct') or n['t']
        v = self.arith(op, x, y, ct, n)
        if type(v) is T and is_int_t(n['t']) and is_float_t(ct):
            v = self.trunc(v)
        if type(v) is T and base_t(n['t']) == 'bool':
            v = truth(v)
        self.write(l, v, st, n)
        return l

    def e_UnaryOperator(self, n, st):
        op = n['op']
        c = n['c'][0]
        if op in ('++', '--'):
            l = self.ev(c, st)
            x = self.read(l, st, n)
            if type(x) is Ptr:
                v = self.ptr_add(x, ONE if op == '++' else num(-1))
            elif type(x) is Iter:
                v = Iter(x.lv, add(x.pos, ONE if op == '++' else num(-1)), x.arr)
            else:
                v = add(self.as_scalar(x, n), ONE if op == '++' else num(-1))
            self.write(l, v, st, n)
            return x if n.get('post') else l
        if op == '&':
            l = self.ev(c, st)
            if type(l) is LV:
                if l.key[0] == 'this':
                    return Ptr(l)
                v = st.s.get(l.key)
                if l.idx is not None:
                    if type(v) is Arr:
                        self.emit('addr', n, st, key=l.key, idx=l.idx, shape=v.shape)
                    return Ptr(l, getattr(v, 'gen', None))
                return Ptr(l)
            if type(l) is Opq:
                return l
            self.gap('address of temporary', n)
            return Opq('address')
        if op == '*':
            p = self.rv(c, st)
            return self.deref(p, st, n)
        if op == '-':
            return neg(self.num_(self.scal(c, st)))
        if op == '+':
            return self.num_(self.scal(c, st))
        if op == '!':
            return not_(self.cond(c, st))
        if op == '~':
            return sub(num(-1), self.scal(c, st))
        self.gap('unary ' + op, n)
        return unk('unary ' + op)

    def num_(self, x):
        return b2i(x) if is_bool(x) else x

    def ptr_add(self, p, k):
        return Ptr(p.lv, p.gen, add(p.off, k))

    def deref(self, p, st, n):
        if type(p) is Choice:
            return Choice(p.c, self.deref(p.a, st, n), self.deref(p.b, st, n))
        if type(p) is Iter:
            if type(p.lv) is LV:
                v = st.s.get(p.lv.key)
                if type(v) is Arr and v.rank == 2:
                    return LV(p.lv.key, self.reindex(v, (p.pos,)))
                return LV(p.lv.key, (p.pos,))
            return self.rd(p.arr, (p.pos,))
        if type(p) is Ptr:
            if p.lv.key[0] == 'this':
                return p.lv
            v = st.s.get(p.lv.key)
            if v is None:
                self.emit('dangling', n, st, key=p.lv.key)
                return unk('dangling pointer')
            if p.gen is not None and getattr(v, 'gen', None) != p.gen:
                self.emit('stale', n, st, key=p.lv.key)
            if p.off is ZERO:
                return p.lv
            if p.lv.idx is None:
                return p.lv
            return LV(p.lv.key, self.flat_add(v, p.lv.idx, p.off))
        if p is NULLP:
            self.emit('nullderef', n, st)
            return unk('null dereference')
        if type(p) is T and p.op == 'uninit':
            return p
        self.gap('dereference of %r' % (p,), n)
        return unk('dereference')

    def flat_add(self, v, idx, off):
        if type(v) is Arr and v.rank == 2:
            f = add(idx[0], mul(idx[1], v.shape[0]), off)
            return (imod(f, v.shape[0]), idiv(f, v.shape[0]))
        return (add(idx[0], off),)

    def e_ArraySubscriptExpr(self, n, st):
        b, i = n['c']
        p = self.rv(b, st)
        k = self.scal(i, st)
        if type(p) is T:
            return mk('sref', 'char', p, k)
        if type(p) is Ptr:
            p = self.ptr_add(p, k)
        return self.deref(p, st, n)

    def e_ConditionalOperator(self, n, st):
        c = self.cond(n['c'][0], st)
        d = self.decide(c, st)
        if d is True:
            return self.ev(n['c'][1], st)
        if d is False:
            return self.ev(n['c'][2], st)
        s1, s2 = st.fork(c), st.fork(not_(c))
        r1 = r2 = None
        try:
            r1 = self.ev(n['c'][1], s1)
            if not n.get('lv'):
                r1 = self.read(r1, s1, n)
        except Dead:
            pass
        try:
            r2 = self.ev(n['c'][2], s2)
            if not n.get('lv'):
                r2 = self.read(r2, s2, n)
        except Dead:
            pass
        if r1 is None and r2 is None:
            raise Dead()
        if r1 is None or r2 is None:
            st.become(s2 if r1 is None else s1)
            return r2 if r1 is None else r1
        m, _ = self.merge(s1, s2)
        st.become(m)
        if type(r1) in (LV, View) or type(r2) in (LV, View):
            if type(r1) is LV and type(r2) is LV and r1 == r2:
                return r1
            return Choice(c, r1, r2)
        return self.merge_val(c, r1, r2)

    def e_InitListExpr(self, n, st):
        t = n.get('t', '')
        cs = n.get('c') or []
        at = arr_type(t)
        t0 = base_t(t)
        if at is not None:
            vals = [self.rv(x, st) for x in cs]
            vals = [truth(v) if at[1] == 'bool' and type(v) is T else v for v in vals]
            if at[2] is not None and at[2][0].op == 'num':
                vals += [ZERO] * (at[2][0].a[0] - len(vals))
            if parse_tpl(t0)[0] == 'std::vector':
                return Vec(vals, at[1], newgen())
            a = self.vec2arr(Vec(vals, at[1], newgen()))
            if a is not None:
                return a
            return Vec(vals, at[1], newgen())
        if len(cs) == 1 and (is_int_t(t0) or is_float_t(t0) or t0 == 'bool'):
            return self.rv(cs[0], st)
        if not cs and (is_int_t(t0) or is_float_t(t0) or t0 == 'bool'):
            return ZERO
        if t0 in self.P.recs:
            o = self.new_obj(t0, st)
            for f, x in zip(self.P.recs[t0]['fields'], cs):
                st.s[('o', o.oid, f['n'])] = self.rv(x, st)
            return o
        return Vec([self.rv(x, st) for x in cs], None, newgen())

    def e_CXXStdInitializerListExpr(self, n, st):
        return self.ev(n['c'][0], st)

    def e_ImplicitValueInitExpr(self, n, st):
        v = self.default_value(n['t'], st, 'value-init', zero=True)
        return v if v is not None else Opq(n['t'])

    e_CXXScalarValueInitExpr = e_ImplicitValueInitExpr

    def e_CXXThrowExpr(self, n, st):
        ty = '?'
        msg = None
        if n.get('c'):
            x = n['c'][0]
            ty = base_t(x.get('t', '?'))
            v = self.ev(x, st)
            msg = v if type(v) is T else (v.msg if type(v) is Opq and hasattr(v, 'msg') else None)
        self.emit('throw', n, st, ty=ty, msg=msg)
        self.sink.append(Exit('throw', msg, st.fork(), ty, self.site(n)))
        raise Dead()

    def e_LambdaExpr(self, n, st):
        caps = {}
        for c, ci in zip(n.get('caps') or [], n.get('capinit') or [None] * 99):
            cid = c.get('d') or c.get('id')
            if cid is None:
                continue
            key = self.key_of(cid)
            if c.get('ref') or c.get('byref') or c.get('kind') == 'ref':
                v = st.s.get(key) if key else None
                caps[cid] = v if type(v) in (LV, View) else LV(key)
            else:
                v = self.read(LV(key), st, n) if key else unk('capture')
                if type(v) in (LV, View):
                    v = self.read(v, st, n)
                caps[cid] = v
        return Clos(n, caps, self.frame.this)

    # ---------------------------------------------------------- construction
    def copy_value(self, v, st, n=None):
        if type(v) is Arr:
            return v.w(gen=newgen())
        if type(v) is Vec:
            return Vec(v.v, v.ety, newgen())
        if type(v) is Obj:
            self.tmp += 1
            o = Obj(('obj', v.cls, self.tmp), v.cls)
            for key in list(st.s):
                if key[0] == 'o' and key[1] == v.oid:
                    st.s[('o', o.oid, key[2])] = self.copy_value(st.s[key], st)
            return o
        return v

    def e_CXXConstructExpr(self, n, st):
        t = base_t(n['t'])
        cls = n.get('cls') or t
        args = n.get('a') or []
        if n.get('copy') and len(args) == 1:
            v = self.ev(args[0], st)
            if type(v) is View and is_eigen_expr_t(t) and arr_type(t) is None:
                return v
            return self.copy_value(self.read(v, st, n), st, n)
        at = arr_type(t)
        if at is not None and (t.startswith('Eigen::') or parse_tpl(t)[0] in ('std::vector', 'std::array')):
            return self.construct_array(t, at, args, st, n)
        if is_string_t(t) or t == 'std::basic_string':
            if not args:
                return string('')
            v = self.rv(args[0], st)
            for a in args[1:]:
                if a['k'] != 'CXXDefaultArgExpr':
                    w = self.rv(a, st)
                    if type(v) is T and type(w) is T and is_int_t(args[0].get('t', '')):
                        return mk('sref', 'repeat', v, w)
            return v
        if cls in self.P.recs and self.P.recs[cls].get('fields') is not None or \
                self.P.fns.get(n.get('fu')) is not None:
            o = self.new_obj(cls, st)
            f = self.P.fns.get(n.get('fu'))
            if f is not None and f.get('body') is not None:
                self.call_fn(f, args, st, n, this=o)
            elif args:
                for a in args:
                    self.ev(a, st)
            return o
        if strip_t(cls) in ('std::basic_ifstream', 'std::basic_ofstream', 'std::basic_ostringstream', 'std::basic_stringstream',
                            'std::basic_istringstream', 'std::basic_fstream'):
            return self.new_stream(strip_t(cls), [self.rv(a, st) for a in args if a['k'] != 'CXXDefaultArgExpr'], st, n)
        if is_eigen_expr_t(t):
            if len(args) == 1:
                return self.ev(args[0], st)
            return self.construct_map(t, args, st, n)
        vals = [self.rv(a, st) for a in args if a['k'] != 'CXXDefaultArgExpr']
        o = Opq(cls)
        if 'error' in cls or 'exception' in cls:
            o.msg = vals[0] if vals and type(vals[0]) is T else None
            return o
        if cls in ('std::allocator', 'std::allocator<char>') or cls.startswith('std::_Set') or cls.startswith('std::ios'):
            return o
        if len(vals) == 1 and (cls.startswith('__gnu_cxx::__normal_iterator') or type(vals[0]) is Iter):
            return vals[0]
        if cls.startswith('std::pair') and len(vals) == 2:
            self.tmp += 1
            o = Obj(('obj', cls, self.tmp), cls)
            st.s[('o', o.oid, 'first')], st.s[('o', o.oid, 'second')] = vals
            return o
        o.args = vals
        if not n.get('a') or cls.startswith('std::lock') or cls.startswith('std::mutex') or cls.startswith('std::unique_lock'):
            return o
        self.gap('construction of ' + cls, n)
        return o

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def construct_array(self, t, at, args, st, n):
        rank, ety, fixed, mat, std = at
        args = [a for a in args if a['k'] != 'CXXDefaultArgExpr']
        name = parse_tpl(t)[0]
        if name == 'std::vector':
            if not args:
                return Vec([], ety, newgen())
            v0 = self.rv(args[0], st)
            if type(v0) is Vec:
                return Vec(v0.v, ety, newgen())
            if type(v0) is Arr:
                return v0.w(gen=newgen(), std=True)
            if type(v0) is Iter:
                v1 = self.rv(args[1], st)
                return self.iter_range(v0, v1, st, n).w(std=True, gen=newgen())
            if type(v0) is Ptr:
                v1 = self.rv(args[1], st)
                if type(v1) is Ptr and v1.lv == v0.lv:
                    a = st.s.get(v0.lv.key)
                    m = sub(v1.off, v0.off)
                    fs = formals((m,))
                    return Arr(1, (m,), ExprDef(fs, self.rd(a, self.flat_add(a, v0.lv.idx, add(v0.off, fs[0])))), newgen(), ety, False, True)
                return Opq('vector from pointers')
            m = self.as_scalar(v0, n)
            x = self.rv(args[1], st) if len(args) > 1 else (FALSE if ety == 'bool' else ZERO)
            if m.op == 'num' and type(x) is not T or (m.op == 'num' and 0 <= m.a[0] <= 16):
                return Vec([x] * m.a[0], ety, newgen())
            if type(x) is not T:
                return Opq('vector of objects')
            self.emit('alloc', n, st, shape=(m,))
            return Arr(1, (m,), ExprDef(formals((m,)), x), newgen(), ety, False, True)
        if not args:
            if fixed is not None:
                return Arr(rank, fixed, UninitDef(rank, 'local array'), newgen(), ety, mat, std)
            return Arr(rank, (ZERO,) * rank, UninitDef(rank, 'empty array'), newgen(), ety, mat, std)
        if len(args) == 1:
            v = self.rv(args[0], st)
            if type(v) is Arr:
                return v.w(gen=newgen(), mat=mat)
            if type(v) is Vec:
                a = self.vec2arr(v)
                if a is not None:
                    return a.w(gen=newgen(), ety=ety, std=std)
            if type(v) is T and rank == 1:
                if fixed is None:
                    self.emit('alloc', n, st, shape=(v,))
                    return Arr(1, (v,), UninitDef(1, 'uninitialised local array (line %s)' % n.get('l')), newgen(), ety, mat, std)
            self.gap('array construction', n)
            return Arr(rank, fixed or (unk('size'),) * rank, UnkDef(rank, 'array construction'), newgen(), ety, mat, std)
        vals = [self.rv(a, st) for a in args]
        if rank == 2 and len(vals) == 2 and fixed is None:
            sh = tuple(self.as_scalar(v, n) for v in vals)
            self.emit('alloc', n, st, shape=sh)
            return Arr(2, sh, UninitDef(2, 'uninitialised local array (line %s)' % n.get('l')), newgen(), ety, mat, std)
        if rank == 1 and fixed is not None and fixed[0].a[0] == len(vals):
            a = self.vec2arr(Vec(vals, ety, newgen()))
            if a is not None:
                return a.w(std=False, mat=mat)
        if rank == 1 and len(vals) == 2 and fixed is None and type(vals[0]) is T:
            return Arr(1, (vals[0],), UninitDef(1, 'uninitialised local array'), newgen(), ety, mat, std)
        self.gap('array construction', n)
        return Arr(rank, fixed or (unk('size'),) * rank, UnkDef(rank, 'array construction'), newgen(), ety, mat, std)

    def e_CXXNewExpr(self, n, st):
        self.gap('new', n)
        return Opq('new')

    e_CXXNew = e_CXXNewExpr

    def e_CXXDeleteExpr(self, n, st):
        self.gap('delete', n)
        return NONE

    # ---------------------------------------------------------- calls
    def bind_params(self, f, params, args, st, n, frame, outer_frame):
        """evaluate args in the caller and bind"""
        vals = []
        for i, p in enumerate(params):
            if i < len(args):
                a = args[i]
                if isinstance(a, dict):
                    v = self.ev(a, st)
                else:
                    v = a
            elif p.get('def') is not None:
                v = self.ev(p['def'], st)
            else:
                v = unk('missing argument')
            if not is_ref(p['t']):
                if type(v) in (LV, View, Choice):
                    v = self.read(v, st, n)
                    v = self.copy_value(v, st)
                if type(v) is T and base_t(p['t']) == 'bool':
                    v = truth(v)
            elif type(v) not in (LV, View) and not (type(v) is Choice and type(v.a) in (LV, View)):
                # temporary bound to a reference
                self.tmp += 1
                key = ('tmp', self.tmp)
                st.s[key] = v
                v = LV(key)
            vals.append(v)
        for p, v in zip(params, vals):
            key = ('v', frame.uid, p['id'])
            frame.ids[p['id']] = key
            st.s[key] = v
        return vals

    def call_fn(self, f, args, st, n, this=None, closure=None):
        if f['qn'] in self.stubs:
            r = self.stubs[f['qn']](self, f, args, st, n, this)
            if r is not NotImplemented:
                return r
        if self.depth > 24 or sum(1 for fr in self.frames if fr.fn is f) > 1:
            self.gap('recursive call to ' + f['qn'], n)
            for a in args:
                if isinstance(a, dict):
                    self.ev(a, st)
            return unk('recursion')
        self.fnseen.add(f['qn'])
        fr = Frame(f, this if this is not None else (closure.this if closure else None), f.get('file', self.frame.file if self.frames else ''))
        if closure:
            fr.file = self.frame.file
        fr.callsite = n.get('l') if n else 0
        self.bind_params(f, f['params'], args, st, n, fr, None)
        self.frames.append(fr)
        self.depth += 1
        if closure:
            for cid, v in closure.caps.items():
                key = ('v', fr.uid, cid)
                fr.ids[cid] = key
                st.s[key] = v
        old = self.sink
        self.sink = []
        base = len(st.pc)
        try:
            if f.get('ctor') or f.get('inits'):
                for ini in f.get('inits') or []:
                    nm = ini.get('n') or ini.get('field')
                    e = ini.get('e') or ini.get('init')
                    if e is None:
                        continue
                    if nm and this is not None:
                        v = self.rv(e, st)
                        st.s[('o', this.oid, nm)] = v
                    else:
                        self.ev(e, st)
            alive = self.exec(f['body'], st)
        except Dead:
            alive = False
        finally:
            exits = self.sink
            self.sink = old
            self.frames.pop()
            self.depth -= 1
        rets = [e for e in exits if e.kind == 'return']
        for e in exits:
            if e.kind == 'throw':
                self.drop_frame(e.st, fr)
                self.sink.append(e)
        if alive:
            rets.append(Exit('return', NONE, st.fork()))
        if not rets:
            raise Dead()
        # merge returns
        cur = rets[-1]
        val, s = cur.val, cur.st
        for e in reversed(rets[:-1]):
            s, c = self.merge(e.st, s)
            val = self.merge_ret(c, e.val, val)
        self.drop_frame(s, fr)
        st.become(s)
        return val

    def merge_ret(self, c, a, b):
        if a is NONE:
            return b
        if b is NONE:
            return a
        return self.merge_val(c, a, b)

    def drop_frame(self, s, fr):
        u = fr.uid
        for k in [k for k in s.s if k[0] == 'v' and k[1] == u]:
            del s.s[k]

    def arg_vals(self, args, st):
        return [self.ev(a, st) for a in args]

    def e_CallExpr(self, n, st):
        f = self.P.fns.get(n.get('fu'))
        nm = n.get('fn') or ''
        if f is not None and f.get('body') is not None:
            return self.call_fn(f, n.get('a') or [], st, n)
        if not nm:
            c = n.get('callee')
            v = self.rv(c, st) if c else None
            if type(v) is Clos:
                return self.call_closure(v, n['a'], st, n)
            if type(v) is Opq and v.why == 'function':
                g = self.P.fns.get(v.fu)
                if g is not None and g.get('body') is not None:
                    return self.call_fn(g, n['a'], st, n)
                nm = v.fn
        return self.lib_call(nm, n.get('a') or [], st, n)

    def call_closure(self, c, args, st, n):
        fk = {'qn': 'lambda', 'params': c.node.get('params') or [], 'body': c.node['body'], 'file': self.frame.file}
        return self.call_fn(fk, args, st, n, this=c.this, closure=c)

    def e_CXXMemberCallExpr(self, n, st):
        f = self.P.fns.get(n.get('fu'))
        if f is not None and f.get('body') is not None:
            o = None
            if n.get('obj') is not None:
                b = self.ev(n['obj'], st)
                o = self.obj_of(b, st, n)
            if o is None:
                self.gap('method on unknown object ' + n.get('fn', ''), n)
                for a in n['a']:
                    self.ev(a, st)
                return unk('method')
            return self.call_fn(f, n['a'], st, n, this=o)
        return self.lib_method(n, st)

    def e_CXXOperatorCallExpr(self, n, st):
        f = self.P.fns.get(n.get('fu'))
        if f is not None and f.get('body') is not None:
            if f.get('method'):
                o = self.obj_of(self.ev(n['a'][0], st), st, n)
                if o is not None:
                    return self.call_fn(f, n['a'][1:], st, n, this=o)
            else:
                return self.call_fn(f, n['a'], st, n)
        return self.lib_operator(n, st)

    # ---------------------------------------------------------- statements
    def exec(self, n, st):
        """execute; returns True when control continues normally (in st)"""
        if n is None:
            return True
        k = n['k']
        m = getattr(self, 'x_' + k, None)
        try:
            if m is not None:
                return m(n, st)
            if k.startswith('OMP'):
                return self.x_omp(n, st)
            self.ev(n, st)
            return True
        except Dead:
            return False

    def x_CompoundStmt(self, n, st):
        old = self.sink
        self.sink = []
        fr = self.frame
        declared = []
        fr_decl = getattr(fr, 'scope', None)
        fr.scope = declared
        alive = True
        try:
            for c in n.get('c') or []:
                if not self.exec(c, st):
                    alive = False
                    break
        finally:
            fr.scope = fr_decl
            mine = self.sink
            self.sink = old
        for e in mine:
            self.leave_scope(declared, e.st, n)
            self.sink.append(e)
        if alive:
            self.leave_scope(declared, st, n)
        return alive

    def leave_scope(self, declared, st, n):
        for key, t in reversed(declared):
            v = st.s.get(key)
            if type(v) is Obj and key[0] == 'v':
                self.destroy(v, st, n)
            if key[0] != 'static' and key in st.s:
                del st.s[key]

    def destroy(self, o, st, n):
        r = self.P.recs.get(o.cls)
        if r is not None:
            for f in self.P.fns.values():
                if f.get('dtor') and f.get('cls') == o.cls and f.get('body') is not None:
                    try:
                        self.call_fn(f, [], st, n, this=o)
                    except Dead:
                        pass
            self.emit('destroy', n, st, obj=o)
            for fld in r.get('fields', []):
                v = st.s.get(('o', o.oid, fld['n']))
                if type(v) is Obj:
                    self.destroy(v, st, n)

    def x_DeclStmt(self, n, st):
        for d in n.get('decls') or []:
            self.declare(d, st, n)
        return True

    def declare(self, d, st, n):
        fr = self.frame
        if 'id' not in d:
            return
        t = d['t']
        key = ('v', fr.uid, d['id'])
        if d.get('static'):
            key = ('static', d['id'])
            fr.ids[d['id']] = key
            if key not in st.s:
                t0 = base_t(t)
                if t.startswith('const ') and d.get('init') is not None:
                    st.s[key] = self.rv(d['init'], st)
                else:
                    self.emit('static', n, st, name=d['name'], key=key)
                    at = arr_type(t0)
                    if at is not None:
                        st.s[key] = Arr(at[0], at[2] or tuple(sym('static.%s.n%d' % (d['name'], i)) for i in range(at[0])),
                                        InputDef('static.' + d['name'], at[0], at[1] or 'real'), newgen(), at[1] or 'real')
                    elif is_int_t(t0) or t0 == 'bool':
                        st.s[key] = sym('static.' + d['name'], 'bool' if t0 == 'bool' else 'int')
                    else:
                        st.s[key] = sym('static.' + d['name'], 'real')
            return
        fr.ids[d['id']] = key
        init = d.get('init')
        if is_ref(t):
            v = self.ev(init, st)
            if type(v) not in (LV, View) and not (type(v) is Choice and type(v.a) in (LV, View)):
                self.tmp += 1
                k2 = ('tmp', self.tmp)
                st.s[k2] = v
                v = LV(k2)
            st.s[key] = v
            self.note_decl(key, t)
            return
        if init is None:
            v = self.default_value(t, st, d['name'])
            if v is None:
                t0 = base_t(t)
                if t0 in self.P.recs:
                    v = self.new_obj(t0, st)
                else:
                    v = Opq(t0)
        else:
            v = self.ev(init, st)
            if type(v) is View and is_eigen_expr_t(t) and arr_type(t) is None:
                pass
            else:
                if type(v) in (LV, View, Choice):
                    v = self.copy_value(self.read(v, st, n), st)
                t0 = base_t(t)
                if type(v) is T and t0 == 'bool':
                    v = truth(v)
                at = arr_type(t0)
                if type(v) is Arr and at is not None:
                    v = v.w(gen=newgen(), ety=at[1] or v.ety, mat=at[3], std=at[4])
        st.s[key] = v
        self.note_decl(key, t)
        if not self.quiet:
            self.emit('decl', n, st, key=key, name=d['name'], t=t)

    def note_decl(self, key, t):
        sc = getattr(self.frame, 'scope', None)
        if sc is not None:
            sc.append((key, t))

    def x_NullStmt(self, n, st):
        return True

    def x_IfStmt(self, n, st):
        if n.get('init'):
            if not self.exec(n['init'], st):
                return False
        if n.get('var'):
            self.declare(n['var'], st, n)
        c = self.cond(n['cond'], st)
        d = self.decide(c, st)
        if d is True:
            return self.exec(n['then'], st)
        if d is False:
            return self.exec(n['else'], st) if n.get('else') else True
        self.emit('branch', n, st, c=c)
        s1, s2 = st.fork(c), st.fork(not_(c))
        a1 = self.exec(n['then'], s1)
        a2 = self.exec(n['else'], s2) if n.get('else') else True
        if a1 and a2:
            m, _ = self.merge(s1, s2)
            st.become(m)
            return True
        if a1 or a2:
            st.become(s1 if a1 else s2)
            return True
        return False

    def x_ReturnStmt(self, n, st):
        v = NONE
        c = n.get('c') or []
        if c:
            v = self.ev(c[0], st)
            if not is_ref((self.frame.fn or {}).get('ret', '')):
                if type(v) in (LV, View, Choice):
                    v = self.copy_value(self.read(v, st, n), st)
                if type(v) is T and base_t((self.frame.fn or {}).get('ret', '')) == 'bool':
                    v = truth(v)
        self.sink.append(Exit('return', v, st.fork()))
        return False

    def x_BreakStmt(self, n, st):
        self.sink.append(Exit('break', None, st.fork()))
        return False

    def x_ContinueStmt(self, n, st):
        self.sink.append(Exit('continue', None, st.fork()))
        return False

    def x_SwitchStmt(self, n, st):
        v = self.scal(n['cond'], st)
        body = n['body']
        items = body.get('c') or [] if body['k'] == 'CompoundStmt' else [body]
        # flatten nested case labels
        flat = []
        for it in items:
            labels = []
            while isinstance(it, dict) and it['k'] in ('CaseStmt', 'DefaultStmt'):
                labels.append(None if it['k'] == 'DefaultStmt' else int(it['v']))
                it = it.get('sub')
            flat.append((labels, it))
        allv = [x for ls, _ in flat for x in ls if x is not None]
        hasdef = any(x is None for ls, _ in flat for x in ls)
        entry = []
        for i, (ls, _) in enumerate(flat):
            for x in ls:
                c = eq(v, num(x)) if x is not None else and_(*[ne(v, num(y)) for y in allv])
                entry.append((i, c))
        outs = []
        for i, c in entry:
            d = self.decide(c, st)
            if d is False:
                continue
            s = st.fork(c) if d is None else st.fork()
            old = self.sink
            self.sink = []
            alive = True
            for ls, it in flat[i:]:
                if it is not None and not self.exec(it, s):
                    alive = False
                    break
            mine = self.sink
            self.sink = old
            for e in mine:
                if e.kind == 'break':
                    outs.append(e.st)
                else:
                    self.sink.append(e)
            if alive:
                outs.append(s)
        if not hasdef:
            c = and_(*[ne(v, num(y)) for y in allv])
            if self.decide(c, st) is not False:
                outs.append(st.fork(c))
        if not outs:
            return False
        s = outs[-1]
        for o in reversed(outs[:-1]):
            s, _ = self.merge(o, s)
        st.become(s)
        return True

    def x_CXXTryStmt(self, n, st):
        old = self.sink
        self.sink = []
        alive = self.exec(n['body'], st)
        mine = self.sink
        self.sink = old
        outs = [St(st.s, st.pc)] if alive else []
        for e in mine:
            if e.kind != 'throw':
                self.sink.append(e)
                continue
            done = False
            for h in n['handlers']:
                if self.catches(h.get('t'), e.ty):
                    s = e.st
                    if h.get('var') and isinstance(h['var'], dict) and 'id' in h['var']:
                        key = ('v', self.frame.uid, h['var']['id'])
                        self.frame.ids[h['var']['id']] = key
                        o = Opq(e.ty or 'exception')
                        o.msg = e.val
                        s.s[key] = o
                    self.emit('catch', n, s, ty=h.get('t'), site2=e.site)
                    if self.exec(h['body'], s):
                        outs.append(s)
                    done = True
                    break
            if not done:
                self.sink.append(e)
        if not outs:
            return False
        s = outs[-1]
        for o in reversed(outs[:-1]):
            s, _ = self.merge(o, s)
        st.become(s)
        return True

    def catches(self, ht, ty):
        if not ht or ht in ('...', 'None'):
            return True
        h = base_t(ht)
        if h == ty or h == 'std::exception':
            return True
        if h == 'std::runtime_error' and ty in ('std::range_error', 'std::overflow_error', 'std::system_error'):
            return True
        if h == 'std::logic_error' and ty in ('std::invalid_argument', 'std::out_of_range', 'std::length_error', 'std::domain_error'):
            return True
        return False


def fn_bool(name, *a):
    r = fn(name, *a)
    r.kind = 'bool'
    return r
