"""Value-graph terms (hash-consed) and their evaluation under a witness
valuation.  A term is a closed-form expression over symbolic inputs; a `Def`
is the content of an array as a function of formal index variables."""
import math, struct
import zlib
from fractions import Fraction

_table = {}
_count = [0]
EMPTY = frozenset()


class T:
    __slots__ = ('op', 'a', 'id', 'fv', 'nfc', 'kind')

    def __repr__(self):
        return show(self)


def mk(op, *a):
    key = (op,) + tuple(x.id if type(x) is T else x for x in a)
    # separate T-typed ids from plain ints
    key = (op, tuple((1, x.id) if type(x) is T else (0, type(x).__name__, x) for x in a))
    t = _table.get(key)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.id = _count[0]
        _count[0] += 1
        fv = set()
        for x in a:
            if type(x) is T:
                fv |= x.fv
            elif type(x) is tuple:
                for y in x:
                    if type(y) is T:
                        fv |= y.fv
        t.fv = frozenset(fv) if fv else EMPTY
        t.nfc = None
        t.kind = None
        _table[key] = t
    return t


class TupleKey(tuple):
    pass


# ---------------------------------------------------------------- symbols
def num(v):
    if isinstance(v, bool):
        return TRUE if v else FALSE
    if isinstance(v, float):
        v = Fraction(repr(v)) if math.isfinite(v) else v
    if isinstance(v, Fraction) and v.denominator == 1:
        v = int(v)
    return mk('num', v)


def sym(name, kind='int'):
    t = mk('sym', name)
    if t.kind is None:
        t.kind = kind
    return t


class BV:
    """range info of bound variables"""
    info = {}
    n = 0


def bv(name, lo=None, hi=None):
    """fresh bound variable with range [lo,hi) (terms)"""
    BV.n += 1
    t = mk('bv', '%s#%d' % (name, BV.n))
    t.fv = frozenset([t])
    t.kind = 'int'
    BV.info[t] = (lo, hi)
    return t


def bv_named(name, lo, hi):
    t = mk('bv', name)
    t.fv = frozenset([t])
    t.kind = 'int'
    BV.info[t] = (lo, hi)
    return t


TRUE = mk('true')
FALSE = mk('false')
ZERO = num(0)
ONE = num(1)
HALF = num(Fraction(1, 2))
PI = sym('pi', 'real')


def string(s):
    return mk('str', s)


def unk(reason):
    return mk('unk', reason)


def uninit(why):
    return mk('uninit', why)


def isnum(t):
    return t.op == 'num'


def add(*xs):
    out = []
    c = 0
    for x in xs:
        if x.op == 'num':
            c += x.a[0]
        elif x.op == 'add':
            for y in x.a:
                if y.op == 'num':
                    c += y.a[0]
                else:
                    out.append(y)
        elif x.op == 'ite' and False:
            pass
        else:
            out.append(x)
    if c != 0 or not out:
        out.append(num(c))
    if len(out) == 1:
        return out[0]
    return mk('add', *out)


def mul(*xs):
    out = []
    c = 1
    for x in xs:
        if x.op == 'num':
            c *= x.a[0]
        elif x.op == 'mul':
            for y in x.a:
                if y.op == 'num':
                    c *= y.a[0]
                else:
                    out.append(y)
        else:
            out.append(x)
    if c == 0 and not any(_risky(x) for x in out):
        return ZERO
    if c != 1 or not out:
        out.append(num(c))
    if len(out) == 1:
        return out[0]
    return mk('mul', *out)


def _risky(x):
    return x.op in ('unk', 'uninit')


def neg(x):
    return mul(num(-1), x)


def sub(a, b):
    if a is b and not _risky(a):
        return ZERO
    return add(a, neg(b))


def div(a, b):
    if b.op == 'num' and b.a[0] != 0:
        return mul(a, num(Fraction(1) / b.a[0]))
    return mk('div', a, b)


def idiv(a, b):
    if a.op == 'num' and b.op == 'num' and b.a[0] != 0:
        q = abs(a.a[0]) // abs(b.a[0])
        return num(q if (a.a[0] >= 0) == (b.a[0] > 0) else -q)
    if b is ONE:
        return a
    return mk('idiv', a, b)


def imod(a, b):
    return sub(a, mul(b, idiv(a, b))) if (a.op == 'num' and b.op == 'num') else mk('imod', a, b)


def fn(name, *args):
    if name in ('max', 'min') and len(args) == 2:
        if args[0] is args[1]:
            return args[0]
        if args[0].op == 'num' and args[1].op == 'num':
            return num((max if name == 'max' else min)(args[0].a[0], args[1].a[0]))
    if name == 'sqrt' and args[0].op == 'num' and args[0].a[0] in (0, 1):
        return args[0]
    if name == 'abs' and args[0].op == 'num':
        return num(abs(args[0].a[0]))
    if name in ('cos', 'sin') and args[0] is ZERO:
        return ONE if name == 'cos' else ZERO
    return mk('fn', name, *args)


# ---------------------------------------------------------------- booleans
def lt(a, b):
    if a.op == 'num' and b.op == 'num':
        return TRUE if a.a[0] < b.a[0] else FALSE
    if a is b:
        return FALSE
    return mk('lt', a, b)


def le(a, b):
    return not_(lt(b, a))


def eq(a, b):
    if a is b:
        return TRUE
    if a.op == 'num' and b.op == 'num':
        return TRUE if a.a[0] == b.a[0] else FALSE
    if a.op == 'str' and b.op == 'str':
        return TRUE if a.a[0] == b.a[0] else FALSE
    if a.id > b.id:
        a, b = b, a
    return mk('eq', a, b)


def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.a[0]
    return mk('not', a)


def ne(a, b):
    return not_(eq(a, b))


def and_(*xs):
    out = []
    for x in xs:
        if x is FALSE:
            return FALSE
        if x is TRUE:
            continue
        if x.op == 'and':
            for y in x.a:
                if y not in out:
                    out.append(y)
        elif x not in out:
            out.append(x)
    for x in out:
        if not_(x) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk('and', *out)


def or_(*xs):
    out = []
    for x in xs:
        if x is TRUE:
            return TRUE
        if x is FALSE:
            continue
        if x.op == 'or':
            for y in x.a:
                if y not in out:
                    out.append(y)
        elif x not in out:
            out.append(x)
    for x in out:
        if not_(x) in out:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk('or', *out)


def ite(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if c.op == 'not':
        return ite(c.a[0], b, a)
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return not_(c)
    if a.op == 'ite' and a.a[0] is c:
        a = a.a[1]
    if b.op == 'ite' and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    return mk('ite', c, a, b)


def b2i(c):
    return ite(c, ONE, ZERO)


def truth(t):
    """integer/bool term used as a condition"""
    if t.op in ('true', 'false', 'lt', 'eq', 'not', 'and', 'or', 'exists'):
        return t
    if t.op == 'num':
        return TRUE if t.a[0] != 0 else FALSE
    if t.op == 'ite':
        return ite_bool(t.a[0], truth(t.a[1]), truth(t.a[2]))
    if t.op == 'sym' and t.kind == 'bool':
        return t
    if t.op in ('rec', 'lv', 'fn', 'elem') and t.kind == 'bool':
        return t
    return ne(t, ZERO)


def ite_bool(c, a, b):
    if a is b:
        return a
    return or_(and_(c, a), and_(not_(c), b)) if not (a in (TRUE, FALSE) or b in (TRUE, FALSE)) else \
        (or_(c, b) if a is TRUE else and_(not_(c), b) if a is FALSE else or_(not_(c), a) if b is TRUE else and_(c, a))


def is_bool(t):
    return t.op in ('true', 'false', 'lt', 'eq', 'not', 'and', 'or', 'exists') or (t.kind == 'bool')


# ---------------------------------------------------------------- arrays
class Def:
    n = 0

    def __init__(self, rank, fv=EMPTY, sites=()):
        Def.n += 1
        self.uid = Def.n
        self.rank = rank
        self.fv = fv
        self.sites = sites

    def __repr__(self):
        return '%s%d' % (type(self).__name__, self.uid)


class InputDef(Def):
    """opaque symbolic array; optional element bounds lo(idx) <= x <= hi(idx),
    optional rewriting function idx->Term"""

    def __init__(self, name, rank, kind='real', shape=None, bounds=None, expand=None):
        Def.__init__(self, rank)
        self.name = name
        self.kind = kind
        self.shape = shape
        self.bounds = bounds
        self.expand = expand

    def __repr__(self):
        return self.name


class ExprDef(Def):
    """content given by a term over formals"""

    def __init__(self, formals, body, sites=()):
        Def.__init__(self, len(formals), frozenset(body.fv - frozenset(formals)), sites)
        self.formals = formals
        self.body = body


class UpdDef(Def):
    """Ite(cond(formals), val(formals), prev)"""

    def __init__(self, prev, formals, cond, val, sites=()):
        fs = frozenset(formals)
        Def.__init__(self, prev.rank, frozenset((cond.fv | val.fv) - fs) | prev.fv, sites)
        self.prev = prev
        self.formals = formals
        self.cond = cond
        self.val = val


class IteDef(Def):
    def __init__(self, cond, a, b):
        Def.__init__(self, a.rank, cond.fv | a.fv | b.fv)
        self.cond = cond
        self.x = a
        self.y = b


class UninitDef(Def):
    def __init__(self, rank, why):
        Def.__init__(self, rank)
        self.why = why


class UnkDef(Def):
    def __init__(self, rank, why):
        Def.__init__(self, rank)
        self.why = why


class SortDef(Def):
    """prev with positions [lo,hi) sorted ascending"""

    def __init__(self, prev, lo, hi):
        Def.__init__(self, prev.rank, prev.fv | lo.fv | hi.fv)
        self.prev = prev
        self.lo = lo
        self.hi = hi


class LoopDef(Def):
    """content of array `key` at the start of iteration `it` of `loop`
    (recurrence equations kept in the loop record)"""

    def __init__(self, loop, key, it, rank):
        Def.__init__(self, rank, it.fv | loop.outer_fv)
        self.loop = loop
        self.key = key
        self.it = it


class Loop:
    n = 0

    def __init__(self, itv, lo, outer_fv):
        Loop.n += 1
        self.uid = Loop.n
        self.it = itv
        self.lo = lo
        self.hi = None
        self.outer_fv = outer_fv
        self.init = {}   # key -> Term or Def
        self.next = {}   # key -> Term or Def (in terms of placeholders at self.it)
        self.brk = None

    def __repr__(self):
        return 'L%d' % self.uid


def elem(d, idx):
    idx = tuple(idx)
    if isinstance(d, InputDef) and d.expand is not None:
        return d.expand(idx)
    if isinstance(d, UninitDef):
        return uninit(d.why)
    if isinstance(d, UnkDef):
        return unk(d.why)
    if isinstance(d, UpdDef) and len(idx) == 1 and idx[0].op == 'num' and not d.fv:
        m = {d.formals[0]: idx[0]}
        c = subst(d.cond, m)
        if c is TRUE:
            return subst(d.val, m)
        if c is FALSE:
            return elem(d.prev, idx)
    t = mk('elem', _dref(d), *idx)
    if d.fv:
        t.fv = t.fv | d.fv
    if isinstance(d, InputDef):
        t.kind = d.kind
    return t


class DRef:
    __slots__ = ('d',)

    def __init__(self, d):
        self.d = d

    def __hash__(self):
        return self.d.uid

    def __eq__(self, o):
        return type(o) is DRef and o.d is self.d

    def __repr__(self):
        return repr(self.d)


_drefs = {}


def _dref(d):
    r = _drefs.get(d.uid)
    if r is None:
        r = _drefs[d.uid] = DRef(d)
    return r


class LRef:
    __slots__ = ('l', 'key')

    def __init__(self, l, key):
        self.l = l
        self.key = key

    def __hash__(self):
        return hash((self.l.uid, self.key))

    def __eq__(self, o):
        return type(o) is LRef and o.l is self.l and o.key == self.key

    def __repr__(self):
        return '%r.%s' % (self.l, self.key)


def rec(loop, key, it, kind=None):
    """scalar `key` at the start of iteration `it` of `loop`"""
    t = mk('rec', LRef(loop, key), it)
    t.fv = t.fv | it.fv | loop.outer_fv
    if kind:
        t.kind = kind
    return t


def sum_(v, lo, hi, body):
    if lo.op == 'num' and hi.op == 'num' and hi.a[0] <= lo.a[0]:
        return ZERO
    if body is ZERO:
        return ZERO
    t = mk('sum', v, lo, hi, body)
    t.fv = frozenset((body.fv - {v}) | lo.fv | hi.fv)
    return t


def exists(v, lo, hi, body):
    if body is FALSE:
        return FALSE
    t = mk('exists', v, lo, hi, body)
    t.fv = frozenset((body.fv - {v}) | lo.fv | hi.fv)
    return t


def first(v, lo, hi, cond):
    """least v in [lo,hi) with cond, else hi.  hi may be None (unbounded)"""
    if cond is FALSE and hi is not None:
        return hi
    t = mk('first', v, lo, hi if hi is not None else NONE, cond)
    t.fv = frozenset((cond.fv - {v}) | lo.fv | (hi.fv if hi is not None else EMPTY))
    return t


NONE = mk('none')


# ---------------------------------------------------------------- substitution
def subst(t, m, memo=None):
    """substitute bound variables / terms.  m: T->T"""
    if not m:
        return t
    if memo is None:
        memo = {}
    keys = frozenset(m)
    return _subst(t, m, keys, memo)


def _subst(t, m, keys, memo):
    r = m.get(t)
    if r is not None:
        return r
    if not (t.fv & keys):
        # only bv keys are supported through fv; others handled by caller
        return t
    r = memo.get(t)
    if r is not None:
        return r
    r = rebuild(t, lambda x: _subst(x, m, keys, memo), lambda d: subst_def(d, m))
    memo[t] = r
    return r


def rebuild(t, f, fd):
    op = t.op
    a = t.a
    if op == 'add':
        return add(*[f(x) for x in a])
    if op == 'mul':
        return mul(*[f(x) for x in a])
    if op == 'div':
        return div(f(a[0]), f(a[1]))
    if op == 'idiv':
        return idiv(f(a[0]), f(a[1]))
    if op == 'imod':
        return imod(f(a[0]), f(a[1]))
    if op == 'fn':
        r = fn(a[0], *[f(x) for x in a[1:]])
        if t.kind:
            r.kind = t.kind
        return r
    if op == 'lt':
        return lt(f(a[0]), f(a[1]))
    if op == 'eq':
        return eq(f(a[0]), f(a[1]))
    if op == 'not':
        return not_(f(a[0]))
    if op == 'and':
        return and_(*[f(x) for x in a])
    if op == 'or':
        return or_(*[f(x) for x in a])
    if op == 'ite':
        return ite(f(a[0]), f(a[1]), f(a[2]))
    if op == 'elem':
        r = elem(fd(a[0].d), [f(x) for x in a[1:]])
        if t.kind and r.kind is None and r.op == 'elem':
            r.kind = t.kind
        return r
    if op == 'sum':
        return sum_(a[0], f(a[1]), f(a[2]), f(a[3]))
    if op == 'exists':
        return exists(a[0], f(a[1]), f(a[2]), f(a[3]))
    if op == 'first':
        return first(a[0], f(a[1]), None if a[2] is NONE else f(a[2]), f(a[3]))
    if op == 'rec':
        it = f(a[1])
        sm = fd(None)
        return rec_subst(a[0].l, a[0].key, it, sm, t.kind)
    if op == 'cat':
        return cat(*[f(x) for x in a])
    if op == 'sref':
        r = mk(op, a[0], *[f(x) if type(x) is T else x for x in a[1:]])
        return r
    if op == 'poly':
        xs = []
        for m, c in a[0]:
            xs.append(mul(num(c), *[f(at) if e == 1 else mk('powr', f(at), e) for at, e in m]))
        return add(*xs)
    if op == 'powr':
        return mk('powr', f(a[0]), a[1])
    if op in ('ge0', 'eq0', 'bool1'):
        return mk(op, f(a[0]))
    if op in ('num', 'sym', 'bv', 'true', 'false', 'str', 'unk', 'uninit', 'none'):
        return t
    raise NotImplementedError(op)


def cat(*xs):
    out = []
    for x in xs:
        for y in (x.a if x.op == 'cat' else (x,)):
            if y.op == 'str' and out and out[-1].op == 'str':
                out[-1] = string(out[-1].a[0] + y.a[0])
            elif y.op == 'str' and y.a[0] == '':
                continue
            else:
                out.append(y)
    if not out:
        return string('')
    if len(out) == 1:
        return out[0]
    return mk('cat', *out)


class SubstClosure:
    """substitution captured over the outer variables of a loop recurrence"""


def rec_subst(loop, key, it, m, kind):
    if m and (loop.outer_fv & frozenset(m)):
        loop = subst_loop(loop, m)
    return rec(loop, key, it, kind)


_loopsub = {}


def subst_loop(loop, m):
    mk_ = tuple(sorted((k.id, v.id) for k, v in m.items() if k in loop.outer_fv))
    if not mk_:
        return loop
    key = (loop.uid, mk_)
    r = _loopsub.get(key)
    if r is None:
        ofv = set()
        for v in loop.outer_fv:
            ofv |= m[v].fv if v in m else {v}
        r = Loop(loop.it, None, frozenset(ofv))
        r.lo = ('subst', loop, dict(m))
        r.it = loop.it
        _loopsub[key] = r
        r._src = (loop, {k: v for k, v in m.items() if k in loop.outer_fv})
    return r


def loop_force(l):
    src = getattr(l, '_src', None)
    if src is not None and not getattr(l, '_forced', False):
        l._forced = True
        base, m = src
        loop_force(base)
        l.lo = subst(base.lo, m)
        l.hi = subst(base.hi, m) if base.hi is not None else None
        # placeholders inside next refer to `base`; substitution rewrites them
        # to the substituted loop because base.outer_fv intersects m
        for k, v in base.init.items():
            l.init[k] = subst(v, m) if type(v) is T else subst_def(v, m)
        for k, v in base.next.items():
            l.next[k] = subst(v, m) if type(v) is T else subst_def(v, m)
    return l


_defsub = {}


def subst_def(d, m):
    if d is None:
        return m
    rel = d.fv & frozenset(m)
    if not rel:
        return d
    key = (d.uid, tuple(sorted((k.id, m[k].id) for k in rel)))
    r = _defsub.get(key)
    if r is not None:
        return r
    mm = {k: m[k] for k in rel}
    if isinstance(d, ExprDef):
        r = ExprDef(d.formals, subst(d.body, mm), d.sites)
    elif isinstance(d, UpdDef):
        r = UpdDef(subst_def(d.prev, mm), d.formals, subst(d.cond, mm), subst(d.val, mm), d.sites)
    elif isinstance(d, IteDef):
        r = IteDef(subst(d.cond, mm), subst_def(d.x, mm), subst_def(d.y, mm))
    elif isinstance(d, SortDef):
        r = SortDef(subst_def(d.prev, mm), subst(d.lo, mm), subst(d.hi, mm))
    elif hasattr(d, 'value'):
        r = d.subst(mm)
    elif isinstance(d, LoopDef):
        it = subst(d.it, mm)
        loop = subst_loop(d.loop, mm) if (d.loop.outer_fv & frozenset(mm)) else d.loop
        r = LoopDef(loop, d.key, it, d.rank)
    else:
        r = d
    _defsub[key] = r
    return r


# ---------------------------------------------------------------- display
def show(t, depth=0):
    if depth > 12:
        return '…'
    op = t.op
    a = t.a
    s = lambda x: show(x, depth + 1)
    if op == 'num':
        return str(a[0])
    if op in ('sym', 'bv'):
        return str(a[0]).split('#')[0]
    if op == 'add':
        return '(' + ' + '.join(s(x) for x in a) + ')'
    if op == 'mul':
        return '*'.join(s(x) for x in a)
    if op == 'div':
        return '%s/(%s)' % (s(a[0]), s(a[1]))
    if op == 'idiv':
        return '(%s div %s)' % (s(a[0]), s(a[1]))
    if op == 'imod':
        return '(%s mod %s)' % (s(a[0]), s(a[1]))
    if op == 'fn':
        return '%s(%s)' % (a[0], ', '.join(s(x) for x in a[1:]))
    if op == 'lt':
        return '%s<%s' % (s(a[0]), s(a[1]))
    if op == 'eq':
        return '%s==%s' % (s(a[0]), s(a[1]))
    if op == 'not':
        if a[0].op == 'lt':
            return '%s>=%s' % (s(a[0].a[0]), s(a[0].a[1]))
        if a[0].op == 'eq':
            return '%s!=%s' % (s(a[0].a[0]), s(a[0].a[1]))
        return '!(%s)' % s(a[0])
    if op == 'and':
        return '(' + ' && '.join(s(x) for x in a) + ')'
    if op == 'or':
        return '(' + ' || '.join(s(x) for x in a) + ')'
    if op == 'ite':
        return '(%s ? %s : %s)' % (s(a[0]), s(a[1]), s(a[2]))
    if op == 'elem':
        return '%r(%s)' % (a[0].d, ','.join(s(x) for x in a[1:]))
    if op == 'sum':
        return 'SUM[%s=%s..<%s] %s' % (s(a[0]), s(a[1]), s(a[2]), s(a[3]))
    if op == 'exists':
        return 'EXISTS[%s=%s..<%s] %s' % (s(a[0]), s(a[1]), s(a[2]), s(a[3]))
    if op == 'first':
        return 'FIRST[%s=%s..<%s] %s' % (s(a[0]), s(a[1]), s(a[2]), s(a[3]))
    if op == 'rec':
        return '%r@%s' % (a[0], s(a[1]))
    if op == 'poly':
        out = []
        for m, c in a[0]:
            fs = [('%s' if e == 1 else '%%s^%s' % e) % s(x) for x, e in m]
            if c != 1 or not fs:
                fs.insert(0, str(c))
            out.append('*'.join(fs))
        return '(' + ' + '.join(out) + ')'
    if op == 'ge0':
        return '[%s>=0]' % s(a[0])
    if op == 'eq0':
        return '[%s==0]' % s(a[0])
    if op == 'bool1':
        return '[%s]' % s(a[0])
    if op == 'str':
        return repr(a[0])
    if op in ('true', 'false', 'none'):
        return op
    return '%s(%s)' % (op, ', '.join(s(x) if type(x) is T else str(x) for x in a))


# ---------------------------------------------------------------- evaluation
class Undecided(Exception):
    pass


class UninitRead(Exception):
    pass


class OutOfRange(Exception):
    pass


MATH1 = ('asin', 'acos', 'atan', 'sinh', 'cosh', 'tanh', 'log2', 'log10', 'log1p', 'expm1', 'erf', 'asinh', 'acosh', 'atanh', 'cbrt', 'exp2')
ENVFN = {'ncst', 'opfail', 'openfail', 'isint', 'istok', 'isnum', 'tokint', 'toknum', 'tokstr', 'nc.varid', 'nc.dimid', 'nc.dim', 'nc.var', 'file.dim', 'fmt', 'fmtw', 'strerror'}


def pynum(y):
    if isinstance(y, Fraction):
        return int(y) if y.denominator == 1 else float(y)
    return y


class Valuation:
    """assigns numbers to the symbolic inputs"""

    def __init__(self, syms, arrays, budget=3000000):
        self.syms = syms        # name -> value
        self.arrays = arrays    # InputDef -> function(idx tuple) -> value
        self.memo = {}
        self.dmemo = {}
        self.budget = budget
        self.cov = None     # conditions evaluated so far: term -> [outcomes, environments]

    def cover(self, t, side, env):
        c = self.cov.get(t)
        if c is None:
            c = self.cov[t] = [0, []]
        c[0] |= side
        if len(c[1]) < 40:
            c[1].append(dict(env))

    def ev(self, t, env=None):
        return self._ev(t, env or {})

    def _ev(self, t, env):
        op = t.op
        if op == 'num':
            return t.a[0]
        if op == 'bv':
            try:
                return env[t]
            except KeyError:
                raise Undecided('free variable %r' % t)
        fv = t.fv
        if fv:
            try:
                key = (t.id, tuple([env[v] for v in sorted(fv, key=_tid)])) if len(fv) > 1 else (t.id, env[next(iter(fv))])
            except KeyError as e:
                raise Undecided('free variable %s' % e)
        else:
            key = t.id
        m = self.memo
        if key in m:
            r = m[key]
            if type(r) is _Exc:
                raise r.e
            return r
        self.budget -= 1
        if self.budget < 0:
            raise Undecided('evaluation budget exhausted')
        r = self._ev1(t, op, t.a, env)
        m[key] = r
        return r

    def _ev1(self, t, op, a, env):
        ev = self._ev
        if op == 'sym':
            try:
                return self.syms[a[0]]
            except KeyError:
                raise Undecided('no valuation for ' + str(a[0]))
        if op == 'add':
            r = 0
            for x in a:
                r = r + ev(x, env)
            return r
        if op == 'mul':
            r = 1
            for x in a:
                r = r * ev(x, env)
            return r
        if op == 'div':
            x = ev(a[0], env)
            y = ev(a[1], env)
            if y == 0:
                return math.nan if x == 0 else (math.inf if x > 0 else -math.inf)
            if isinstance(x, (int, Fraction)) and isinstance(y, (int, Fraction)):
                return Fraction(x) / Fraction(y)
            return float(x) / float(y)
        if op == 'idiv' or op == 'imod':
            x = ev(a[0], env)
            y = ev(a[1], env)
            if y == 0:
                raise Undecided('integer division by zero')
            if isinstance(x, float) or isinstance(y, float):
                raise Undecided('int div on float')
            q = abs(x) // abs(y)
            if (x >= 0) != (y > 0):
                q = -q
            return q if op == 'idiv' else x - y * q
        if op == 'fn':
            v = [ev(x, env) for x in a[1:]]
            if self.cov is not None and a[0] in ('abs', 'max', 'min'):
                try:
                    self.cover(t, (2 if v[0] < 0 else 1) if a[0] == 'abs' else (2 if v[0] < v[1] else 1), env)
                except (TypeError, IndexError):
                    pass
            return self.fnval(a[0], v, t)
        if op == 'lt' or op == 'eq':
            r = ev(a[0], env) < ev(a[1], env) if op == 'lt' else ev(a[0], env) == ev(a[1], env)
            if self.cov is not None:
                self.cover(t, 2 if r else 1, env)
            return r
        if op == 'not':
            return not ev(a[0], env)
        if op == 'and':
            for x in a:
                if not ev(x, env):
                    return False
            return True
        if op == 'or':
            for x in a:
                if ev(x, env):
                    return True
            return False
        if op == 'true':
            return True
        if op == 'false':
            return False
        if op == 'ite':
            c = ev(a[0], env)
            if self.cov is not None and a[0].op not in ('lt', 'eq'):
                self.cover(a[0], 2 if c else 1, env)
            return ev(a[1], env) if c else ev(a[2], env)
        if op == 'elem':
            idx = tuple([ev(x, env) for x in a[1:]])
            return self.evdef(a[0].d, idx, env)
        if op == 'sum':
            lo = ev(a[1], env)
            hi = ev(a[2], env)
            r = 0
            e = dict(env)
            v = a[0]
            for k in range(int(lo), int(hi)):
                e[v] = k
                r = r + ev(a[3], e)
            return r
        if op == 'exists':
            lo = ev(a[1], env)
            hi = ev(a[2], env)
            e = dict(env)
            for k in range(int(lo), int(hi)):
                e[a[0]] = k
                if ev(a[3], e):
                    return True
            return False
        if op == 'first':
            k = ev(a[1], env)
            hi = None if a[2] is NONE else ev(a[2], env)
            e = dict(env)
            n = 0
            while hi is None or k < hi:
                e[a[0]] = k
                if ev(a[3], e):
                    return k
                k += 1
                n += 1
                if n > 100000:
                    raise Undecided('unbounded search')
            return k
        if op == 'rec':
            l = loop_force(a[0].l)
            it = ev(a[1], env)
            return self.evrec(l, a[0].key, it, env)
        if op == 'poly':
            r = 0
            for mono, c in a[0]:
                p = c
                for (at, e) in mono:
                    v = ev(at, env)
                    if e == 1:
                        p = p * v
                    elif isinstance(e, int) and e > 0:
                        p = p * v ** e
                    else:
                        p = p * float(v) ** float(e)
                r = r + p
            return r
        if op == 'powr':
            v = ev(a[0], env)
            e = a[1]
            if isinstance(e, int) and e > 0:
                return v ** e
            try:
                return float(v) ** float(e)
            except (ZeroDivisionError, OverflowError):
                return math.inf
        if op == 'pw':
            return ev(a[0], env)
        if op == 'ge0':
            return 1 if ev(a[0], env) >= 0 else 0
        if op == 'eq0':
            return 1 if ev(a[0], env) == 0 else 0
        if op == 'bool1':
            return 1 if ev(a[0], env) else 0
        if op == 'str':
            return a[0]
        if op == 'cat':
            return ''.join(str(ev(x, env)) for x in a)
        if op == 'uninit':
            raise UninitRead(a[0])
        if op == 'unk':
            raise Undecided(a[0])
        raise Undecided('eval ' + op)

    def evrec(self, l, key, it, env):
        lo = self._ev(l.lo, env)
        if it <= lo:
            v = l.init[key]
            return self._ev(v, env)
        e = dict(env)
        # iterate upward to bound recursion depth
        nxt = l.next[key]
        k0 = max(lo, it - 40)
        if it - lo > 40 and l.it in nxt.fv:
            for k in range(int(lo) + 1, int(it), 30):
                e2 = dict(env)
                e2[l.it] = k - 1
                try:
                    self._ev(nxt, e2)
                except (UninitRead, OutOfRange):
                    break
        e[l.it] = it - 1
        return self._ev(nxt, e)

    def fnval(self, name, v, t):
        if name in ('cos', 'sin', 'tan', 'exp', 'log', 'sqrt', 'floor', 'ceil', 'round', 'trunc', 'lround'):
            x = float(v[0]) if not isinstance(v[0], (int, Fraction)) else v[0]
            try:
                if name == 'floor':
                    return math.floor(x)
                if name == 'ceil':
                    return math.ceil(x)
                if name == 'trunc':
                    return math.trunc(x)
                if name in ('round', 'lround'):
                    return math.floor(abs(x) + Fraction(1, 2)) * (1 if x >= 0 else -1)
                if name == 'sqrt':
                    return math.sqrt(x) if x >= 0 else math.nan
                return getattr(math, name)(float(x))
            except (ValueError, OverflowError):
                return math.nan
        if name == 'abs':
            return abs(v[0])
        if name == 'max':
            return max(v)
        if name == 'min':
            return min(v)
        if name == 'pow':
            try:
                return v[0] ** v[1] if isinstance(v[1], int) and v[1] >= 0 else float(v[0]) ** float(v[1])
            except Exception:
                return math.nan
        if name == 'atan2':
            return math.atan2(v[0], v[1])
        if name == 'fmod':
            return math.fmod(v[0], v[1])
        f = self.syms.get('fn:' + name)
        if f is not None:
            return f(*v)
        # interpreted library functions
        x = v[0] if v else None
        if name == 'pyfmt':
            try:
                return str(x).format(*[pynum(y) for y in v[1:]])
            except (ValueError, IndexError):
                try:
                    return str(x).format(*[float(y) if isinstance(y, (int, Fraction)) and not isinstance(y, bool) else y for y in v[1:]])
                except (ValueError, IndexError):
                    raise Undecided('format')
        if name == 'pypct':
            try:
                return str(x) % tuple(pynum(y) for y in v[1:])
            except (ValueError, TypeError):
                raise Undecided('format')
        if name == 'py.slice' and isinstance(x, str):
            return x[slice(*[None if y == '' else int(y) for y in v[1:]])]
        if name.startswith('py.count') and name != 'py.count' and isinstance(x, str):
            return len(getattr(x, name[8:])(*v[1:]))
        if name.startswith('py.') and isinstance(x, str):
            return getattr(x, name[3:])(*v[1:])
        if name == 'strlen' and isinstance(x, str):
            return len(x.encode('utf8'))
        if name == 'cat':
            return ''.join(str(y) for y in v)
        if name in ('str==', 'str!=', 'str<', 'str>', 'str<=', 'str>=') and all(isinstance(y, str) for y in v):
            o, b = name[3:], v[1]
            return {'==': x == b, '!=': x != b, '<': x < b, '>': x > b, '<=': x <= b, '>=': x >= b}[o]
        if name == 'chr' and isinstance(x, int):
            return chr(x)
        if name in ('isnan', 'isfinite', 'isinf') and isinstance(x, (int, float, Fraction)):
            return getattr(math, name)(float(x))
        if name == 'signbit' and isinstance(x, (int, float, Fraction)):
            return math.copysign(1, x) < 0
        if name == 'wrap' and isinstance(x, int) and len(v) == 2:
            k = 1 << abs(v[1])
            x %= k
            return x - k if v[1] > 0 and x >= k // 2 else x
        if name == 'f32' and isinstance(x, (int, float, Fraction)):
            return struct.unpack('f', struct.pack('f', float(x)))[0]
        if name.startswith('bits') and len(v) == 2 and all(isinstance(y, int) for y in v):
            a, b = int(v[0]), int(v[1])
            o = name[4:]
            if o in ('&', '|', '^'):
                return a & b if o == '&' else a | b if o == '|' else a ^ b
            if o in ('<<', '>>') and 0 <= b < 64:
                return a << b if o == '<<' else a >> b
        if len(v) == 1 and name in MATH1 and isinstance(x, (int, float, Fraction)):
            try:
                return getattr(math, name)(float(x))
            except (ValueError, OverflowError):
                return math.nan
        if name == 'hypot' and len(v) == 2:
            return math.hypot(float(v[0]), float(v[1]))
        if name not in ENVFN:
            raise Undecided('library function ' + name)
        # environment: any value is possible
        h = zlib.crc32(repr((name,) + tuple(float(x) if isinstance(x, (int, float, Fraction)) else str(x) for x in v)).encode())
        if t.kind == 'bool':
            return bool(h & 4)
        if t.kind == 'string' or name in ('fmt', 'fmtw', 'strerror', 'tokstr'):
            return '%s(%s)' % (name, ','.join('%.17g' % x if isinstance(x, (int, float, Fraction)) else str(x) for x in v))
        return (h % 1000003) / 1000003.0

    def evdef(self, d, idx, env):
        if isinstance(d, InputDef):
            f = self.arrays.get(d)
            if f is None:
                raise Undecided('no valuation for array ' + d.name)
            return f(idx)
        fv = d.fv
        try:
            key = (d.uid, idx, tuple([env[v] for v in sorted(fv, key=_tid)]) if fv else ())
        except KeyError as e:
            raise Undecided('free variable %s' % e)
        m = self.dmemo
        if key in m:
            return m[key]
        self.budget -= 1
        if self.budget < 0:
            raise Undecided('evaluation budget exhausted')
        r = self._evdef(d, idx, env)
        m[key] = r
        return r

    def _evdef(self, d, idx, env):
        while True:
            if isinstance(d, InputDef):
                return self.evdef(d, idx, env)
            if isinstance(d, ExprDef):
                e = dict(env)
                for f, v in zip(d.formals, idx):
                    e[f] = v
                return self._ev(d.body, e)
            if isinstance(d, UpdDef):
                e = dict(env)
                for f, v in zip(d.formals, idx):
                    e[f] = v
                if self._ev(d.cond, e):
                    return self._ev(d.val, e)
                d = d.prev
                continue
            if isinstance(d, IteDef):
                c = self._ev(d.cond, env)
                if self.cov is not None and d.cond.op not in ('lt', 'eq'):
                    self.cover(d.cond, 2 if c else 1, env)
                d = d.x if c else d.y
                continue
            if isinstance(d, SortDef):
                lo, hi = self._ev(d.lo, env), self._ev(d.hi, env)
                if not lo <= idx[0] < hi:
                    d = d.prev
                    continue
                if hi - lo > 2000:
                    raise Undecided('long sort')
                return sorted(self.evdef(d.prev, (k,), env) for k in range(lo, hi))[idx[0] - lo]
            if isinstance(d, LoopDef):
                l = loop_force(d.loop)
                it = self._ev(d.it, env)
                lo = self._ev(l.lo, env)
                if it <= lo:
                    d = l.init[d.key]
                    continue
                nxt = l.next[d.key]
                if it - lo > 40:
                    for k in range(int(lo) + 1, int(it), 30):
                        e2 = dict(env)
                        e2[l.it] = k - 1
                        try:
                            self.evdef(nxt, idx, e2)
                        except (UninitRead, OutOfRange):
                            break
                e = dict(env)
                e[l.it] = it - 1
                return self.evdef(nxt, idx, e)
            if hasattr(d, 'value'):
                return d.value(self, idx, env)
            if isinstance(d, UninitDef):
                raise UninitRead(d.why)
            raise Undecided(getattr(d, 'why', 'unknown array'))


class _Exc:
    pass


def _tid(t):
    return t.id
