"""Normal forms and the prover.

nf(t): canonical polynomial over atoms (Iverson brackets, trig atoms in
linearised form, sums in split form, inverse/root powers).  Equality of normal
forms is a proof of equality over the reals.  prove_ge0 discharges linear /
polynomial inequality obligations by bound substitution."""
import time
from fractions import Fraction
from math import gcd
from .terms import *
from . import terms as tm

MAXTERMS = 6000


class TooBig(Exception):
    pass


class Facts:
    def __init__(self):
        self.lo = {}      # atom T -> list of Poly lower bounds
        self.hi = {}
        self.true = set() # boolean terms known true
        self.false = set()
        self.version = 0

    def copy(self):
        f = Facts()
        f.lo = {k: list(v) for k, v in self.lo.items()}
        f.hi = {k: list(v) for k, v in self.hi.items()}
        f.true = set(self.true)
        f.false = set(self.false)
        return f


class Ctx:
    """normalisation context: facts + memo"""

    def __init__(self, facts=None):
        self.facts = facts or Facts()
        self.memo = {}
        self.pmemo = {}
        self.depth = 0
        self.assume = []   # dynamic assumptions: polys known >= 0 (path conditions)


C = Ctx()


def set_ctx(c):
    global C
    C = c


# ------------------------------------------------------------- polynomials
def p_const(c):
    return {(): c} if c != 0 else {}


def p_atom(t, e=1):
    return {((t, e),): 1}


def p_add(a, b, s=1):
    if len(a) < len(b) and s == 1:
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + (c if s == 1 else s * c)
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def p_scale(a, s):
    if s == 0:
        return {}
    return {m: _q(c * s) for m, c in a.items()}


def _q(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return int(c)
    return c


def is_trig(t):
    return t.op == 'fn' and t.a[0] in ('cos', 'sin')


def is_iv(t):
    return t.op in ('ge0', 'eq0', 'bool1')


def mono_mul(m1, m2):
    """product of two monomials -> Poly"""
    if not m1:
        return {m2: 1}
    if not m2:
        return {m1: 1}
    d = dict(m1)
    trig = [t for t, e in m1 if is_trig(t)]
    extra = None
    ivs = False
    for t, e in m2:
        if is_trig(t) and e == 1 and trig:
            extra = t
            continue
        if t in d:
            if is_iv(t):
                continue
            ne_ = d[t] + e
            if t.op == 'num':
                # radical of an integer
                k = ne_
                pw = 0
                while k >= 1:
                    k -= 1
                    pw += 1
                if pw:
                    if k == 0:
                        d.pop(t)
                    else:
                        d[t] = k
                    r = _finish(d, extra, trig)
                    return p_scale(r, t.a[0] ** pw)
                if k == 0:
                    d.pop(t)
                else:
                    d[t] = k
                continue
            if ne_ == 0:
                d.pop(t)
            else:
                d[t] = ne_
        else:
            d[t] = e
        if is_iv(t):
            ivs = True
    return _finish(d, extra, trig)


def _key(te):
    return te[0].id


def _finish(d, extra, trig):
    # powers of multi-term polys with positive integer exponent get expanded
    exp_ = [t for t, e in d.items() if t.op == 'pw' and e >= 1]
    r = None
    if exp_:
        r = p_const(1)
        for t in exp_:
            e = d.pop(t)
            k = int(e) if e == int(e) else int(e // 1)
            rest = _q(Fraction(e) - k)
            base = dict(t.a[0].a[0]) if t.a[0].op == 'poly' else nf(t.a[0])
            for _ in range(k):
                r = p_mul(r, base)
            if rest != 0:
                d[t] = rest
    ivl = [t for t in d if is_iv(t)]
    if len(ivl) > 1:
        z = simplify_ivs(ivl)
        if z is None:
            return {}
        for t in ivl:
            if t not in z:
                d.pop(t)
    if extra is not None:
        t1 = trig[0]
        d.pop(t1)
        base = tuple(sorted(d.items(), key=_key))
        tp = trig_product(t1, extra)
        out = p_mul({base: 1}, tp)
    else:
        out = {tuple(sorted(d.items(), key=_key)): 1}
    if r is not None:
        out = p_mul(out, r)
    return out


def simplify_ivs(ivl):
    """drop implied Iverson factors; None when contradictory"""
    keep = list(ivl)
    polys = {}
    for t in ivl:
        if t.op == 'ge0':
            polys[t] = nf(t.a[0])
    # thresholds on the same linear form: p>=0 and p+c>=0
    items = list(polys.items())
    for i, (t, p) in enumerate(items):
        for u, q in items[i + 1:]:
            if t not in keep or u not in keep:
                continue
            dlt = p_add(p, q, -1)
            if not dlt or (len(dlt) == 1 and () in dlt):
                c = dlt.get((), 0)
                # p = q + c : if c>0 then q>=0 implies p>=0
                if c > 0:
                    keep.remove(t)
                else:
                    keep.remove(u)
                continue
            sm = p_add(p, q)
            if not sm or (len(sm) == 1 and () in sm):
                if sm.get((), 0) < 0:
                    return None
    for t in ivl:
        if t.op != 'eq0' or t not in keep:
            continue
        p = nf(t.a[0])
        for u, q in items:
            if u not in keep:
                continue
            for s in (1, -1):
                dlt = p_add(q, p, -s)
                if not dlt or (len(dlt) == 1 and () in dlt):
                    c = dlt.get((), 0)   # q = s*p + c = c when p==0
                    if c < 0:
                        return None
                    keep.remove(u)
                    break
        for u in ivl:
            if u is t or u.op != 'eq0' or u not in keep:
                continue
            q = nf(u.a[0])
            for s in (1, -1):
                dlt = p_add(q, p, -s)
                if len(dlt) == 1 and () in dlt:
                    return None
    return keep


def trig_product(a, b):
    x = nf(a.a[1])
    y = nf(b.a[1])
    na, nb = a.a[0], b.a[0]
    s = p_add(x, y)
    d = p_add(x, y, -1)
    h = Fraction(1, 2)
    if na == 'cos' and nb == 'cos':
        return p_scale(p_add(mk_trig('cos', d), mk_trig('cos', s)), h)
    if na == 'sin' and nb == 'sin':
        return p_scale(p_add(mk_trig('cos', d), mk_trig('cos', s), -1), h)
    if na == 'sin' and nb == 'cos':
        return p_scale(p_add(mk_trig('sin', s), mk_trig('sin', d)), h)
    return p_scale(p_add(mk_trig('sin', s), mk_trig('sin', d), -1), h)


def mk_trig(name, p):
    if not p:
        return p_const(1) if name == 'cos' else {}
    # lift Iverson brackets out of the argument
    iv = find_iv(p)
    if iv is not None:
        p1, p0 = split_iv(p, iv)
        I = p_atom(iv)
        return p_add(p_mul(I, mk_trig(name, p1)), p_mul(p_add(p_const(1), I, -1), mk_trig(name, p0)))
    # multiples of pi
    if len(p) == 1:
        (m, c), = p.items()
        if m == ((PI, 1),):
            if Fraction(c).denominator == 1:
                return p_const((1 if int(c) % 2 == 0 else -1)) if name == 'cos' else {}
            if Fraction(c).denominator == 2:
                k = Fraction(c) % 2
                return {} if name == 'cos' else p_const(1 if k == Fraction(1, 2) else -1)
    # drop integer multiples of 2 pi, and treat k*pi for integer atoms generically
    lead = min(p, key=_mkey)
    sgn = 1
    if p[lead] < 0:
        p = p_scale(p, -1)
        sgn = -1
    t = mk('fn', name, to_term(p))
    r = p_atom(t)
    if name == 'sin' and sgn < 0:
        r = p_scale(r, -1)
    return r


def _mkey(m):
    return tuple((t.id, e) for t, e in m)


def find_iv(p):
    for m in p:
        for t, e in m:
            if is_iv(t):
                return t
    return None


def split_iv(p, iv):
    p1 = {}
    p0 = {}
    for m, c in p.items():
        if any(t is iv for t, e in m):
            mm = tuple((t, e) for t, e in m if t is not iv)
            p1 = p_add(p1, {mm: c})
        else:
            p1 = p_add(p1, {m: c})
            p0 = p_add(p0, {m: c})
    return p1, p0


DEADLINE = [None]


def p_mul(a, b):
    if not a or not b:
        return {}
    if DEADLINE[0] is not None and time.time() > DEADLINE[0]:
        raise TooBig()
    if len(a) * len(b) > 40000:
        raise TooBig()
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            pr = mono_mul(m1, m2)
            cc = c1 * c2
            for m, c in pr.items():
                v = r.get(m, 0) + c * cc
                if v == 0:
                    r.pop(m, None)
                else:
                    r[m] = _q(v)
    if len(r) > MAXTERMS:
        raise TooBig()
    return r


def to_term(p):
    """canonical term of a polynomial"""
    if not p:
        return ZERO
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = tuple(sorted(((m, _q(c)) for m, c in p.items()), key=lambda mc: _mkey(mc[0])))
    t = mk('poly', items)
    if t.nfc is None:
        fv = set()
        for m, c in items:
            for at, e in m:
                fv |= at.fv
        t.fv = frozenset(fv)
        t.nfc = True
    return t


def p_inv(p):
    return p_pow(p, -1)


def p_pow(p, e):
    if not p:
        return p_atom(unk('power of zero'))
    if isinstance(e, int) and e >= 0:
        r = p_const(1)
        for _ in range(e):
            r = p_mul(r, p)
        return r
    iv = find_iv(p)
    if iv is not None:
        p1, p0 = split_iv(p, iv)
        I = p_atom(iv)
        # a branch with zero base is unreachable or singular
        a = p_mul(I, p_pow(p1, e)) if p1 else p_mul(I, p_atom(unk('power of zero')))
        b = p_mul(p_add(p_const(1), I, -1), p_pow(p0, e)) if p0 else \
            p_mul(p_add(p_const(1), I, -1), p_atom(unk('power of zero')))
        return p_add(a, b)
    # content
    cs = list(p.values())
    g = cs[0]
    for c in cs[1:]:
        g = _fgcd(g, c)
    g = abs(Fraction(g))
    lead = min(p, key=_mkey)
    if len(p) > 1 and isinstance(e, int):
        # orientation of the base: the provably non-negative one, if any, so
        # that fractional powers of it stay real
        if p[lead] < 0:
            if not prove_ge0(p, 2):
                g = -g
        elif not prove_ge0(p, 2) and prove_ge0(p_scale(p, -1), 2):
            g = -g
    elif p[lead] < 0 and isinstance(e, int):
        g = -g
    # common monomial
    common = None
    for m in p:
        d = dict(m)
        if common is None:
            common = dict(d)
        else:
            for t in list(common):
                if t in d:
                    common[t] = min(common[t], d[t])
                else:
                    if common[t] > 0:
                        common.pop(t)
                    else:
                        pass
            for t, x in d.items():
                if x < 0:
                    common[t] = min(common.get(t, 0), x)
    if common is None:
        common = {}
    if len(p) == 1:
        common = dict(next(iter(p)))
    common = {t: x for t, x in common.items() if x != 0 and not is_trig_sum(t)}
    rest = {}
    for m, c in p.items():
        d = dict(m)
        for t, x in common.items():
            y = d.get(t, 0) - x
            if y == 0:
                d.pop(t, None)
            else:
                d[t] = y
        rest[tuple(sorted(d.items(), key=_key))] = _q(Fraction(c) / g)
    r = num_pow(g, e)
    for t, x in common.items():
        r = p_mul(r, p_atom(t, _q(Fraction(x) * e)))
    if not (len(rest) == 1 and () in rest):
        base = to_term(rest)
        if len(rest) == 1:
            # single monomial of trig atoms etc
            pass
        t = mk('pw', base)
        t.fv = base.fv
        r = p_mul(r, p_atom(t, e))
    elif rest[()] != 1:
        r = p_mul(r, num_pow(Fraction(rest[()]), e))
    return r


def is_trig_sum(t):
    return False


def num_pow(g, e):
    if isinstance(e, int):
        return p_const(_q(Fraction(g) ** e))
    g = Fraction(g)
    e = Fraction(e)
    if g < 0:
        return p_atom(unk('root of negative'))
    if g == 1:
        return p_const(1)
    out = p_const(1)
    coef = Fraction(1)
    for n, s in ((g.numerator, 1), (g.denominator, -1)):
        f = 2
        while n > 1 and f * f <= n and f < 2000:
            k = 0
            while n % f == 0:
                n //= f
                k += 1
            if k:
                out = p_mul(out, _radical(f, s * k * e))
            f += 1
        if n > 1:
            out = p_mul(out, _radical(n, s * e))
    return out


def _radical(f, x):
    x = Fraction(x)
    k = x.numerator // x.denominator
    rest = x - k
    c = Fraction(f) ** k
    if rest == 0:
        return p_const(_q(c))
    return {((num(f), rest),): _q(c)}


def _fgcd(a, b):
    a = Fraction(a)
    b = Fraction(b)
    return Fraction(gcd(a.numerator * b.denominator, b.numerator * a.denominator), a.denominator * b.denominator)


# ------------------------------------------------------------- normal form
def nf(t):
    r = C.memo.get(t)
    if r is not None:
        return r
    C.depth += 1
    try:
        r = _nf(t)
    finally:
        C.depth -= 1
    C.memo[t] = r
    return r


def canon(t):
    return to_term(nf(t))


def _nf(t):
    op = t.op
    a = t.a
    if op == 'num':
        return p_const(a[0])
    if op == 'poly':
        return dict(a[0])
    if op in ('bv',):
        return p_atom(t)
    if op == 'sym':
        if t.kind == 'bool':
            return nf_bool(t)
        s = C.subsyms.get(t) if hasattr(C, 'subsyms') else None
        if s is not None:
            return nf(s)
        return p_atom(t)
    if op == 'add':
        r = {}
        for x in a:
            r = p_add(r, nf(x))
        if len(r) > MAXTERMS:
            raise TooBig()
        return r
    if op == 'mul':
        r = p_const(1)
        for x in a:
            r = p_mul(r, nf(x))
        return r
    if op == 'div':
        return p_mul(nf(a[0]), p_inv(nf(a[1])))
    if op == 'idiv':
        return nf_idiv(nf(a[0]), nf(a[1]))
    if op == 'imod':
        x = nf(a[0])
        y = nf(a[1])
        return p_add(x, p_mul(y, nf_idiv(x, y)), -1)
    if op == 'fn':
        return nf_fn(t, a[0], a[1:])
    if op in ('lt', 'eq', 'not', 'and', 'or', 'true', 'false', 'exists'):
        return nf_bool(t)
    if op == 'ite':
        c = nf_bool(a[0])
        if c == {(): 1}:
            return nf(a[1])
        if not c:
            return nf(a[2])
        x = nf(a[1])
        y = nf(a[2])
        if x == y:
            return x
        return p_add(p_mul(c, p_add(x, y, -1)), y)
    if op == 'elem':
        return nf_elem(t, a[0].d, [canon(x) for x in a[1:]])
    if op == 'sum':
        return nf_sum(a[0], nf(a[1]), nf(a[2]), a[3])
    if op == 'ge0' or op == 'eq0' or op == 'bool1':
        return nf_ivterm(t)
    if op == 'pw':
        return p_atom(t)
    if op in ('uninit', 'unk', 'rec', 'first', 'str', 'cat', 'none', 'sref'):
        if op == 'first':
            return p_atom(t)
        return p_atom(t)
    return p_atom(t)


def nf_elem(t, d, idx):
    for _ in range(4000):
        if isinstance(d, ExprDef):
            return nf(subst(d.body, dict(zip(d.formals, idx))))
        if isinstance(d, UpdDef):
            m = dict(zip(d.formals, idx))
            c = nf_bool(subst(d.cond, m))
            if c == {(): 1}:
                return nf(subst(d.val, m))
            if not c:
                d = d.prev
                continue
            x = nf(subst(d.val, m))
            y = nf(elem(d.prev, idx))
            if x == y:
                return x
            return p_add(p_mul(c, p_add(x, y, -1)), y)
        if isinstance(d, IteDef):
            c = nf_bool(d.cond)
            if c == {(): 1}:
                d = d.x
                continue
            if not c:
                d = d.y
                continue
            x = nf(elem(d.x, idx))
            y = nf(elem(d.y, idx))
            if x == y:
                return x
            return p_add(p_mul(c, p_add(x, y, -1)), y)
        break
    r = elem(d, idx)
    if r.op != 'elem':
        return nf(r)
    return p_atom(r)


def nf_fn(t, name, args):
    if name in ('cos', 'sin'):
        return mk_trig(name, nf(args[0]))
    if name == 'sqrt':
        return p_pow(nf(args[0]), Fraction(1, 2))
    if name == 'abs':
        p = nf(args[0])
        if all_int(p):
            c = nf_bool(lt(to_term(p), ZERO))
            return p_mul(p, p_add(p_const(1), p_scale(c, 2), -1))
        iv = find_iv(p)
        if iv is not None:
            p1, p0 = split_iv(p, iv)
            I = p_atom(iv)
            return p_add(p_mul(I, nf_fn(t, 'abs', [to_term(p1)])),
                         p_mul(p_add(p_const(1), I, -1), nf_fn(t, 'abs', [to_term(p0)])))
        if len(p) == 1 and () in p:
            return p_const(abs(p[()]))
        lead = min(p, key=_mkey) if p else None
        if lead is not None and p[lead] < 0:
            p = p_scale(p, -1)
        return p_atom(mk('fn', 'abs', to_term(p)))
    if name in ('max', 'min'):
        ps = [nf(x) for x in args]
        if len(ps) == 2:
            for i, j in ((0, 1), (1, 0)):
                if prove_ge0(p_add(ps[i], ps[j], -1)):
                    return ps[i] if name == 'max' else ps[j]
            if all_int(ps[0]) and all_int(ps[1]):
                c = nf_bool(lt(to_term(ps[0]), to_term(ps[1])))
                x, y = (ps[1], ps[0]) if name == 'max' else (ps[0], ps[1])
                return p_add(p_mul(c, p_add(x, y, -1)), y)
        ts = sorted((to_term(p) for p in ps), key=lambda x: x.id)
        r = mk('fn', name, *ts)
        return p_atom(r)
    if name in ('trunc', 'floor', 'ceil', 'round', 'lround'):
        p = nf(args[0])
        if all_int(p):
            return p
        r = mk('fn', name, to_term(p))
        return p_atom(r)
    if name == 'pow' and len(args) == 2:
        e = nf(args[1])
        if len(e) <= 1 and (not e or () in e):
            ev = e.get((), 0)
            if isinstance(ev, int) or Fraction(ev).denominator == 2:
                return p_pow(nf(args[0]), ev)
    ts = [canon(x) for x in args]
    # lift brackets out of uninterpreted functions is unnecessary
    r = mk('fn', name, *ts)
    if t.kind:
        r.kind = t.kind
    return p_atom(r)


def atom_int(t):
    op = t.op
    if op in ('bv', 'ge0', 'eq0', 'bool1'):
        return True
    if op == 'sym':
        return t.kind in ('int', 'bool')
    if op == 'elem':
        d = t.a[0].d
        return isinstance(d, InputDef) and d.kind == 'int'
    if op in ('idiv', 'first'):
        return True
    if op == 'fn':
        return t.a[0] in ('trunc', 'floor', 'ceil', 'round', 'lround') or t.kind == 'int'
    if op == 'sum':
        return all_int(nf(t.a[3]))
    if op == 'rec':
        return t.kind == 'int'
    return False


def all_int(p):
    for m, c in p.items():
        if Fraction(c).denominator != 1:
            return False
        for t, e in m:
            if not (isinstance(e, int) and e > 0 and atom_int(t)):
                return False
    return True


# ------------------------------------------------------------- booleans
def nf_bool(t):
    r = C.memo.get(('b', t))
    if r is not None:
        return r
    r = _nf_bool(t)
    C.memo[('b', t)] = r
    return r


def _nf_bool(t):
    op = t.op
    a = t.a
    F = C.facts
    if op == 'true':
        return p_const(1)
    if op == 'false':
        return {}
    if t in F.true:
        return p_const(1)
    if t in F.false:
        return {}
    if op == 'not':
        return p_add(p_const(1), nf_bool(a[0]), -1)
    if op == 'and':
        r = p_const(1)
        for x in a:
            r = p_mul(r, nf_bool(x))
            if not r:
                return r
        return r
    if op == 'or':
        r = p_const(1)
        for x in a:
            r = p_mul(r, p_add(p_const(1), nf_bool(x), -1))
            if not r:
                break
        return p_add(p_const(1), r, -1)
    if op == 'lt':
        p = p_add(nf(a[1]), nf(a[0]), -1)   # b - a > 0
        return iv_gt0(p)
    if op == 'eq':
        p = p_add(nf(a[0]), nf(a[1]), -1)
        return iv_eq0(p)
    if op == 'ite':
        c = nf_bool(a[0])
        x = nf_bool(truth(a[1]))
        y = nf_bool(truth(a[2]))
        return p_add(p_mul(c, p_add(x, y, -1)), y)
    if op in ('ge0', 'eq0', 'bool1'):
        return nf_ivterm(t)
    if op == 'exists':
        v, lo, hi, body = a
        lo, hi = canon(lo), canon(hi)
        b = nf_bool(body)
        if not b:
            return {}
        bt = to_term(b)
        nv, body2 = rename_bound(v, lo, hi, bt)
        r = mk('exists', nv, lo, hi, body2)
        r.fv = frozenset((body2.fv - {nv}) | lo.fv | hi.fv)
        r = mk('bool1', r)
        return p_atom(r)
    r = mk('bool1', t)
    return p_atom(r)


def nf_ivterm(t):
    """re-normalise an Iverson atom (after substitution or under new facts)"""
    if t.op == 'bool1':
        return p_atom(t)
    p = nf(t.a[0])
    if t.op == 'ge0':
        return iv_ge0(p)
    return iv_eq0(p)


def iv_gt0(p):
    if not p:
        return {}
    if all_int(p):
        return iv_ge0(p_add(p, p_const(-1)))
    iv = find_iv(p)
    if iv is not None:
        p1, p0 = split_iv(p, iv)
        I = p_atom(iv)
        return p_add(p_mul(I, iv_gt0(p1)), p_mul(p_add(p_const(1), I, -1), iv_gt0(p0)))
    if len(p) == 1 and () in p:
        return p_const(1) if p[()] > 0 else {}
    # real: p>0  ==  1 - [-p >= 0]
    return p_add(p_const(1), mk_ge_real(p_scale(p, -1)), -1)


def mk_ge_real(p):
    sc = None
    lead = min(p, key=_mkey)
    g = abs(Fraction(p[lead]))
    p = p_scale(p, Fraction(1) / g)
    if prove_ge0(p):
        return p_const(1)
    t = mk('ge0', to_term(p))
    return p_atom(t)


def iv_ge0(p):
    if len(p) == 0:
        return p_const(1)
    if len(p) == 1 and () in p:
        return p_const(1) if p[()] >= 0 else {}
    if not all_int(p):
        iv = find_iv(p)
        if iv is None:
            return mk_ge_real(p)
    iv = find_iv(p)
    if iv is not None:
        p1, p0 = split_iv(p, iv)
        I = p_atom(iv)
        return p_add(p_mul(I, iv_ge0(p1)), p_mul(p_add(p_const(1), I, -1), iv_ge0(p0)))
    # common positive factor
    p = strip_positive(p)
    # integer content
    g = 0
    for m, c in p.items():
        if m != ():
            g = gcd(g, int(c))
    if g > 1:
        p = {m: (int(c) // g if m != () else int(c) // g) for m, c in p.items()}
        p = {m: c for m, c in p.items() if c != 0}
    if len(p) == 1 and () in p:
        return p_const(1) if p[()] >= 0 else {}
    if not p:
        return p_const(1)
    if prove_ge0(p):
        return p_const(1)
    np_ = p_add(p_scale(p, -1), p_const(-1))
    if prove_ge0(np_):
        return {}
    q = mixed_radix_ge(p)
    if q is not None:
        return iv_ge0(q)
    # polarity
    mons = [m for m in p if m != ()]
    lead = min(mons, key=_mkey)
    if p[lead] < 0:
        t = mk('ge0', to_term(np_))
        return p_add(p_const(1), p_atom(t), -1)
    return p_atom(mk('ge0', to_term(p)))


def strip_positive(p):
    """p = A*r + c with A>=1 an atom, c in {0,-1}: p>=0 <=> r + c >= 0"""
    c = p.get((), 0)
    if c not in (0, -1):
        return p
    mons = [m for m in p if m != ()]
    if not mons:
        return p
    cand = [t for t, e in mons[0] if e >= 1]
    for t in cand:
        if all(any(u is t and e >= 1 for u, e in m) for m in mons) and prove_ge0(p_add(p_atom(t), p_const(-1))) and atom_int(t):
            r = {}
            for m in mons:
                d = dict(m)
                d[t] -= 1
                if d[t] == 0:
                    d.pop(t)
                r[tuple(sorted(d.items(), key=_key))] = p[m]
            if c:
                r = p_add(r, p_const(c))
            return strip_positive(r)
    return p


def divisors_in(p):
    """candidate radices: positive atoms or polys occurring as coefficients of
    bound variables"""
    out = []
    seen = set()
    for m, c in p.items():
        vs = [t for t, e in m if t.op in ('bv', 'elem', 'idiv')]
        rest = tuple((t, e) for t, e in m if t.op not in ('bv', 'elem', 'idiv'))
        if len(vs) == 1:
            seen.add(vs[0])
    for v in seen:
        co = {}
        for m, c in p.items():
            d = dict(m)
            if d.get(v) == 1:
                d.pop(v)
                co[tuple(sorted(d.items(), key=_key))] = c
        if co and not (len(co) == 1 and () in co and abs(co[()]) == 1):
            if all(not (t.op == 'bv') for m in co for t, e in m):
                out.append(co)
    # group coefficient polynomials up to sign, plus symbol factors
    return out


def p_divmod(p, D):
    """division of p by polynomial D w.r.t. its leading monomial; returns q, r
    with p = D*q + r, greedily cancelling all multiples of the lead monomial"""
    mons = [m for m in D if m != ()]
    if not mons:
        return None
    lead = max(mons, key=lambda m: (sum(e for t, e in m), _mkey(m)))
    lc = D[lead]
    ld = dict(lead)
    q = {}
    r = dict(p)
    for _ in range(60):
        hit = None
        for m, c in r.items():
            d = dict(m)
            if all(d.get(t, 0) >= e for t, e in ld.items()) and Fraction(c, 1) % abs(lc) == 0:
                hit = (m, c)
                break
        if hit is None:
            break
        m, c = hit
        d = dict(m)
        for t, e in ld.items():
            d[t] -= e
            if d[t] == 0:
                d.pop(t)
        qm = {tuple(sorted(d.items(), key=_key)): _q(Fraction(c) / lc)}
        q = p_add(q, qm)
        r = p_add(r, p_mul(qm, D), -1)
    return q, r


def mixed_radix_ge(p):
    """p = D*q + r with 0<=r<D  =>  p>=0 <=> q>=0"""
    for D in divisors_in(p):
        # D must be provably positive
        for s in (1, -1):
            DD = p_scale(D, s)
            if not prove_ge0(p_add(DD, p_const(-1))):
                continue
            res = p_divmod(p, DD)
            if res is None:
                continue
            q, r = res
            if not q or (len(q) == 1 and () in q):
                continue
            for k in (0, 1, -1):
                rr = p_add(r, p_scale(DD, k))
                qq = p_add(q, p_const(-k))
                if prove_ge0(rr) and prove_ge0(p_add(p_add(DD, rr, -1), p_const(-1))):
                    return qq
    return None


def iv_eq0(p):
    if not p:
        return p_const(1)
    if len(p) == 1 and () in p:
        return {}
    # string / opaque comparisons
    iv = find_iv(p)
    if iv is not None:
        p1, p0 = split_iv(p, iv)
        I = p_atom(iv)
        return p_add(p_mul(I, iv_eq0(p1)), p_mul(p_add(p_const(1), I, -1), iv_eq0(p0)))
    if all_int(p):
        # common nonzero factor
        p = strip_nonzero(p)
        g = 0
        for m, c in p.items():
            if m != ():
                g = gcd(g, int(c))
        c0 = int(p.get((), 0))
        if g > 1:
            if c0 % g:
                return {}
            p = {m: int(c) // g for m, c in p.items()}
        if prove_ge0(p_add(p, p_const(-1))) or prove_ge0(p_add(p_scale(p, -1), p_const(-1))):
            return {}
        # one-sided bound: p>=0 known => [p==0] = 1-[p>=1]
        if prove_ge0(p):
            return p_add(p_const(1), iv_ge0(p_add(p, p_const(-1))), -1)
        if prove_ge0(p_scale(p, -1)):
            return p_add(p_const(1), iv_ge0(p_add(p_scale(p, -1), p_const(-1))), -1)
        mr = mixed_radix_eq(p)
        if mr is not None:
            q, r = mr
            return p_mul(iv_eq0(q), iv_eq0(r))
    lead = min(p, key=_mkey)
    if p[lead] < 0:
        p = p_scale(p, -1)
    return p_atom(mk('eq0', to_term(p)))


def mixed_radix_eq(p):
    for D in divisors_in(p):
        for s in (1, -1):
            DD = p_scale(D, s)
            if not prove_ge0(p_add(DD, p_const(-1))):
                continue
            res = p_divmod(p, DD)
            if res is None:
                continue
            q, r = res
            if not q or not r:
                continue
            # -D < r < D  => p==0 iff q==0 and r==0
            if prove_ge0(p_add(p_add(DD, r, -1), p_const(-1))) and prove_ge0(p_add(p_add(DD, r), p_const(-1))):
                return q, r
    return None


def strip_nonzero(p):
    if () in p:
        return p
    m0 = next(iter(p))
    for t, e in m0:
        if all(any(u is t and x >= 1 for u, x in m) for m in p) and prove_ge0(p_add(p_atom(t), p_const(-1))):
            r = {}
            for m, c in p.items():
                d = dict(m)
                d[t] -= 1
                if d[t] == 0:
                    d.pop(t)
                r[tuple(sorted(d.items(), key=_key))] = c
            return strip_nonzero(r) if len(r) else r
    return p


# ------------------------------------------------------------- idiv
def nf_idiv(p, D):
    if not p:
        return {}
    if len(D) == 1 and () in D:
        c = D[()]
        if c == 1:
            return p
        if c == -1:
            return p_scale(p, -1)
    iv = find_iv(p) or find_iv(D)
    if iv is not None:
        p1, p0 = split_iv(p, iv)
        d1, d0 = split_iv(D, iv)
        I = p_atom(iv)
        a = nf_idiv(p1, d1) if d1 else p_atom(unk('div0'))
        b = nf_idiv(p0, d0) if d0 else p_atom(unk('div0'))
        return p_add(p_mul(I, a), p_mul(p_add(p_const(1), I, -1), b))
    if len(p) == 1 and () in p and len(D) == 1 and () in D:
        return p_const(idiv(num(p[()]), num(D[()])).a[0])
    # exact division by every monomial
    if len(D) == 1:
        (dm, dc), = D.items()
        q = {}
        r = {}
        dd = dict(dm)
        for m, c in p.items():
            d = dict(m)
            if all(d.get(t, 0) >= e for t, e in dd.items()) and Fraction(c) % Fraction(dc) == 0:
                for t, e in dd.items():
                    d[t] -= e
                    if d[t] == 0:
                        d.pop(t)
                q[tuple(sorted(d.items(), key=_key))] = _q(Fraction(c) / Fraction(dc))
            else:
                r[m] = c
        if not r:
            return q
    res = None
    mons = [m for m in D if m != ()]
    if mons:
        res = p_divmod(p, D)
        if res is not None and not res[1]:
            return res[0]
    elif D:
        c = D[()]
        q = {}
        r = {}
        for m, x in p.items():
            if m == ():
                k = Fraction(x) // c
                if k:
                    q[m] = _q(k)
                if x - k * c:
                    r[m] = x - k * c
            elif Fraction(x) % c == 0:
                q[m] = _q(Fraction(x) / c)
            else:
                r[m] = x
        res = (q, r)
    if all_int(p) and all_int(D) and prove_ge0(p) and prove_ge0(p_add(D, p_const(-1))):
        cands = [(({}), p)]
        if res is not None and res[0]:
            cands.insert(0, res)
            cands.append((p_add(res[0], p_const(-1)), p_add(res[1], D)))
        for q, r in cands:
            if prove_ge0(r) and prove_ge0(p_add(p_add(D, r, -1), p_const(-1))):
                return q
        if res is not None and res[0] and prove_ge0(res[1]) and prove_ge0(res[0]):
            # p = D*q + r with q,r>=0: p div D = q + r div D
            t = mk('idiv', to_term(res[1]), to_term(D))
            return p_add(res[0], p_atom(t))
        t = mk('idiv', to_term(p), to_term(D))
        # merge with the mixed radix rewriting of sums is done in nf_sum
        return p_atom(t)
    return p_atom(mk('idiv', to_term(p), to_term(D)))


# ------------------------------------------------------------- prover
def bounds(t):
    """lists of lower and upper bound polys of an atom"""
    los = list(C.facts.lo.get(t, ()))
    his = list(C.facts.hi.get(t, ()))
    op = t.op
    if op == 'bv':
        lo, hi = BV.info.get(t, (None, None))
        if lo is not None:
            los.append(nf(lo))
        if hi is not None:
            his.append(p_add(nf(hi), p_const(-1)))
    elif op in ('ge0', 'eq0', 'bool1'):
        los.append({})
        his.append(p_const(1))
    elif op == 'elem':
        d = t.a[0].d
        if isinstance(d, InputDef) and d.bounds is not None:
            lo, hi = d.bounds(t.a[1:])
            if lo is not None:
                los.append(nf(lo))
            if hi is not None:
                his.append(nf(hi))
    elif op == 'idiv':
        p = nf(t.a[0])
        D = nf(t.a[1])
        if C.depth < 40 and _guard(('idivb', t)):
            try:
                if prove_ge0(p) and prove_ge0(p_add(D, p_const(-1))):
                    los.append({})
                    # q <= p for D>=1 ; if p <= D*k - 1 then q <= k-1
                    if len(D) == 1 and () in D:
                        his.append(p_scale(p, Fraction(1, D[()])))
                        los.append(p_scale(p_add(p, p_const(-D[()] + 1)), Fraction(1, D[()])))
                    else:
                        ub = upper_div(p, D)
                        if ub is not None:
                            his.append(ub)
            finally:
                _unguard(('idivb', t))
    elif op == 'first':
        v, lo, hi, c = t.a
        los.append(nf(lo))
        if hi is not NONE:
            his.append(nf(hi))
    elif op == 'fn' and t.a[0] in ('cos', 'sin'):
        los.append(p_const(-1))
        his.append(p_const(1))
    elif op == 'fn' and t.a[0] in ('abs', 'sqrt'):
        los.append({})
    elif op == 'fn' and t.a[0] == 'max':
        for x in t.a[1:]:
            los.append(nf(x))
    elif op == 'fn' and t.a[0] == 'min':
        for x in t.a[1:]:
            his.append(nf(x))
    elif op == 'pw':
        if prove_ge0(nf(t.a[0])):
            los.append({})
    elif op == 'num':
        los.append({})
    elif op == 'sym' and t is PI:
        los.append(p_const(3))
        his.append(p_const(4))
    elif op == 'sum':
        v, lo, hi, body = t.a
        if _guard(('sumb', t)):
            try:
                if prove_ge0(nf(body)):
                    los.append({})
            finally:
                _unguard(('sumb', t))
    return los, his


def upper_div(p, D):
    """k-1 when p <= D*k - 1 provably, k from the range of bound variables"""
    # replace bound variables of p by their upper bounds
    q = p
    for m in list(p):
        for t, e in m:
            if t.op == 'bv' and e == 1:
                lo, hi = BV.info.get(t, (None, None))
                if hi is None:
                    return None
                h = nf(hi)
                res = p_divmod(h, D)
                if res is not None and not res[1]:
                    # t < D*k
                    rest = p_add(p, p_atom(t), -1)
                    if not rest:
                        return p_add(res[0], p_const(-1))
    return None


_active = set()


def _guard(k):
    if k in _active:
        return False
    _active.add(k)
    return True


def _unguard(k):
    _active.discard(k)


def prove_ge0(p, depth=7):
    if not p:
        return True
    if len(p) == 1 and () in p:
        return p[()] >= 0
    key = to_term(p)
    r = C.pmemo.get((key, len(C.assume)))
    if r is not None:
        if r[0] or r[1] >= depth:
            return r[0]
    if not _guard(('pr', key)):
        return False
    try:
        v = _prove(p, depth)
    finally:
        _unguard(('pr', key))
    C.pmemo[(key, len(C.assume))] = (v, depth)
    return v


def nonneg_atom(t):
    los, his = bounds(t)
    for l in los:
        if not l or (len(l) == 1 and () in l and l[()] >= 0):
            return True
    for l in los:
        if l and prove_ge0(l, 3):
            return True
    return False


def _prove(p, depth):
    # trivial: all monomials nonneg
    ok = True
    for m, c in p.items():
        if c < 0 or not all((not isinstance(e, int) or e % 2 == 0) or nonneg_atom(t) for t, e in m):
            ok = False
            break
    if ok:
        return True
    for a in C.assume:
        d = p_add(p, a, -1)
        if d == {} or (len(d) == 1 and () in d and d[()] >= 0):
            return True
    if depth <= 0:
        return False
    iv = find_iv(p)
    if iv is not None:
        p1, p0 = split_iv(p, iv)
        if prove_ge0(p1, depth - 1) and prove_ge0(p0, depth - 1):
            return True
    # eliminate a variable through its bounds
    vs = {}
    for m in p:
        for t, e in m:
            if e == 1 or (isinstance(e, int) and e > 0):
                vs.setdefault(t, 0)
                vs[t] = max(vs[t], e)
    # prefer bound variables / derived atoms first
    order = sorted((t for t, e in vs.items() if e == 1), key=lambda t: (PRIO.get(t.op, 5), -t.id))
    for t in order:
        co = {}
        rest = {}
        for m, c in p.items():
            d = dict(m)
            if t in d:
                d.pop(t)
                co[tuple(sorted(d.items(), key=_key))] = c
            else:
                rest[m] = c
        if t.op == 'idiv':
            # D*q = x - r, 0 <= r <= D-1
            D = nf(t.a[1])
            m0 = next(iter(D), None)
            if m0 is not None and m0 in co:
                k = Fraction(co[m0]) / Fraction(D[m0])
                if p_scale(D, k) == co:
                    x = nf(t.a[0])
                    if prove_ge0(x, depth - 1) and prove_ge0(p_add(D, p_const(-1)), depth - 1):
                        g = p_add(rest, p_scale(x, k))
                        if k > 0:
                            g = p_add(g, p_scale(p_add(D, p_const(-1)), k), -1)
                        if prove_ge0(g, depth - 1):
                            return True
        los, his = bounds(t)
        if los and prove_ge0(co, min(depth - 1, 2)):
            for l in los:
                if prove_ge0(p_add(p_mul(co, l), rest), depth - 1):
                    return True
        elif his and prove_ge0(p_scale(co, -1), min(depth - 1, 2)):
            for h in his:
                if prove_ge0(p_add(p_mul(co, h), rest), depth - 1):
                    return True
    # linear use of assumptions: p - k*a >= 0
    if depth >= 4:
        for a in C.assume:
            if _shares(p, a):
                d = p_add(p, a, -1)
                if len(d) < len(p) + 1 and prove_ge0(d, depth - 3):
                    return True
    return False


def _shares(p, a):
    for m in a:
        if m != () and m in p:
            return True
    return False


PRIO = {'bv': 0, 'elem': 1, 'idiv': 1, 'first': 1, 'sum': 1, 'fn': 2, 'sym': 3, 'pw': 4}


# ------------------------------------------------------------- sums
def height(t, memo=None):
    if t.op == 'sum' or t.op == 'exists' or t.op == 'first':
        pass
    h = 0
    st = [t]
    seen = set()
    # compute max nesting of canonical binders
    return _height(t)


_hmemo = {}


def _height(t):
    r = _hmemo.get(t)
    if r is not None:
        return r
    h = 0
    for x in t.a:
        if type(x) is T:
            h = max(h, _height(x))
        elif type(x) is tuple:
            for mc in x:
                for at, e in mc[0]:
                    h = max(h, _height(at))
        elif type(x) is tm.DRef:
            pass
    if t.op in ('sum', 'exists', 'first'):
        h += 1
    _hmemo[t] = h
    return h


def rename_bound(v, lo, hi, body):
    """canonical bound variable"""
    nv = bv_named('$%d:%d:%d' % (_height(body), lo.id, hi.id), lo, hi)
    if nv is v:
        return v, body
    b2 = canon(subst_c(body, v, nv))
    # renaming cannot change heights upwards; if normalisation lowered it, redo
    if _height(b2) < _height(body) and nv in b2.fv:
        return rename_bound(nv, lo, hi, b2)
    return nv, b2


_scache = {}


def subst_c(t, v, e):
    """substitution inside canonical (poly-containing) terms"""
    if v not in t.fv:
        return t
    key = (t, v, e)
    r = _scache.get(key)
    if r is not None:
        return r
    if t is v:
        r = e
    elif t.op == 'poly':
        xs = []
        for m, c in t.a[0]:
            fs = [num(c)]
            for at, x in m:
                b = subst_c(at, v, e)
                if x == 1:
                    fs.append(b)
                else:
                    fs.append(mk_power(b, x))
            xs.append(mul(*fs))
        r = add(*xs)
    elif t.op in ('ge0', 'eq0', 'bool1', 'pw'):
        b = subst_c(t.a[0], v, e)
        if t.op == 'ge0':
            r = mk('ge0', b)
        elif t.op == 'eq0':
            r = mk('eq0', b)
        elif t.op == 'bool1':
            r = mk('bool1', b)
        else:
            r = b
            return r
    else:
        r = tm.rebuild(t, lambda x: subst_c(x, v, e), lambda d: subst_def(d, {v: e}))
    _scache[key] = r
    return r


def mk_power(b, x):
    t = mk('powr', b, x)
    return t


_old_nf = _nf


def _nf(t):
    if t.op == 'powr':
        p = nf(t.a[0])
        return p_pow(p, t.a[1])
    return _old_nf(t)


def nf_sum(v, lo, hi, body):
    """Sum_{v in [lo,hi)} body"""
    if prove_ge0(p_add(lo, hi, -1)):
        return {}
    lot, hit = to_term(lo), to_term(hi)
    # give the bound variable its range
    w = bv_named('$s:%d:%d:%d' % (lot.id, hit.id, _sumdepth()), lot, hit)
    _push()
    try:
        p = nf(subst_any(body, v, w))
    finally:
        _pop()
    return sum_poly(w, lo, hi, p)


_sd = [0]


def _push():
    _sd[0] += 1


def _pop():
    _sd[0] -= 1


def _sumdepth():
    return _sd[0]


def subst_any(t, v, e):
    if has_poly(t):
        return subst_c(t, v, e)
    return subst(t, {v: e})


_hp = {}


def has_poly(t):
    r = _hp.get(t)
    if r is None:
        r = False
        if t.op in ('poly', 'ge0', 'eq0', 'pw', 'bool1', 'powr'):
            r = True
        else:
            for x in t.a:
                if type(x) is T and has_poly(x):
                    r = True
                    break
        _hp[t] = r
    return r


def sum_poly(w, lo, hi, p):
    """sum a normalised body polynomial"""
    out = {}
    groups = {}
    for m, c in p.items():
        dep = tuple((t, e) for t, e in m if w in t.fv)
        ind = tuple((t, e) for t, e in m if w not in t.fv)
        groups.setdefault(dep, {})
        groups[dep] = p_add(groups[dep], {ind: c})
    for dep, co in groups.items():
        s = sum_mono(w, lo, hi, dep)
        out = p_add(out, p_mul(co, s))
    return out


def count(lo, hi):
    n = p_add(hi, lo, -1)
    if prove_ge0(n):
        return n
    I = iv_ge0(n)
    return p_mul(I, n)


def sum_mono(w, lo, hi, dep):
    if not dep:
        return count(lo, hi)
    lot, hit = to_term(lo), to_term(hi)
    # mixed radix: idiv(w,D) occurrences with hi = D*K -> nested sum
    D = find_idiv(dep, w)
    if D is not None and not lo:
        res = p_divmod(hi, D) if any(m != () for m in D) else (
            (p_scale(hi, Fraction(1, D[()])), {}) if all(Fraction(c) % D[()] == 0 for c in hi.values()) else None)
        if res is not None and not res[1]:
            K = res[0]
            Dt, Kt = to_term(D), to_term(K)
            a = bv_named('$a:%d:%d:%d' % (ZERO.id, Kt.id, _sumdepth()), ZERO, Kt)
            b = bv_named('$b:%d:%d:%d' % (ZERO.id, Dt.id, _sumdepth()), ZERO, Dt)
            body = to_term({dep: 1})
            e = add(mul(a, Dt), b)
            _push()
            try:
                p = nf(subst_c(body, w, e))
                inner = sum_poly(b, {}, D, p)
                r = sum_poly(a, {}, K, inner)
            finally:
                _pop()
            return r
    # Iverson factors linear in w: restrict the range or collapse
    for t, e in dep:
        if t.op == 'eq0':
            q = nf(t.a[0])
            sol = solve_unit(q, w)
            if sol is not None:
                rest = tuple((u, x) for u, x in dep if u is not t)
                st = to_term(sol)
                inr = p_mul(iv_ge0(p_add(sol, lo, -1)), iv_ge0(p_add(p_add(hi, sol, -1), p_const(-1))))
                if not inr:
                    return {}
                val = nf(subst_c(to_term({rest: 1}), w, st)) if rest else p_const(1)
                return p_mul(inr, val)
    for t, e in dep:
        if t.op == 'ge0':
            q = nf(t.a[0])
            co = coeff_of(q, w)
            if co in (1, -1):
                rest = tuple((u, x) for u, x in dep if u is not t)
                base = p_add(q, p_scale(p_atom(w), co), -1)
                if co == 1:
                    # w >= -base
                    nlo = p_scale(base, -1)
                    if prove_ge0(p_add(nlo, lo, -1)):
                        if prove_ge0(p_add(hi, nlo, -1)):
                            return resum(w, nlo, hi, rest)
                        if prove_ge0(p_add(nlo, hi, -1)):
                            return {}
                else:
                    # w <= base -> w < base+1
                    nhi = p_add(base, p_const(1))
                    if prove_ge0(p_add(hi, nhi, -1)):
                        if prove_ge0(p_add(nhi, lo, -1)):
                            return resum(w, lo, nhi, rest)
                        if prove_ge0(p_add(lo, nhi, -1)):
                            return {}
    # closed forms for polynomial bodies in w
    if all(t is w for t, e in dep) and dep[0][1] in (1, 2):
        k = dep[0][1]
        S = lambda n: (p_scale(p_mul(n, p_add(n, p_const(-1))), Fraction(1, 2)) if k == 1 else
                       p_scale(p_mul(p_mul(n, p_add(n, p_const(-1))), p_add(p_scale(n, 2), p_const(-1))), Fraction(1, 6)))
        r = p_add(S(hi), S(lo), -1)
        if prove_ge0(p_add(hi, lo, -1)):
            return r
    # shift to lo = 0?  canonical: keep [lo,hi); normalise numeric lo to 0
    if lo:
        n = p_add(hi, lo, -1)
        z = bv_named('$z:%d:%d:%d' % (ZERO.id, to_term(n).id, _sumdepth()), ZERO, to_term(n))
        body = to_term({dep: 1})
        _push()
        try:
            p = nf(subst_c(body, w, add(z, lot)))
            r = sum_poly(z, {}, n, p)
        finally:
            _pop()
        return r
    body = to_term({dep: 1})
    nv, b2 = rename_bound(w, lot, hit, body)
    if nv not in b2.fv:
        return p_mul(count(lo, hi), nf(b2))
    pb = nf(b2)
    if len(pb) != 1 or (len(pb) == 1 and (next(iter(pb.values())) != 1 or any(nv not in t.fv for t, e in next(iter(pb))))):
        return sum_poly(nv, lo, hi, pb)
    s = mk('sum', nv, lot, hit, b2)
    s.fv = frozenset((b2.fv - {nv}) | lot.fv | hit.fv)
    return p_atom(s)


def resum(w, lo, hi, rest):
    if not rest:
        return count(lo, hi)
    lot, hit = to_term(lo), to_term(hi)
    z = bv_named('$r:%d:%d:%d' % (lot.id, hit.id, _sumdepth()), lot, hit)
    _push()
    try:
        p = nf(subst_c(to_term({rest: 1}), w, z))
        r = sum_poly(z, lo, hi, p)
    finally:
        _pop()
    return r


def coeff_of(q, w):
    co = None
    for m, c in q.items():
        if any(w in t.fv for t, e in m):
            if m == ((w, 1),):
                co = c
            else:
                return None
    return co


def solve_unit(q, w):
    co = coeff_of(q, w)
    if co in (1, -1):
        base = p_add(q, p_scale(p_atom(w), co), -1)
        return p_scale(base, -co)
    return None


def find_idiv(dep, w):
    """radix D of an idiv(w,D) atom inside the monomial"""
    st = [t for t, e in dep]
    seen = set()
    while st:
        t = st.pop()
        if t in seen or w not in t.fv:
            continue
        seen.add(t)
        if t.op == 'idiv' and t.a[0] is w:
            return nf(t.a[1])
        if t.op == 'poly':
            for m, c in t.a[0]:
                st.extend(at for at, e in m)
        else:
            st.extend(x for x in t.a if type(x) is T)
    return None


# ------------------------------------------------------------- equality
def clear_denominators(p, limit=6):
    """multiply by the bases of negative powers"""
    for _ in range(limit):
        dens = {}
        for m in p:
            for t, e in m:
                if e < 0 and isinstance(e, int):
                    dens[t] = min(dens.get(t, 0), e)
        if not dens:
            break
        for t, e in dens.items():
            if t.op == 'pw':
                base = nf(t.a[0])
                f = p_pow(base, -e)
                # multiply monomial-wise: monomials having t^-k cancel
                r = {}
                for m, c in p.items():
                    d = dict(m)
                    k = d.pop(t, 0)
                    mm = tuple(sorted(d.items(), key=_key))
                    r = p_add(r, p_mul({mm: c}, p_pow(base, -e + int(k)) if k else f))
                p = r
            else:
                p = p_mul(p, p_atom(t, -e))
    return p


def equal(a, b):
    """True when a == b is proved by normalisation"""
    p = p_add(nf(a), nf(b), -1)
    if not p:
        return True
    return zero(p, 6)


def zero(p, depth):
    if not p:
        return True
    q = clear_denominators(p)
    if not q:
        return True
    iv = find_iv(q)
    if iv is not None and depth > 0:
        p1, p0 = split_iv(q, iv)
        return zero_under(p1, iv, True, depth) and zero_under(p0, iv, False, depth)
    return False


def zero_under(p, iv, val, depth):
    """p==0 assuming the bracket iv is val: re-normalise under the fact"""
    if not p:
        return True
    if iv.op == 'ge0':
        q = nf(iv.a[0])
        a = q if val else (p_add(p_scale(q, -1), p_const(-1)) if all_int(q) else p_scale(q, -1))
    elif iv.op == 'eq0' and val:
        q = nf(iv.a[0])
        return with_assume([q, p_scale(q, -1)], p, depth)
    else:
        return zero(p, depth - 1)
    return with_assume([a], p, depth)


def with_assume(assumptions, p, depth):
    global C
    c = Ctx(C.facts)
    if hasattr(C, 'subsyms'):
        c.subsyms = C.subsyms
    c.assume = C.assume + assumptions
    for a in assumptions:
        # contradictory assumption?
        if prove_ge0(p_add(p_scale(a, -1), p_const(-1))):
            return True
    old = C
    C = c
    try:
        q = renorm(p)
        return zero(q, depth - 1)
    except TooBig:
        return False
    finally:
        C = old


def renorm(p):
    """re-normalise a polynomial under the current context"""
    r = {}
    for m, c in p.items():
        q = p_const(c)
        for t, e in m:
            q = p_mul(q, p_pow(renorm_atom(t), e) if e != 1 else renorm_atom(t))
        r = p_add(r, q)
    return r


def renorm_atom(t):
    if t.op in ('ge0', 'eq0'):
        return nf_ivterm(t)
    return p_atom(t)
