"""Selection simplifier: unfold array updates and collapse sums / existentials that select one iteration."""
from .terms import *
from .interp import Arr
from . import nf as N
import time


class Sel:
    def __init__(self, limit=60):
        self.memo = {}
        self.end = time.time() + limit

    def truth(self, c):
        if c is TRUE or c is FALSE:
            return c
        try:
            old = N.DEADLINE[0]
            N.DEADLINE[0] = time.time() + 2
            p = N.nf_bool(c)
            if p == {(): 1}:
                return TRUE
            if not p:
                return FALSE
        except (N.TooBig, RecursionError):
            pass
        finally:
            N.DEADLINE[0] = old
        return c

    def __call__(self, t):
        if type(t) is not T:
            return t
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self.go(t)
        return r

    def go(self, t):
        if time.time() > self.end:
            return t
        op = t.op
        if op in ('num', 'sym', 'bv', 'true', 'false', 'str', 'unk', 'uninit', 'none'):
            return t
        if op == 'elem':
            d = t.a[0].d
            idx = tuple(self(x) for x in t.a[1:])
            return self.unfold(d, idx, t)
        if op in ('sum', 'exists'):
            v, lo, hi, body = t.a
            BV.info[v] = (lo, hi)
            body = self(body)
            lo, hi = self(lo), self(hi)
            r = self.pick(op, v, lo, hi, body)
            if r is not None:
                return self(r)
            return (sum_ if op == 'sum' else exists)(v, lo, hi, body)
        if op == 'ite':
            c = self(t.a[0])
            if not cheap(c):
                return ite(c, self(t.a[1]), self(t.a[2]))
            c = self.truth(c)
            if c is TRUE:
                return self(t.a[1])
            if c is FALSE:
                return self(t.a[2])
            return ite(c, self(t.a[1]), self(t.a[2]))
        try:
            return rebuild(t, self, lambda d: d if d is not None else {})
        except NotImplementedError:
            return t

    def unfold(self, d, idx, t):
        for _ in range(60):
            if isinstance(d, UpdDef):
                m = dict(zip(d.formals, idx))
                c = self(subst(d.cond, m))
                if cheap(c):
                    c = self.truth(c)
                if c is FALSE:
                    d = d.prev
                    continue
                v = subst(d.val, m)
                if c is TRUE:
                    return self(v)
                return ite(c, self(v), self.unfold(d.prev, idx, None))
            if isinstance(d, IteDef):
                c = self(d.cond)
                if cheap(c):
                    c = self.truth(c)
                if c is TRUE:
                    d = d.x
                    continue
                if c is FALSE:
                    d = d.y
                    continue
                return ite(c, self.unfold(d.x, idx, None), self.unfold(d.y, idx, None))
            if isinstance(d, ExprDef):
                return self(subst(d.body, dict(zip(d.formals, idx))))
            break
        r = elem(d, idx)
        if t is not None and t.kind and r.kind is None and r.op == 'elem':
            r.kind = t.kind
        return r

    def pick(self, op, v, lo, hi, body):
        """sum_v [v == X and rest] x  =  [lo <= X < hi and rest] x(X)"""
        if op == 'sum':
            if body.op != 'ite' or body.a[2] is not ZERO:
                return None
            c, x = body.a[0], body.a[1]
        else:
            c, x = body, TRUE
        cs = c.a if c.op == 'and' else (c,)
        for i, e in enumerate(cs):
            if e.op != 'eq':
                continue
            X = None
            if e.a[0] is v and v not in e.a[1].fv:
                X = e.a[1]
            elif e.a[1] is v and v not in e.a[0].fv:
                X = e.a[0]
            if X is None:
                continue
            rng = self.truth(and_(le(lo, X), lt(X, hi)))
            rest = and_(rng, *[subst(y, {v: X}) for k, y in enumerate(cs) if k != i])
            if op == 'sum':
                return ite(rest, subst(x, {v: X}), ZERO)
            return rest
        return None


def cheap(c, n=40):
    st, k = [c], 0
    while st:
        x = st.pop()
        k += 1
        if k > n or x.op in ('sum', 'exists', 'first', 'rec'):
            return False
        st += [y for y in x.a if type(y) is T]
    return True
