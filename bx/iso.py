"""Structural identity of values extracted by two separate analyses (input arrays are identified by name)."""
from .terms import *
from .interp import Arr, Vec


class Iso:
    def __init__(self):
        self.memo = set()
        self.map = {}

    def same(self, a, b):
        st = [(a, b)]
        while st:
            x, y = st.pop()
            if x is y:
                continue
            if type(x) is not type(y):
                return False
            if isinstance(x, (str, int, float, bool, Fraction)) or x is None:
                if x != y:
                    return False
                continue
            if isinstance(x, (tuple, list)):
                if len(x) != len(y):
                    return False
                st += list(zip(x, y))
                continue
            if type(x) is T:
                if (x.id, y.id) in self.memo:
                    continue
                self.memo.add((x.id, y.id))
                if x.op != y.op or len(x.a) != len(y.a):
                    return False
                if x.op == 'bv':
                    if self.map.setdefault(x, y) is not y:
                        return False
                    continue
                if x.op == 'elem':
                    st.append((x.a[0].d, y.a[0].d))
                    st += list(zip(x.a[1:], y.a[1:]))
                elif x.op == 'rec':
                    if not self.loop(x.a[0].l, x.a[0].key, y.a[0].l, y.a[0].key, st):
                        return False
                    st.append((x.a[1], y.a[1]))
                else:
                    st += list(zip(x.a, y.a))
                continue
            if isinstance(x, Def):
                k = ('d', x.uid, y.uid)
                if k in self.memo:
                    continue
                self.memo.add(k)
                if isinstance(x, InputDef):
                    if x.name != y.name:
                        return False
                elif isinstance(x, (UninitDef, UnkDef)):
                    if isinstance(x, UnkDef) or x.why != y.why:
                        return False
                elif isinstance(x, LoopDef):
                    if not self.loop(x.loop, x.key, y.loop, y.key, st):
                        return False
                    st.append((x.it, y.it))
                elif isinstance(x, ExprDef):
                    st += list(zip(x.formals, y.formals)) + [(x.body, y.body)]
                elif isinstance(x, UpdDef):
                    st += list(zip(x.formals, y.formals)) + [(x.cond, y.cond), (x.val, y.val), (x.prev, y.prev)]
                elif isinstance(x, IteDef):
                    st += [(x.cond, y.cond), (x.x, y.x), (x.y, y.y)]
                elif isinstance(x, SortDef):
                    st += [(x.prev, y.prev), (x.lo, y.lo), (x.hi, y.hi)]
                else:
                    return False
                continue
            if type(x) is Arr:
                st += list(zip(x.shape, y.shape)) + [(x.d, y.d)]
                continue
            if type(x) is Vec:
                st.append((tuple(x.v), tuple(y.v)))
                continue
            return False
        return True

    def loop(self, l, key, m, key2, st):
        k = ('l', l.uid, key, m.uid, key2)
        if k in self.memo:
            return True
        self.memo.add(k)
        loop_force(l)
        loop_force(m)
        if self.map.setdefault(l.it, m.it) is not m.it:
            return False
        for x, y in ((l.lo, m.lo), (l.hi, m.hi), (l.brk, m.brk)):
            if (type(x) is T) != (type(y) is T):
                return False
            if type(x) is T:
                st.append((x, y))
        st.append((l.init.get(key), m.init.get(key2)))
        st.append((l.next.get(key), m.next.get(key2)))
        return True
