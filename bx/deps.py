"""Dependence sets of extracted values: which symbols and array contents a term may depend on (over-approximate)."""
from .terms import *
from .interp import Arr, Vec, Obj, LV, Ptr, Choice, Opq


class Deps:
    def __init__(self):
        self.seen = set()
        self.names = set()      # symbol and array names
        self.uses = []          # (InputDef, index terms)
        self.bvs = set()

    def add(self, x):
        st = [x]
        while st:
            y = st.pop()
            if y is None or isinstance(y, (str, int, float, bool, Fraction)):
                continue
            ty = type(y)
            if ty is tuple or ty is list:
                st += list(y)
                continue
            if ty is T:
                if y.id in self.seen:
                    continue
                self.seen.add(y.id)
                op = y.op
                if op == 'sym':
                    self.names.add(y.a[0])
                elif op == 'bv':
                    self.bvs.add(y)
                elif op in ('unk', 'uninit'):
                    self.names.add(op + ':' + str(y.a[0]))
                elif op == 'elem':
                    d = y.a[0].d
                    if isinstance(d, InputDef):
                        self.uses.append((d, y.a[1:]))
                    st.append(d)
                    st += list(y.a[1:])
                elif op == 'rec':
                    self.loop(y.a[0].l, y.a[0].key, st)
                    st.append(y.a[1])
                else:
                    st += [z for z in y.a if type(z) in (T, tuple)]
                continue
            if isinstance(y, Def):
                k = ('d', y.uid)
                if k in self.seen:
                    continue
                self.seen.add(k)
                if isinstance(y, InputDef):
                    self.names.add(y.name)
                elif isinstance(y, UninitDef):
                    self.names.add('uninit:' + y.why)
                elif isinstance(y, UnkDef):
                    self.names.add('unk:' + y.why)
                elif isinstance(y, LoopDef):
                    self.loop(y.loop, y.key, st)
                    st.append(y.it)
                elif isinstance(y, ExprDef):
                    st.append(y.body)
                elif isinstance(y, UpdDef):
                    st += [y.cond, y.val, y.prev]
                elif isinstance(y, IteDef):
                    st += [y.cond, y.x, y.y]
                elif isinstance(y, SortDef):
                    st += [y.prev, y.lo, y.hi]
                continue
            if ty is Arr:
                st += list(y.shape) + [y.d]
            elif ty is Vec:
                st += list(y.v)
            elif ty is Choice:
                st += [y.c, y.a, y.b]
            elif ty is Opq:
                self.names.add('opaque:' + str(y.why))
        return self

    def loop(self, l, key, st):
        k = ('l', l.uid, key)
        if k in self.seen:
            return
        self.seen.add(k)
        loop_force(l)
        st += [x for x in (l.lo, l.hi, l.brk) if type(x) is T]
        st += [l.init.get(key), l.next.get(key)]


def deps(*xs):
    d = Deps()
    for x in xs:
        d.add(x)
    return d


def same_content(a, b):
    """syntactic identity of two stored values"""
    if a is b:
        return True
    if type(a) is Arr and type(b) is Arr:
        return a.d is b.d and len(a.shape) == len(b.shape) and all(x is y for x, y in zip(a.shape, b.shape))
    if type(a) is Vec and type(b) is Vec:
        return len(a.v) == len(b.v) and all(same_content(x, y) for x, y in zip(a.v, b.v))
    return a is b
