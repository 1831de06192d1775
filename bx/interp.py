"""Abstract interpreter: turns the resolved syntax tree of a function into a
value graph (terms.py).  Every path is merged (no path enumeration), loops are
summarised into closed forms or kept as recurrences, nothing is executed."""
import math, re
from fractions import Fraction
from .terms import *
from . import terms as tm
from . import nf as N


class Dead(Exception):
    """no normal continuation"""


class Gap(Exception):
    pass


# ------------------------------------------------------------------ values
class Arr:
    __slots__ = ('rank', 'shape', 'd', 'gen', 'ety', 'mat', 'std')

    def __init__(self, rank, shape, d, gen=None, ety='real', mat=False, std=False):
        self.rank = rank
        self.shape = tuple(shape)
        self.d = d
        self.gen = gen
        self.ety = ety
        self.mat = mat
        self.std = std

    def __repr__(self):
        return 'Arr%d%s[%s]' % (self.rank, self.shape, self.d)

    def w(self, **k):
        a = Arr(self.rank, self.shape, self.d, self.gen, self.ety, self.mat, self.std)
        for x, y in k.items():
            setattr(a, x, y)
        return a


class Vec:
    """std::vector with a concrete number of elements"""
    __slots__ = ('v', 'gen', 'ety')

    def __init__(self, v, ety='real', gen=None):
        self.v = tuple(v)
        self.ety = ety
        self.gen = gen


class Obj:
    __slots__ = ('oid', 'cls')

    def __init__(self, oid, cls):
        self.oid = oid
        self.cls = cls

    def __repr__(self):
        return 'Obj<%s %s>' % (self.cls, self.oid)


class LV:
    __slots__ = ('key', 'idx')

    def __init__(self, key, idx=None):
        self.key = key
        self.idx = idx

    def __repr__(self):
        return 'LV(%s,%s)' % (self.key, self.idx)

    def __eq__(self, o):
        return type(o) is LV and o.key == self.key and o.idx == self.idx

    def __hash__(self):
        return hash((self.key, self.idx))


class View:
    """writable rectangular view into array at `base` (an LV without index)"""
    __slots__ = ('base', 'rank', 'shape', 'fwd', 'inv', 'mat')

    def __init__(self, base, rank, shape, fwd, inv, mat=False):
        self.base = base
        self.rank = rank
        self.shape = tuple(shape)
        self.fwd = fwd      # view idx -> base idx
        self.inv = inv      # base idx -> (cond, view idx)
        self.mat = mat


class Ptr:
    __slots__ = ('lv', 'gen', 'off')

    def __init__(self, lv, gen=None, off=ZERO):
        self.lv = lv
        self.gen = gen
        self.off = off

    def __eq__(self, o):
        return type(o) is Ptr and o.lv == self.lv and o.gen == self.gen and o.off is self.off

    def __hash__(self):
        return hash((self.lv, self.gen))

    def __repr__(self):
        return 'Ptr(%r)' % self.lv


class NullP:
    def __repr__(self):
        return 'NULL'


NULLP = NullP()


class Choice:
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c = c
        self.a = a
        self.b = b


class Clos:
    def __init__(self, node, caps, this):
        self.node = node
        self.caps = caps
        self.this = this


class Opq:
    """opaque non-scalar value"""

    def __init__(self, why, **k):
        self.why = why
        self.__dict__.update(k)

    def __repr__(self):
        return 'Opq(%s)' % self.why


class Iter:
    def __init__(self, lv, pos, arr):
        self.lv = lv
        self.pos = pos
        self.arr = arr


# ------------------------------------------------------------------ states
class St:
    __slots__ = ('s', 'pc')

    def __init__(self, s, pc):
        self.s = s
        self.pc = pc

    def fork(self, *lits):
        return St(dict(self.s), self.pc + tuple(l for l in lits if l is not TRUE))

    def become(self, o):
        self.s = o.s
        self.pc = o.pc


class Event:
    __slots__ = ('kind', 'site', 'pc', 'loops', 'd', 'seq')

    def __init__(self, kind, site, pc, loops, d, seq):
        self.kind = kind
        self.site = site
        self.pc = pc
        self.loops = loops
        self.d = d
        self.seq = seq

    def __getattr__(self, k):
        try:
            return self.d[k]
        except KeyError:
            raise AttributeError(k)

    def __repr__(self):
        return 'Event(%s %s:%s %s)' % (self.kind, self.site[0].split('/')[-1], self.site[1], self.d)


class LoopCtx:
    def __init__(self, it, n, node, site, par):
        self.it = it
        self.n = n
        self.node = node
        self.site = site
        self.par = par
        self.entry = None


class Frame:
    n = 0

    def __init__(self, fn, this, file):
        Frame.n += 1
        self.uid = Frame.n
        self.fn = fn
        self.this = this
        self.file = file
        self.ids = {}


_gen = [0]


def newgen():
    _gen[0] += 1
    return _gen[0]


def formals(shape):
    fs = []
    for i, n in enumerate(shape):
        f = bv('f%d' % i, ZERO, n)
        fs.append(f)
    return tuple(fs)


def strip_t(s):
    """strip template arguments"""
    out = []
    d = 0
    i = 0
    s = s.replace('operator<<', 'operator\x01').replace('operator<=', 'operator\x02').replace('operator<', 'operator\x03')
    s = s.replace('operator>>', 'operator\x04').replace('operator>=', 'operator\x05').replace('operator->', 'operator\x07').replace('operator>', 'operator\x06')
    for ch in s:
        if ch == '<':
            d += 1
        elif ch == '>':
            d -= 1
        elif d == 0:
            out.append(ch)
    s = ''.join(out)
    for a, b in (('\x01', '<<'), ('\x02', '<='), ('\x03', '<'), ('\x04', '>>'), ('\x05', '>='), ('\x06', '>'), ('\x07', '->')):
        s = s.replace(a, b)
    return s


def short(fn):
    return strip_t(fn).split('::')[-1] if fn else ''


def base_t(t):
    t = (t or '').strip()
    while True:
        if t.endswith('&'):
            t = t[:-1].strip()
            continue
        if t.startswith('const '):
            t = t[6:].strip()
            continue
        return t


def is_ref(t):
    return (t or '').rstrip().endswith('&')


INTT = ('int32', 'int64', 'uint32', 'uint64', 'char', 'int16', 'int8', 'uint8', 'uint16')


def is_int_t(t):
    t = base_t(t)
    return t in INTT or t.startswith('enum')


def is_float_t(t):
    return base_t(t) in ('double', 'float', 'longdouble')


def parse_tpl(t):
    i = t.find('<')
    if i < 0:
        return t, []
    name = t[:i]
    inner = t[i + 1:t.rfind('>')]
    args = []
    d = 0
    cur = ''
    for ch in inner:
        if ch == '<':
            d += 1
        if ch == '>':
            d -= 1
        if ch == ',' and d == 0:
            args.append(cur.strip())
            cur = ''
        else:
            cur += ch
    args.append(cur.strip())
    return name, args


def arr_type(t):
    """(rank, ety, fixed shape or None, mat, std) for array-like class types"""
    t = base_t(t)
    n, a = parse_tpl(t)
    if n in ('Eigen::Array', 'Eigen::Matrix') and len(a) >= 3:
        ety = 'int' if a[0] in INTT else 'bool' if a[0] == 'bool' else 'real'
        try:
            r, c = int(a[1]), int(a[2])
        except ValueError:
            return None
        rank = 1 if (c == 1 or r == 1) else 2
        fixed = None
        if rank == 1:
            k = r if c == 1 else c
            if k > 0:
                fixed = (num(k),)
        elif r > 0 and c > 0:
            fixed = (num(r), num(c))
        return rank, ety, fixed, n == 'Eigen::Matrix', False
    if n == 'std::vector':
        e = a[0]
        ety = 'int' if e in INTT else 'bool' if e == 'bool' else 'real' if is_float_t(e) else None
        return 1, ety, None, False, True
    if n == 'std::array':
        e = a[0]
        ety = 'int' if e in INTT else 'bool' if e == 'bool' else 'real' if is_float_t(e) else None
        try:
            return 1, ety, (num(int(a[1])),), False, True
        except (ValueError, IndexError):
            return None
    if n == 'arr' and len(a) >= 2:
        try:
            k = int(a[0])
        except ValueError:
            return None
        e = a[1]
        ety = 'int' if e in INTT else 'bool' if e == 'bool' else 'real' if is_float_t(e) else None
        if ety is None:
            return None
        return 1, ety, (num(k),), False, True
    return None


def is_eigen_expr_t(t):
    return base_t(t).startswith('Eigen::')


STRT = ('std::basic_string', 'std::string')


def is_string_t(t):
    return base_t(t).startswith('std::basic_string') and not base_t(t).startswith('std::basic_stringstream')


def mentions(t, pred_rec, pred_def, memo=None):
    """does term t (through array definitions) mention a rec / def satisfying the predicates"""
    if memo is None:
        memo = {}
    st = [t]
    seen = set()
    while st:
        x = st.pop()
        if isinstance(x, Def):
            k = ('d', x.uid)
            if k in seen:
                continue
            seen.add(k)
            if pred_def and pred_def(x):
                return True
            if isinstance(x, ExprDef):
                st.append(x.body)
            elif isinstance(x, UpdDef):
                st.extend((x.prev, x.cond, x.val))
            elif isinstance(x, IteDef):
                st.extend((x.cond, x.x, x.y))
            elif isinstance(x, SortDef):
                st.extend((x.prev, x.lo, x.hi))
            elif isinstance(x, LoopDef):
                st.append(x.it)
                l = loop_force(x.loop)
                if ('l', l.uid) not in seen:
                    seen.add(('l', l.uid))
                    st.extend(v for v in l.init.values())
                    st.extend(v for v in l.next.values())
            elif hasattr(x, 'prev'):
                st.append(x.prev)
            continue
        if type(x) is not T or x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'rec':
            if pred_rec and pred_rec(x):
                return True
            l = loop_force(x.a[0].l)
            st.append(x.a[1])
            if ('l', l.uid) not in seen:
                seen.add(('l', l.uid))
                st.extend(v for v in l.init.values())
                st.extend(v for v in l.next.values())
            continue
        for y in x.a:
            if type(y) is T:
                st.append(y)
            elif type(y) is tm.DRef:
                st.append(y.d)
            elif type(y) is tuple:
                for m, c in y:
                    for at, e in m:
                        st.append(at)
    return False


# ------------------------------------------------------------------ interpreter
class Interp:
    UNROLL = 40

    def __init__(self, P, stubs=None, inputs=None):
        self.P = P
        self.quiet = 0
        self.events = []
        self.gaps = []
        self.lstack = []
        self.frames = []
        self.sink = []
        self.seq = 0
        self.stubs = stubs or {}
        self.critical = 0
        self.tmp = 0
        self.globals_cache = {}
        self.calls = set()
        self.ncv = {}
        self.depth = 0
        self.fnseen = set()
        self.stats = {'loops': 0, 'closed': 0, 'recurrence': 0, 'unrolled': 0}

    # -------------------------------------------------------------- utils
    @property
    def frame(self):
        return self.frames[-1]

    def site(self, n):
        f = self.frame
        return (f.file, n.get('l', 0) if n else 0, f.fn.get('qn', '?') if f.fn else '?')

    def emit(self, kind, n, st, **d):
        if self.quiet:
            return None
        self.seq += 1
        e = Event(kind, self.site(n), st.pc, tuple(self.lstack), d, self.seq)
        self.events.append(e)
        return e

    def gap(self, why, n=None):
        if not self.quiet:
            self.gaps.append((why, self.site(n) if self.frames else None))

    def decide(self, c, st):
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        pcs = st.pc
        if c in pcs:
            return True
        nc = not_(c)
        if nc in pcs:
            return False
        if c.op == 'unk' or c.op == 'uninit':
            return None
        try:
            p = N.nf_bool(c)
        except (N.TooBig, RecursionError):
            return None
        if p == {(): 1}:
            return True
        if not p:
            return False
        if c.op == 'and':
            ds = [self.decide(x, st) for x in c.a]
            if any(d is False for d in ds):
                return False
            if all(d is True for d in ds):
                return True
        if c.op == 'or':
            ds = [self.decide(x, st) for x in c.a]
            if any(d is True for d in ds):
                return True
            if all(d is False for d in ds):
                return False
        return None

    # -------------------------------------------------------------- merging
    def merge(self, a, b):
        """merge states a and b (disjoint)"""
        k = 0
        pa, pb = a.pc, b.pc
        n = min(len(pa), len(pb))
        while k < n and pa[k] is pb[k]:
            k += 1
        ra, rb = pa[k:], pb[k:]
        if ra and rb and ra[0] is not_(rb[0]):
            c = ra[0]
            r1, r2 = ra[1:], rb[1:]
            if not r1 and not r2:
                npc = pa[:k]
            else:
                npc = pa[:k] + (or_(and_(c, *r1), and_(not_(c), *r2)),)
        else:
            c = and_(*ra)
            if c is TRUE:
                c = not_(and_(*rb))
            o = or_(and_(*ra), and_(*rb))
            npc = pa[:k] + ((o,) if o is not TRUE else ())
        return St(self.merge_store(c, a.s, b.s), npc), c

    def merge_store(self, c, sa, sb):
        out = {}
        for key, va in sa.items():
            vb = sb.get(key)
            if va is vb:
                out[key] = va
            elif vb is None:
                if key[0] in ('g', 'static', 'o', 'strm'):
                    out[key] = va
            else:
                out[key] = self.merge_val(c, va, vb)
        for key, vb in sb.items():
            if key not in sa and key[0] in ('g', 'static', 'o', 'strm'):
                out[key] = vb
        return out

    def merge_val(self, c, a, b):
        if a is b:
            return a
        ta, tb = type(a), type(b)
        if ta is T and tb is T:
            if is_bool(a) and is_bool(b):
                r = ite_bool(c, a, b)
            else:
                r = ite(c, a, b)
            if r.kind is None and r.op == 'ite' and a.kind and a.kind == b.kind:
                r.kind = a.kind
            return r
        if ta is Arr and tb is Arr and a.rank == b.rank:
            sh = tuple(ite(c, x, y) for x, y in zip(a.shape, b.shape))
            return Arr(a.rank, sh, self.merge_def(c, a.d, b.d), a.gen if a.gen == b.gen else ('mix', a.gen, b.gen), a.ety, a.mat, a.std)
        if ta is Vec and tb is Vec:
            if len(a.v) == len(b.v):
                return Vec([self.merge_val(c, x, y) for x, y in zip(a.v, b.v)], a.ety, a.gen if a.gen == b.gen else newgen())
            A, B = self.vec2arr(a), self.vec2arr(b)
            if A is not None and B is not None:
                return self.merge_val(c, A, B)
            return Opq('vector of varying length')
        if ta is Vec and tb is Arr:
            A = self.vec2arr(a)
            if A is not None:
                return self.merge_val(c, A, b)
        if ta is Arr and tb is Vec:
            B = self.vec2arr(b)
            if B is not None:
                return self.merge_val(c, a, B)
        if ta is Ptr and tb is Ptr and a == b:
            return a
        if ta is LV and tb is LV and a == b:
            return a
        if ta is LV and tb is LV and a.key == b.key and a.idx and b.idx and len(a.idx) == len(b.idx):
            return LV(a.key, tuple(ite(c, x, y) for x, y in zip(a.idx, b.idx)))
        if ta is Obj and tb is Obj and a.oid == b.oid:
            return a
        if ta is Opq and tb is Opq and a.why == b.why:
            return a
        if ta is T and a.op == 'uninit':
            return Choice(c, a, b)
        return Choice(c, a, b)

    def merge_def(self, c, a, b):
        if a is b:
            return a
        chain = []
        x = a
        anc = {}
        while True:
            anc[x.uid] = len(chain)
            if isinstance(x, UpdDef):
                chain.append(x)
                x = x.prev
            else:
                break
            if len(chain) > 400:
                break
        chb = []
        y = b
        found = None
        while True:
            if y.uid in anc:
                found = anc[y.uid]
                break
            if isinstance(y, UpdDef):
                chb.append(y)
                y = y.prev
            else:
                break
            if len(chb) > 400:
                break
        if found is None:
            if isinstance(a, UninitDef) and isinstance(b, UninitDef):
                return a
            return IteDef(c, a, b)
        d = y
        for u in reversed(chb):
            d = UpdDef(d, u.formals, and_(not_(c), u.cond), u.val, u.sites)
        for u in reversed(chain[:found]):
            d = UpdDef(d, u.formals, and_(c, u.cond), u.val, u.sites)
        return d

    def vec2arr(self, v):
        d = UninitDef(1, 'vector')
        for i, x in enumerate(v.v):
            if type(x) is not T:
                return None
            f = formals((num(len(v.v)),))
            d = UpdDef(d, f, eq(f[0], num(i)), x)
        return Arr(1, (num(len(v.v)),), d, v.gen, v.ety or 'real', False, True)

    # -------------------------------------------------------------- store
    def share(self, key, idx, rw, n, st, ext=()):
        """record an access to storage that outlives a parallel iteration"""
        if self.quiet:
            return
        for i, L in enumerate(self.lstack):
            if L.par and (key in L.entry or key[0] in ('g', 'static')) and key not in L.par.get('private', ()):
                if L.par.get('region') and any(x.par for x in self.lstack[i + 1:]):
                    continue    # inside a work-shared loop of this region: that loop is the relevant one
                self.emit('share', n, st, key=key, idx=idx, rw=rw, par=L, critical=self.critical, ext=ext)

    def lookup(self, key, st, n):
        v = st.s.get(key)
        if v is None:
            if key[0] == 'g':
                v = self.global_init(key, st)
                st.s[key] = v
                return v
            if key[0] == 'o':
                raise_gap = True
            self.emit('dangling', n, st, key=key)
            return None
        return v

    def read(self, lv, st, n=None):
        if type(lv) is View:
            base = self.lookup(lv.base.key, st, n)
            fs = formals(lv.shape)
            bi = lv.fwd(fs)
            if self.quiet == 0:
                self.share(lv.base.key, tuple(bi), 'r', n, st, tuple(zip(fs, lv.shape)))
            if type(base) is Arr:
                return Arr(lv.rank, lv.shape, ExprDef(fs, self.rd(base, bi)), None, base.ety, lv.mat or base.mat)
            return Opq('view of non-array')
        if type(lv) is Choice and self.lvalued(lv):
            return self.merge_val(lv.c, self.read(lv.a, st.fork(lv.c), n), self.read(lv.b, st.fork(not_(lv.c)), n))
        if type(lv) is not LV:
            return lv
        v = self.lookup(lv.key, st, n)
        if v is None:
            return unk('missing ' + str(lv.key))
        if lv.idx is None:
            if type(v) is not Obj:
                self.share(lv.key, None, 'r', n, st)
            return v
        self.share(lv.key, lv.idx, 'r', n, st)
        return self.read_elem(v, lv.idx, st, n, lv.key)

    def lvalued(self, v):
        return type(v) in (LV, View) or type(v) is Choice and self.lvalued(v.a) and self.lvalued(v.b)

    def read_elem(self, v, idx, st, n, key):
        if type(v) is Choice:
            return self.merge_val(v.c, self.read_elem(v.a, idx, st, n, key), self.read_elem(v.b, idx, st, n, key))
        if type(v) is Arr:
            if len(idx) != v.rank:
                idx = self.reindex(v, idx)
            self.emit('acc', n, st, rw='r', key=key, idx=idx, shape=v.shape, d=v.d, std=v.std)
            return self.rd(v, idx)
        if type(v) is Vec:
            i = idx[0]
            if i.op == 'num' and 0 <= i.a[0] < len(v.v):
                return v.v[i.a[0]]
            A = self.vec2arr(v)
            if A is not None:
                self.emit('acc', n, st, rw='r', key=key, idx=idx, shape=A.shape, d=A.d, std=True)
                return self.rd(A, idx)
            self.gap('symbolic index into std::vector', n)
            return unk('vector element')
        if type(v) is T and v.kind == 'string' or (type(v) is T and v.op in ('str', 'cat')):
            return mk('sref', 'char', v, idx[0])
        self.gap('element of ' + type(v).__name__, n)
        return unk('element of ' + repr(v)[:60])

    def reindex(self, v, idx):
        if len(idx) == 1 and v.rank == 2:
            r = v.shape[0]
            return (imod(idx[0], r), idiv(idx[0], r))
        if len(idx) == 2 and v.rank == 1:
            return (idx[0],) if idx[1] is ZERO else (idx[1],)
        return idx

    def rd(self, a, idx):
        d = a.d
        idx = tuple(idx)
        for _ in range(200):
            if isinstance(d, UpdDef):
                m = dict(zip(d.formals, idx))
                c = subst(d.cond, m)
                if c is TRUE:
                    return self.kindit(subst(d.val, m), a)
                if c is FALSE:
                    d = d.prev
                    continue
                if c.op in ('eq', 'and') and _cheap(c):
                    p = N.nf_bool(c)
                    if p == {(): 1}:
                        return self.kindit(subst(d.val, m), a)
                    if not p:
                        d = d.prev
                        continue
            elif isinstance(d, ExprDef) and (not (d.body.fv & frozenset(d.formals)) or d.body.op in ('num', 'elem', 'bv')):
                return self.kindit(subst(d.body, dict(zip(d.formals, idx))), a)
            elif isinstance(d, IteDef):
                if d.cond is TRUE:
                    d = d.x
                    continue
                if d.cond is FALSE:
                    d = d.y
                    continue
            break
        return self.kindit(elem(d, idx), a)

    def kindit(self, t, a):
        if t.kind is None and t.op in ('elem',) and a.ety in ('int', 'bool'):
            t.kind = a.ety
        return t

    def write(self, lv, v, st, n=None):
        if type(lv) is Choice:
            s1, s2 = st.fork(lv.c), st.fork(not_(lv.c))
            self.write(lv.a, v, s1, n)
            self.write(lv.b, v, s2, n)
            m, _ = self.merge(s1, s2)
            st.become(m)
            return
        if type(lv) is View:
            base = self.lookup(lv.base.key, st, n)
            if type(base) is not Arr:
                self.gap('write to view of non-array', n)
                return
            fs = formals(base.shape)
            c, vi = lv.inv(fs)
            if type(v) is Arr:
                for x, y in zip(v.shape, lv.shape):
                    self.emit('shape', n, st, a=x, b=y)
                val = self.rd(v, vi)
            elif type(v) is T:
                val = v
            else:
                self.gap('view assign', n)
                val = unk('view assign')
            vs = formals(lv.shape)
            self.share(lv.base.key, tuple(lv.fwd(vs)), 'w', n, st, tuple(zip(vs, lv.shape)))
            st.s[lv.base.key] = base.w(d=UpdDef(base.d, fs, c, val, (self.site(n),)))
            self.touch(lv.base.key, n, st)
            return
        if type(lv) is not LV:
            self.gap('write to non-lvalue %r' % (lv,), n)
            return
        if lv.idx is None:
            old = st.s.get(lv.key)
            if old is None and lv.key[0] not in ('g',):
                if lv.key not in self._fresh_ok:
                    self.emit('dangling', n, st, key=lv.key)
            self.share(lv.key, None, 'w', n, st)
            if type(v) is Arr and type(old) is Arr:
                same = all(x is y for x, y in zip(v.shape, old.shape)) if v.rank == old.rank else False
                st.s[lv.key] = Arr(old.rank, v.shape if v.rank == old.rank else old.shape, v.d,
                                   old.gen if same else newgen(), old.ety, old.mat, old.std)
            else:
                st.s[lv.key] = v
            self.touch(lv.key, n, st)
            self.emit('set', n, st, key=lv.key, val=v)
            return
        base = self.lookup(lv.key, st, n)
        self.share(lv.key, lv.idx, 'w', n, st)
        if type(base) is Arr:
            idx = lv.idx
            if len(idx) != base.rank:
                idx = self.reindex(base, idx)
            self.emit('acc', n, st, rw='w', key=lv.key, idx=idx, shape=base.shape, d=base.d, std=base.std)
            fs = formals(base.shape)
            if type(v) is not T:
                self.gap('array element of non-scalar', n)
                v = unk('array element')
            c = and_(*[eq(f, i) for f, i in zip(fs, idx)])
            st.s[lv.key] = base.w(d=UpdDef(base.d, fs, c, v, (self.site(n),)))
            self.touch(lv.key, n, st)
            return
        if type(base) is Vec:
            i = lv.idx[0]
            if i.op == 'num' and 0 <= i.a[0] < len(base.v):
                vv = list(base.v)
                vv[i.a[0]] = v
                st.s[lv.key] = Vec(vv, base.ety, base.gen)
                return
            A = self.vec2arr(base)
            if A is not None and type(v) is T:
                st.s[lv.key] = A
                self.write(lv, v, st, n)
                return
            st.s[lv.key] = Opq('vector')
            self.gap('symbolic write into std::vector', n)
            return
        self.gap('element write to %r' % (base,), n)

    def touch(self, key, n, st):
        self.emit('write', n, st, key=key)

    _fresh_ok = set()

    def global_init(self, key, st):
        g = self.P.vars.get(key[1])
        if g is None:
            return unk('global')
        if g.get('qn', g.get('name', '')).endswith('version') or g.get('name') == 'version':
            return string_sym('version')
        init = g.get('init')
        t = g.get('t', '')
        if t.startswith('const ') and init is not None:
            s2 = St(dict(st.s), st.pc)
            self.quiet += 1
            try:
                v = self.rv(init, s2)
            except Exception:
                v = unk('global init')
            finally:
                self.quiet -= 1
            return v
        if init is not None and t.endswith('&'):
            self.quiet += 1
            try:
                v = self.ev(init, st)
            finally:
                self.quiet -= 1
            if type(v) is LV:
                return v
        if init is not None and arr_type(t) is not None:
            # a namespace-scope array that no procedure writes (writes are reported as events on its key)
            s2 = St(dict(st.s), st.pc)
            self.quiet += 1
            try:
                v = self.rv(init, s2)
            finally:
                self.quiet -= 1
            if type(v) is Arr:
                return v
        self.gap('mutable global ' + str(g.get('name')))
        if is_int_t(t):
            return sym('global.' + g['name'], 'int')
        return sym('global.' + g['name'], 'real') if is_float_t(t) else Opq('global')

    # -------------------------------------------------------------- default values
    def default_value(self, t, st, why, zero=False):
        t0 = base_t(t)
        if t0 in INTT or t0 == 'bool' or is_float_t(t0) or t0.startswith('enum'):
            return ZERO if zero else uninit(why)
        at = arr_type(t0)
        if at is not None:
            rank, ety, fixed, mat, std = at
            n, a = parse_tpl(t0)
            if n == 'std::vector':
                return Vec([], ety, newgen())
            if fixed is not None:
                return Arr(rank, fixed, UninitDef(rank, why), newgen(), ety, mat, std)
            return Arr(rank, (ZERO,) * rank, UninitDef(rank, why), newgen(), ety, mat, std)
        if is_string_t(t0):
            return string('')
        if t0.startswith('ptr<') or t0.endswith('*'):
            return NULLP if zero else uninit(why)
        return None

    def new_obj(self, cls, st, why=''):
        self.tmp += 1
        o = Obj(('obj', cls, self.tmp), cls)
        self.init_fields(o, cls, st)
        return o

    def init_fields(self, o, cls, st):
        r = self.P.recs.get(cls)
        if r is None:
            return
        for b in r.get('bases', []):
            bn = b if isinstance(b, str) else b.get('qn', '')
            self.init_fields(o, bn, st)
        for f in r['fields']:
            v = self.default_value(f['t'], st, cls.split('::')[-1] + '.' + f['n'])
            if v is None:
                fr = self.P.recs.get(base_t(f['t']))
                if fr is not None:
                    v = self.new_obj(base_t(f['t']), st)
                else:
                    v = Opq(f['t'])
            if f.get('init') is not None:
                try:
                    fr = Frame({'qn': cls, 'params': []}, o, '')
                    self.frames.append(fr)
                    v = self.copy_value(self.rv(f['init'], st), st)
                finally:
                    self.frames.pop()
            st.s[('o', o.oid, f['n'])] = v


def _cheap(t):
    if len(t.fv) > 8:
        return False
    st = [t]
    n = 0
    while st:
        x = st.pop()
        n += 1
        if n > 40 or x.op in ('sum', 'rec', 'first', 'exists', 'unk', 'uninit', 'fn'):
            return False
        st.extend(y for y in x.a if type(y) is T)
    return True


def string_sym(name):
    t = sym(name, 'string')
    return t
