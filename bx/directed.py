"""Condition-directed witnesses.

An identity test says nothing about a case that no witness reaches: a branch
that is taken only when an amplitude is exactly zero, when a profile is longer
than before, when G + iota*I is negative.  The evaluator therefore records the
outcome of every comparison (and the sign of abs, the winner of max and min)
met in the term extracted from the source; for those with one outcome only,
further valid inputs are tried until both were seen."""
import copy, math, random, time
from fractions import Fraction
from .terms import *
from .witness import Witness, modes, surface_list

DIMS = ('nfp', 'mpol', 'ntor', 'mpol_nyq', 'ntor_nyq', 'mboz', 'nboz', 'ns_in')


def clone(w, tag):
    b = copy.copy(w)
    b.s = dict(w.s)
    b.tab = {}
    b.m1, b.m2, b.surfs = list(w.m1), list(w.m2), list(w.surfs)
    b.tag = tag
    return b


def redim(w, tag, **kw):
    """the same witness with other resolutions; everything that depends on them is drawn again"""
    b = clone(w, tag)
    s = b.s
    s.update(kw)
    r = random.Random('%s/%s' % (w.seed, tag))
    if s['mpol'] < 1 or s['ns_in'] < 2:
        return None

    def table(mp, nt, n):
        al = modes(mp, nt, 1, r)
        mid = al[1:-1]
        if len(al) > 150:
            # a large table: the extremes of every kind
            ends = {(m, q) for m in (0, 1, 2, 3, mp // 2, mp - 1) for q in (nt, -nt, 0, nt // 2, 1)} & set(mid)
            return sorted({al[0], al[-1]} | ends | set(r.sample(mid, n)))
        return [al[0]] + sorted(r.sample(mid, min(len(mid), n))) + ([al[-1]] if len(al) > 1 else [])
    if any(k in kw for k in ('mpol', 'ntor')):
        b.m1 = table(s['mpol'], s['ntor'], 5)
    if any(k in kw for k in ('mpol_nyq', 'ntor_nyq')):
        b.m2 = table(s['mpol_nyq'] + 1, s['ntor_nyq'], 4)
    if 'ns_in' in kw:
        b.surfs = surface_list(s['ns_in'], r.randrange(6), r)
    if 'surfs' in kw:
        b.surfs = list(kw['surfs'])
        s.pop('surfs')
    s['mnmax'], s['mnmax_nyq'] = len(b.m1), len(b.m2)
    s['nsurf'] = len(b.surfs)
    if 'ns' in s:
        s['ns'] = s['ns_in'] + 1
    if 'ns_b' in s:
        s['ns_b'] = s['nsurf']
    return b


def styles(w, nb=None):
    """variants of a witness, likely ones first"""
    s = w.s
    for st in ('zeros', 'neg', 'scale', 'zeros2', 'zeros3', 'zeros4', 'negiota', 'noiota', 'small', 'tiny', 'ones'):
        b = clone(w, st)
        b.style = st
        if st == 'small':
            b.unit = 1e-14
        yield b
    lo = 1 if nb else 0
    top = 0 if nb == 0 else None
    nz = lambda x: 0 if nb == 0 else max(x, lo)
    cand = [('axisymmetric', dict(ntor=0, ntor_nyq=0)), ('ntor0', dict(ntor=0, ntor_nyq=2)), ('nyq0', dict(ntor_nyq=0)), ('nyqm0', dict(mpol_nyq=0)),
            ('fine', dict(mboz=4, nboz=nz(3))), ('coarse', dict(mboz=1, nboz=nz(0), ntor=2, ntor_nyq=3, mpol=3, mpol_nyq=4)),
            ('mpol1', dict(mpol=1, ntor=1)), ('nfp5', dict(nfp=5)), ('nfp1', dict(nfp=1)), ('ns3', dict(ns_in=2)), ('ns8', dict(ns_in=7)),
            ('mpol5', dict(mpol=5, ntor=1)), ('few', dict(mpol=2, ntor=0, mpol_nyq=4, ntor_nyq=2)), ('nosurf', dict(surfs=[])),
            ('last', dict(surfs=[s['ns_in'] - 1])), ('same', dict(surfs=[0, 0]))]
    for k, d in cand:
        b = redim(w, k, **d)
        if b is not None:
            yield b


def kids(t):
    """the terms a term is built from"""
    todo = list(t.a)
    while todo:
        x = todo.pop(0)
        if isinstance(x, T):
            yield x
        elif isinstance(x, (tuple, frozenset)):
            todo[0:0] = list(x)
        elif t.op in ('poly', 'ge0', 'iv') and isinstance(x, (int, Fraction)) and x != 1:
            yield num(x)


def leaves(t, out, seen=None, depth=0):
    seen = set() if seen is None else seen
    if t.id in seen or depth > 60:
        return out
    seen.add(t.id)
    if t.op == 'sym':
        out.append(t.a[0])
    for x in kids(t):
        leaves(x, out, seen, depth + 1)
    return out


LIMITS = {'nfp': (1, 400), 'mpol': (1, 60), 'ntor': (0, 60), 'mpol_nyq': (0, 60), 'ntor_nyq': (0, 60), 'mboz': (1, 300), 'nboz': (0, 130), 'ns_in': (2, 400)}
ALIAS = {'ns': ('ns_in', -1), 'file.ns': ('ns_in', -1), 'file.dim.radius': ('ns_in', -1), 'file.nfp': ('nfp', 0), 'file.mpol': ('mpol', 0), 'file.ntor': ('ntor', 0)}


def fixable(nm):
    return nm in LIMITS or nm in ALIAS or nm.startswith(('old.', 'old2.', 'static.', 'global.', 'nondet')) or nm in ('toroidal_flux', 'aspect', 'verbose')


def solved(w, V, cond, envs, nb=None):
    """copies of w in which one scalar of the condition takes the value of the other side"""
    if cond.op == 'fn':
        x, y = (cond.a[1], ZERO) if cond.a[0] == 'abs' else (cond.a[1], cond.a[2])
    elif cond.op in ('lt', 'eq'):
        x, y = cond.a[0], cond.a[1]
    else:
        return
    for p, q in ((x, y), (y, x)):
        for nm in leaves(p, [])[:4]:
            if not fixable(nm):
                continue
            for env in envs[:2] or [{}]:
                try:
                    v = V.ev(q, env)
                    c = V.ev(p, env)
                    u = V.syms[nm]
                except Exception:
                    continue
                if not isinstance(u, (int, float)) or isinstance(v, str):
                    continue
                for d in (0, 1, -1, 3):
                    z = u + (v - c) + d
                    if nm in LIMITS or nm in ALIAS:
                        if cond.fv:
                            continue
                        k, off = ALIAS.get(nm, (nm, 0))
                        lo, hi = LIMITS[k]
                        if nb and k == 'nboz':
                            lo = 1
                        if nb == 0 and k == 'nboz' or z != int(z) or not lo <= int(z) + off <= hi:
                            continue
                        dims = {k: int(z) + off}
                        if dims[k] > 6 and k in ('mboz', 'nboz'):
                            # keep the number of modes within bounds
                            dims['nboz' if k == 'mboz' else 'mboz'] = 1 if k == 'nboz' or nb else 0
                        b = redim(w, '%s=%s' % (nm, z), **dims)
                        if b is not None:
                            yield b
                        continue
                    if '.n' in nm and z < 0:
                        continue
                    b = clone(w, '%s=%s' % (nm, z))
                    if nm in b.s:
                        b.s[nm] = z
                    else:
                        b.oldfix = dict(w.oldfix or {})
                        b.oldfix[nm] = z
                    yield b


GROWS = {'xm': 'mpol', 'xn': 'ntor', 'xm_nyq': 'mpol_nyq', 'xn_nyq': 'ntor_nyq', 'xm_b': 'mboz', 'xn_b': 'nboz', 'compute_surfs': 'ns_in', 'nsurf': 'surfs', 'mnboz': 'mboz',
         'ns_b': 'surfs', 'XN': 'ntor', 'XN_nyq': 'ntor_nyq', 'XN_NYQ': 'ntor_nyq', 'mnmax': 'mpol', 'mnmax_nyq': 'mpol_nyq'}


def growable(t, out, seen=None, depth=0, inside=False):
    """{dimension that bounds a part of the term}"""
    seen = set() if seen is None else seen
    if t.id in seen or depth > 40:
        return out
    seen.add(t.id)
    if t.op == 'sym':
        nm = ALIAS.get(t.a[0], (t.a[0], 0))[0]
        nm = GROWS.get(nm, nm)
        if nm in LIMITS or nm == 'surfs':
            out.setdefault(nm, None)
    elif t.op == 'bv':
        hi = BV.info.get(t, (None, None))[1]
        if isinstance(hi, T):
            growable(hi, out, seen, depth + 1)
    elif t.op in ('elem', 'arr', 'in'):
        nm = str(getattr(getattr(t.a[0], 'd', None), 'name', ''))
        nm = GROWS.get(nm.split('.')[-1])
        if nm:
            out.setdefault(nm, None)
    for x in kids(t):
        growable(x, out, seen, depth + 1)
    return out


def weight(t, depth=0):
    """largest constant in a condition: a threshold on the size of something"""
    if t.op == 'num':
        v = abs(t.a[0])
        return float(v) if v >= 3 else 0.0
    return max([weight(x, depth + 1) for x in kids(t)] or [0.0]) if depth < 12 else 0.0


def constants(t, out, seen=None):
    seen = set() if seen is None else seen
    if t.id not in seen:
        seen.add(t.id)
        if t.op == 'num':
            out.add(t.a[0])
        for x in kids(t):
            constants(x, out, seen)
    return out


def larger(k, v, nb):
    """the resolutions that go with a larger value of one of them"""
    d = {k: v}
    if v > 6 and k in ('mboz', 'nboz'):
        d['nboz' if k == 'mboz' else 'mboz'] = 1 if k == 'nboz' or nb else 0
    if k == 'ns_in':
        d['surfs'] = [v - 1, 0, v - 2]
    return d


def widen(w, V, cond, envs, nb=None):
    """witnesses with a larger extent, so that a count or index can exceed the constant it is compared with"""
    if cond.op == 'fn':
        x, y = (cond.a[1], ZERO) if cond.a[0] == 'abs' else (cond.a[1], cond.a[2])
    elif cond.op in ('lt', 'eq'):
        x, y = cond.a[0], cond.a[1]
    else:
        return
    ks = sorted({int(c) for c in constants(cond, set()) if c == int(c) and abs(c) >= 3})
    own = {ALIAS.get(nm, (nm, 0)) for nm in leaves(cond, [])}
    for k, off in sorted(own):
        for c in ks[:4]:
            v = abs(c) + off + 1
            if k == 'nsurf' and w.s['nsurf'] < v <= 600:
                yield redim(w, 'nsurf=%d' % v, surfs=(list(w.surfs) * v)[:v] if w.surfs else [0] * v)
            if k not in LIMITS or not w.s[k] < v <= LIMITS[k][1] or nb == 0 and k == 'nboz':
                continue
            b = redim(w, '%s=%s' % (k, v), **larger(k, v, nb))
            if b is not None:
                yield b
    for p, q in ((x, y), (y, x)):
        dims = growable(p, {})
        if not dims:
            continue
        gap = None
        for env in envs[:6] or [{}]:
            try:
                g = V.ev(q, env) - V.ev(p, env)
            except Exception:
                continue
            if isinstance(g, (int, float)) and 0 <= g <= 5000 and (gap is None or g < gap):
                gap = g
        if gap is None:
            continue
        for k in list(dims)[:5]:
            for z in (gap + 1, 2 * gap + 2, math.sqrt(gap) + 1):
                z = int(math.ceil(z))
                if k == 'surfs':
                    n = w.s['nsurf'] + z
                    if n <= 600 and n > len(w.surfs):
                        b = redim(w, 'nsurf=%d' % n, surfs=(list(w.surfs) * n)[:n] if w.surfs else [0] * n)
                        yield b
                    continue
                if k in ('ntor', 'ntor_nyq', 'nboz'):
                    z = int(math.ceil(z / w.s['nfp']))
                v = w.s[k] + z
                if v > LIMITS[k][1] or nb == 0 and k == 'nboz':
                    continue
                b = redim(w, '%s=%s' % (k, v), **larger(k, v, nb))
                if b is not None:
                    yield b


class Director:
    """drives the conditions of a decider's source terms to the outcomes not yet seen"""

    want = 3

    def __init__(self, D, nb=None, limit=45):
        self.D, self.nb, self.left = D, nb, limit
        self.cache = None
        self.always = []    # tried for every obligation
        self.cands = {}

    def variants(self):
        if self.cache is None:
            self.cache = []
            for w in self.D.wits[:2]:
                self.cache += [[b, None] for b in styles(w, self.nb)]
            a = self.cache
            for tag, dims in getattr(self.D, 'big', ()):
                b = redim(self.D.wits[0], tag, **dims)
                if b is not None:
                    self.always.append([b, None])
            n = len(a) // max(1, min(2, len(self.D.wits)))
            self.cache = [x for i in range(n) for x in a[i::n]]
        return self.cache

    def val(self, c):
        if c[1] is None:
            c[1] = c[0].valuation(self.D.W, extra=self.D.extra)
        return c[1]

    def missing(self, cov):
        return {t: c for t, c in cov.items() if c[0] != 3}

    def run(self, cov, compare):
        """compare(witness, valuation) -> 'violated' | None.  Returns (violated?, conditions left)"""
        miss = self.missing(cov)
        seen = {}
        t0 = time.time()
        self.variants()
        for c in self.always:
            if compare(c[0], self.val(c)):
                return True, miss
        self.current = miss
        for c in self.candidates(miss):
            if not miss or time.time() - t0 > self.left:
                break
            w, V = c[0], self.val(c)
            if not c[0].tag.startswith('wide') and not self.hits(V, miss):
                continue
            V.cov = here = {}
            t1 = time.time()
            try:
                if compare(w, V):
                    self.left -= time.time() - t0
                    return True, miss
            finally:
                V.cov = None
            for t, (sides, envs) in here.items():
                old = cov.setdefault(t, [0, envs])
                if t in miss and sides & ~miss[t][0]:
                    # several witnesses for every case: one may hide the difference by chance
                    seen[t] = seen.get(t, 0) + (1 if time.time() - t1 < 2 else self.want)
                    if seen[t] < self.want:
                        continue
                old[0] |= sides
            self.current = miss = self.missing(cov)
        self.left -= time.time() - t0
        return False, {t: c for t, c in miss.items() if t not in seen}

    def candidates(self, miss):
        self.variants()
        # conditions on scalars alone are solved first
        yield from self.solutions([t for t in miss if not t.fv])
        for c in self.variants():
            yield c
        yield from self.solutions([t for t in miss if t.fv])
        n = 0
        for t in sorted((t for t in miss if weight(t)), key=lambda t: -weight(t)):
            if t not in self.current:
                continue
            for i in range(min(2, len(self.D.wits))):
                for b in widen(self.D.wits[i], self.D.val(i), t, self.current.get(t, [0, []])[1], self.nb):
                    n += 1
                    if n > 24:
                        return
                    b.tag = 'wide ' + b.tag
                    if t in self.current:
                        yield [b, None]

    def solutions(self, ts):
        for t in ts:
            miss = self.current
            if t not in miss:
                continue
            if self.D.wits:
                for i in range(min(2, len(self.D.wits))):
                    for b in solved(self.D.wits[i], self.D.val(i), t, miss.get(t, [0, []])[1], self.nb):
                        yield [b, None]

    def hits(self, V, miss):
        n = 0
        for t, (sides, envs) in miss.items():
            n += 1
            if n > 60:
                break
            for env in envs[:25]:
                try:
                    if t.op == 'fn':
                        v = [V.ev(x, env) for x in t.a[1:]]
                        r = v[0] < 0 if t.a[0] == 'abs' else v[0] < v[1]
                    else:
                        r = V.ev(t, env)
                except Exception:
                    continue
                if not (2 if r else 1) & sides:
                    return True
        return False
