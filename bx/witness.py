"""Witness valuations: concrete *valid* inputs for the extracted terms.

No program is executed here: only closed-form terms extracted from the source
are evaluated, to tell a definite difference from a mere failure of the
normal-form prover."""
import random, math
from .terms import *
from . import nf as N


def modes(mpol, ntor, nfp, rng, trunc=None):
    """VMEC ordering: m=0 -> n=0..ntor ; m>=1 -> n=-ntor..ntor"""
    out = [(0, n) for n in range(0, ntor + 1)]
    for m in range(1, mpol):
        out += [(m, n) for n in range(-ntor, ntor + 1)]
    return out


def surface_list(ns, seed, r):
    """single, unsorted, repeated, ... by turns"""
    a, b, c = (r.sample(range(ns), 3) if ns >= 3 else [r.randrange(ns) for _ in range(3)])
    lo, hi = min(a, b), max(a, b)
    return [[hi, lo, lo], [a], [lo, hi], [c, c], [hi, c, lo], [lo]][seed % 6]


class Witness:
    """one valid input configuration"""

    def __init__(self, seed, mboz=None, nboz=None, asym=False, small=True, variant=None):
        variant = seed if variant is None else variant
        r = self.rng = random.Random(seed)
        self.seed = seed
        self.asym = asym
        s = {}
        s['nfp'] = r.choice([1, 2, 3])
        s['mpol'] = r.choice([2, 3])
        s['ntor'] = r.choice([1, 1, 2, 0])
        s['mpol_nyq'] = r.choice([2, 3]) if not small else 2
        s['ntor_nyq'] = r.choice([1, 2]) if not small else 1
        s['mboz'] = mboz if mboz is not None else r.choice([1, 2])
        s['nboz'] = nboz if nboz is not None else r.choice([0, 1])
        s['ns_in'] = r.choice([4, 5])
        s['verbose'] = r.choice([0, 1, 2])
        s['asym'] = asym
        m1 = modes(s['mpol'], s['ntor'], s['nfp'], r)
        m2 = modes(s['mpol_nyq'] + 1, s['ntor_nyq'], s['nfp'], r)
        if small and variant % 2 == 0:
            # randomly chosen modes in VMEC order (keeps (0,0) first)
            m1 = [m1[0]] + sorted(r.sample(m1[1:], min(len(m1) - 1, 4)))
            m2 = [m2[0]] + sorted(r.sample(m2[1:], min(len(m2) - 1, 5)))
        elif small:
            # any order, either sign of n for m=0
            m1 = self.table(s['mpol'], s['ntor'], 5)
            m2 = self.table(s['mpol_nyq'] + 1, s['ntor_nyq'], 6)
        s['mnmax'] = len(m1)
        s['mnmax_nyq'] = len(m2)
        self.m1, self.m2 = m1, m2
        self.surfs = surface_list(s['ns_in'], variant, r)
        s['nsurf'] = len(self.surfs)
        s['aspect'] = 2.5 + r.random()
        s['toroidal_flux'] = -1.5 + r.random()
        s['pi'] = math.pi
        s['omp.max_threads'] = r.choice([1, 2, 4])
        s['omp.num_threads'] = s['omp.max_threads']
        self.s = s
        self.tab = {}

    def table(self, mpol, ntor, n):
        r = self.rng
        al = [(m, k) for m in range(mpol) for k in range(-ntor, ntor + 1) if (m, k) != (0, 0)]
        first = [x for x in al if x[0] == 0 and x[1] < 0][:1]
        rest = [x for x in al if x not in first]
        out = first + r.sample(rest, min(len(rest), n - 1 - len(first)))
        r.shuffle(out)
        return [(0, 0)] + out

    def syms(self):
        return _Syms(self)

    def old(self, name):
        """value of a left-over member"""
        if self.oldfix and name in self.oldfix:
            return self.oldfix[name]
        k = ('old' + self.oldseed, name)
        if k not in self.tab:
            r = random.Random('%s%s/%s' % (self.seed, self.oldseed, name))
            self.tab[k] = r.choice([0, 1, 2, 3]) if '.n' in name else r.randrange(0, 4)
        return self.tab[k]

    oldfix = None   # left-over sizes and scalars that coincide with the new ones
    flip = False
    oldseed = ''    # varied to obtain other left-over contents
    fs = None       # scalars stored in a file, when they differ from those of the object
    own = ()        # arrays whose cached values belong to this witness only

    def filescalar(self, k):
        s = self.fs or self.s
        if k.startswith('dim.'):
            k = k[4:]
            return {'radius': s.get('ns', s['ns_in'] + 1), 'comput_surfs': s['nsurf'], 'pack_rad': s['nsurf'],
                    'mn_modes': s.get('mnboz'), 'mn_mode': s.get('mnboz'), 'mn_mode_nyq': s['mnmax_nyq']}.get(k)
        if k == 'lasym__logical__':
            return int(bool(self.asym))
        if k in s:
            return s[k]
        if k.endswith('_b') and k[:-2] in s:
            return s[k[:-2]]
        if k == 'ns_b':
            return s.get('ns', s['ns_in'] + 1)
        return self.old('file.' + k)

    def arr(self, name, idx):
        if name in self.own:
            return self.gen(name, idx, random.Random('%s/%s/%s' % (self.seed, name, idx)))
        sd = self.oldseed if self.oldseed and name.startswith(('old.', 'old2.', 'static.', 'global.')) else ''
        k = (name + sd, idx)
        v = self.tab.get(k)
        if v is None:
            r = random.Random('%s%s/%s/%s' % (self.seed, sd, name, idx))
            v = self.gen(name, idx, r)
            if self.style and isinstance(v, float):
                v = self.restyle(name, idx, v)
            self.tab[k] = v
        if self.jitter and isinstance(v, float):
            v *= 1 + 1e-11 * (random.Random('%s%s' % (name, idx)).random() - 0.5)
        return v

    jitter = False  # real input data slightly changed, to recognise ill-conditioned values
    unit = 1.0      # size of the data of this witness
    style = None    # how the real input data are distributed (directed.py)
    tag = ''

    def restyle(self, name, idx, v):
        st = self.style
        big = name.split('.')[-1] in ('bmnc', 'bsubvmnc', 'rmnc') and idx and idx[0] == 0
        if st.startswith('zeros'):
            # amplitudes that vanish exactly: all of a mode but lambda; any; lambda alone; everything on one surface
            k = idx[0] if idx else 0
            lam = name.split('.')[-1][:4] in ('lmns', 'lmnc')
            z = {'zeros': k % 2 == 1 and not lam, 'zeros2': random.Random('%s/%s/%s/%s' % (self.seed, st, name, idx)).random() < 0.5,
                 'zeros3': lam and k % 2 == 1, 'zeros4': len(idx) == 2 and (idx[1] % 2 == 0 or k % 2 == 0)}[st]
            return 0.0 if z and not big else v
        if st == 'small':
            # other units: everything but lambda and iota
            return v * 1e-13 if name.split('.')[-1][:3] not in ('lmn', 'iot', 's_i', 's_b') else v
        if st in ('negiota', 'noiota'):
            return (-v if st == 'negiota' else 0.0) if name.split('.')[-1][:4] == 'iota' else v
        if st == 'neg':
            return -v if name.split('.')[-1].startswith('bsub') else v
        if st == 'scale':
            # surfaces whose data differ by many orders of magnitude (not lambda: it is part of an angle)
            return v * 1e24 if len(idx) == 2 and idx[1] % 2 and not name.startswith('old') and name.split('.')[-1][:3] != 'lmn' else v
        if st == 'tiny':
            return v * 1e-30 if not big and random.Random('%s/%s/%s' % (self.seed, name, idx)).random() < 0.5 else v
        if st == 'ones':
            return 1.0
        return v

    def gen(self, name, idx, r):
        s = self.s
        if name == 'file.xn':
            return s['nfp'] * self.m1[idx[0]][1]
        if name == 'file.xn_nyq':
            return s['nfp'] * self.m2[idx[0]][1]
        if name == 'file.jlist':
            return self.surfs[idx[0]] + 2
        if name.startswith('file.'):
            name = name[5:]
        if name in ('xm_b', 'xn_b', 'ixm_b', 'ixn_b'):
            return r.randrange(0, 30)
        if name == 'iotas' or name == 'iota_b':
            return 0.4 + 0.3 * r.random()
        if name == 'xm':
            return self.m1[idx[0]][0]
        if name == 'XN':
            return self.m1[idx[0]][1]
        if name == 'xm_nyq':
            return self.m2[idx[0]][0]
        if name == 'XN_NYQ':
            return self.m2[idx[0]][1]
        if name == 'compute_surfs':
            return self.surfs[idx[0]]
        if name == 's_in':
            return (idx[0] + 0.5) / s['ns_in']
        if name == 'iota':
            return 0.4 + 0.3 * r.random()
        if name == 'rmnc' and idx[0] == 0:
            return 8 + r.random()
        if name == 'bmnc' and idx[0] == 0:
            return 5 + r.random()
        if name == 'bsubvmnc' and idx[0] == 0:
            return 10 + r.random()
        return 0.2 * (r.random() - 0.5)

    def valuation(self, W, budget=4000000, extra=None):
        arrays = {}
        shapes = getattr(W, 'shapes', {})
        for n, d in W.inputs.items():
            nm = d.name
            arrays[d] = self._f(nm, shapes.get(n))
        sy = _Syms(self)
        if extra:
            sy.update(extra)
        return WVal(sy, arrays, budget, self)

    def _f(self, nm, shape):
        def f(idx):
            if shape is not None:
                for i, x in enumerate(idx):
                    hi = self.s.get(shape[i], None)
                    if hi is not None and not 0 <= x < hi:
                        raise OutOfRange('%s%s' % (nm, list(idx)))
            return self.arr(nm, tuple(int(i) for i in idx))
        return f


class _Syms(dict):
    def __init__(self, w):
        super().__init__(w.s)
        self.w = w

    def __missing__(self, k):
        if isinstance(k, str):
            if k.startswith(('old.', 'old2.', 'static.', 'global.', 'nondet', 'omp.thread')):
                return self.w.old(k)
            if k.startswith('file.'):
                v = self.w.filescalar(k[5:])
                if v is not None:
                    return v
            if k in ('filename', 'version', 'extension') or k.startswith('str.'):
                return 'value of ' + k
            if k in ('nc.handle', 'nc.id') or k.startswith('nc.handle'):
                return 65536
        raise KeyError(k)

    def get(self, k, d=None):
        try:
            return self[k]
        except KeyError:
            return d


class WVal(Valuation):
    def __init__(self, syms, arrays, budget, w):
        super().__init__(syms, arrays, budget)
        self.w = w

    def evdef(self, d, idx, env):
        if isinstance(d, InputDef) and d not in self.arrays:
            if d.expand is not None:
                return self._ev(d.expand([num(int(i)) for i in idx]), env)
            nm = d.name
            self.arrays[d] = self.w._f(nm, None)
        return super().evdef(d, idx, env)


def same_value(a, b, rel=1e-9, scale=None, unit=1.0):
    """False only when definitely different"""
    if isinstance(a, bool) or isinstance(b, bool):
        return bool(a) == bool(b)
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    fa, fb = float(a), float(b)
    if math.isnan(fa) or math.isnan(fb):
        return math.isnan(fa) and math.isnan(fb)
    if math.isinf(fa) or math.isinf(fb):
        return fa == fb
    sc = max(abs(fa), abs(fb), unit * 1e-3 if scale is None else scale * 1e-3)
    return abs(fa - fb) <= rel * sc
