"""Oracle for the transformation: every output of run() as a closed form over
the *inputs*, written from the documented theory (docs/source/theory.rst,
Doxygen of booz_xform.hpp), independently of the C++ text."""
from .terms import *
from .world import *

PI = sym('pi', 'real')
TWO = num(2)


class RunSpec:
    def __init__(self, W, asym):
        self.W = W
        self.asym = asym
        i = self.i = lambda n, *idx: elem(W.inputs[n], list(idx))
        S = lambda n: W.init[n] if type(W.init.get(n)) is T else sym(n)
        self.nfp, self.mboz, self.nboz = S('nfp'), S('mboz'), S('nboz')
        self.mnmax, self.mnmax_nyq = S('mnmax'), S('mnmax_nyq')
        self.ns_in = S('ns_in')
        self.nsurf = sym('nsurf')
        self.ntheta = mul(TWO, add(mul(TWO, self.mboz), ONE))
        self.nzeta = ite(eq(self.nboz, ZERO), ONE, mul(TWO, add(mul(TWO, self.nboz), ONE)))
        self.nu2 = add(idiv(self.ntheta, TWO), ONE)
        self.npts = mul(self.nzeta, self.ntheta if asym else self.nu2)
        self.mnboz = add(add(self.nboz, ONE), mul(sub(self.mboz, ONE), add(mul(TWO, self.nboz), ONE)))

    # ---- real-space grid
    def theta(self, j):
        return mul(idiv(j, self.nzeta), div(mul(TWO, PI), self.ntheta))

    def zeta(self, j):
        k = sub(j, mul(self.nzeta, idiv(j, self.nzeta)))
        return mul(k, div(mul(TWO, PI), mul(self.nfp, self.nzeta)))

    def modes(self, nyq):
        sfx = '_nyq' if nyq else ''
        N_ = self.mnmax_nyq if nyq else self.mnmax
        k = bv('m', ZERO, N_)
        return k, N_, self.i('xm' + sfx, k), self.i('xn' + sfx, k)

    def series(self, j, c, s, nyq, fc=None, fs=None):
        """sum_k  c_k cos(m theta - n zeta) * fc + s_k sin(..) * fs  ; c, s functions of (k,m,n)"""
        k, N_, m, n = self.modes(nyq)
        a = sub(mul(m, self.theta(j)), mul(n, self.zeta(j)))
        t = []
        if c is not None:
            t.append(mul(c(k, m, n), fn('cos', a)))
        if s is not None:
            t.append(mul(s(k, m, n), fn('sin', a)))
        return sum_(k, ZERO, N_, add(*t))

    def surf(self, js):
        return self.i('compute_surfs', js)

    def I(self, js):
        return self.i('bsubumnc', ZERO, self.surf(js))

    def G(self, js):
        return self.i('bsubvmnc', ZERO, self.surf(js))

    def iota(self, js):
        return self.i('iota', self.surf(js))

    def fields(self, j, js):
        """R, Z, |B|, nu, Jacobian determinant, Boozer angles at grid point j"""
        s = self.surf(js)
        A = self.asym
        f = lambda nm: (lambda k, m, n: self.i(nm, k, s))
        o = lambda nm, w: (lambda k, m, n: mul(w(m, n), self.i(nm, k, s)))
        M = lambda m, n: m
        MN = lambda m, n: neg(m)
        NN = lambda m, n: neg(n)
        NP = lambda m, n: n
        R = self.series(j, f('rmnc'), f('rmns') if A else None, False)
        Z = self.series(j, f('zmnc') if A else None, f('zmns'), False)
        lam = self.series(j, f('lmnc') if A else None, f('lmns'), False)
        dlt = self.series(j, o('lmns', M), o('lmnc', MN) if A else None, False)
        dlz = self.series(j, o('lmns', NN), o('lmnc', NP) if A else None, False)
        B = self.series(j, f('bmnc'), f('bmns') if A else None, True)

        def ws(k, m, n):
            return ite(ne(m, ZERO), div(self.i('bsubumnc', k, s), m),
                       ite(ne(n, ZERO), neg(div(self.i('bsubvmnc', k, s), n)), ZERO))

        def wc(k, m, n):
            return ite(ne(m, ZERO), neg(div(self.i('bsubumns', k, s), m)),
                       ite(ne(n, ZERO), div(self.i('bsubvmns', k, s), n), ZERO))
        w = self.series(j, wc if A else None, ws, True)
        dwt = self.series(j, lambda k, m, n: mul(m, ws(k, m, n)),
                          (lambda k, m, n: neg(mul(m, wc(k, m, n)))) if A else None, True)
        dwz = self.series(j, lambda k, m, n: neg(mul(n, ws(k, m, n))),
                          (lambda k, m, n: mul(n, wc(k, m, n))) if A else None, True)
        I, G, io = self.I(js), self.G(js), self.iota(js)
        GI = add(G, mul(io, I))
        inv = div(ONE, GI)
        nu = mul(inv, sub(w, mul(I, lam)))
        dnt = mul(inv, sub(dwt, mul(I, dlt)))
        dnz = mul(inv, sub(dwz, mul(I, dlz)))
        thB = add(self.theta(j), lam, mul(io, nu))
        zeB = add(self.zeta(j), nu)
        D = add(mul(add(ONE, dlt), add(ONE, dnz)), mul(sub(io, dlz), dnt))
        jac = div(GI, mul(B, B))
        return dict(R=R, Z=Z, B=B, nu=nu, D=D, thB=thB, zeB=zeB, jac=jac)

    OUT = {'bmnc_b': ('B', 'cos'), 'rmnc_b': ('R', 'cos'), 'zmns_b': ('Z', 'sin'), 'numns_b': ('nu', 'sin'), 'gmnc_b': ('jac', 'cos'),
           'bmns_b': ('B', 'sin'), 'rmns_b': ('R', 'sin'), 'zmnc_b': ('Z', 'cos'), 'numnc_b': ('nu', 'cos'), 'gmns_b': ('jac', 'sin')}
    SYM = ('bmnc_b', 'rmnc_b', 'zmns_b', 'numns_b', 'gmnc_b')
    ASYM = ('bmns_b', 'rmns_b', 'zmnc_b', 'numnc_b', 'gmns_b')

    def coefficient(self, name, m, n, js):
        q, trig = self.OUT[name]
        j = bv('j', ZERO, self.npts)
        F = self.fields(j, js)
        ang = sub(mul(m, F['thB']), mul(n, F['zeB']))
        if self.asym:
            wt = ONE
            fac = div(TWO, mul(self.ntheta, self.nzeta))
        else:
            edge = or_(lt(j, self.nzeta), le(mul(sub(self.nu2, ONE), self.nzeta), j))
            wt = ite(edge, num(Fraction(1, 2)), ONE)
            fac = div(TWO, mul(sub(self.nu2, ONE), self.nzeta))
        fac = mul(fac, ite(and_(eq(m, ZERO), eq(n, ZERO)), num(Fraction(1, 2)), ONE))
        return mul(fac, sum_(j, ZERO, self.npts, mul(wt, F['D'], F[q], fn(trig, ang))))

    # ---- mode list: m = 0..mboz-1; n = -nboz..nboz (0..nboz for m = 0), toroidal index fastest
    def mode(self, j):
        W = add(mul(TWO, self.nboz), ONE)
        q = sub(j, add(self.nboz, ONE))
        k = idiv(q, W)
        low = le(j, self.nboz)
        m = ite(low, ZERO, add(k, ONE))
        n = ite(low, j, sub(sub(q, mul(k, W)), self.nboz))
        return m, mul(self.nfp, n)
