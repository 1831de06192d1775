"""init_from_vmec(): radial interpolation (P05) and validation (P15)."""
from .decide import *
from .world import *
from .chk_run import in_shapes, el, witnesses
from .loops import lit_poly, assume
from .witness import Witness
from . import nf as N

METHOD = CLS + '::init_from_vmec'
MAT = {'rmnc0': 'mnmax', 'rmns0': 'mnmax', 'zmnc0': 'mnmax', 'zmns0': 'mnmax', 'lmnc0': 'mnmax', 'lmns0': 'mnmax',
       'bmnc0': 'mnmax_nyq', 'bmns0': 'mnmax_nyq', 'bsubumnc0': 'mnmax_nyq', 'bsubumns0': 'mnmax_nyq',
       'bsubvmnc0': 'mnmax_nyq', 'bsubvmns0': 'mnmax_nyq'}
ASYM0 = ('rmns0', 'zmnc0', 'lmnc0', 'bmns0', 'bsubumns0', 'bsubvmns0')
# parameter positions of the public signature
ORDER = ['ns', 'iotas', 'rmnc0', 'rmns0', 'zmnc0', 'zmns0', 'lmnc0', 'lmns0', 'bmnc0', 'bmns0', 'bsubumnc0', 'bsubumns0', 'bsubvmnc0',
         'bsubvmns0', 'phip0', 'chi0', 'pres0', 'phi0']
VEC = ('iotas', 'phip0', 'chi0', 'pres0', 'phi0')


def partitions(pid, tier):
    out = []
    for asym in (False, True):
        for flux in (False, True):
            out.append(('asym=%s,flux=%s' % (asym, flux), {'asym': asym, 'flux': flux}))
    if pid == 'P15':
        out += [('run,asym=%s,nboz%s' % (asym, '>=1' if nb else '=0'), {'asym': asym, 'flux': None, 'nb': nb}) for asym in (False, True) for nb in (0, 1)]
    return out


class VW(World):
    """symbolic call of init_from_vmec"""

    def __init__(self, P, asym, flux, opaque=False, verbose=0, fix=None, nslo=3):
        fx = {'verbose': num(verbose)} if verbose is not None else {}
        fx.update(fix or {})
        World.__init__(self, P, asym=asym, fix=fx, replaced=INIT_REPLACES)
        ns = self.ns = sym('ns')
        self.args = {}
        f = P.fn(METHOD)
        if f is None or len(f['params']) < 14:
            from .frontend import AnalysisBroken
            raise AnalysisBroken('init_from_vmec not found')
        if not opaque:
            self.facts.lo[ns] = [N.p_const(nslo)]
        self.dims = {}
        vals = []
        par = f['params']
        self.fn = f
        for i, p in enumerate(par):
            nm = ORDER[i] if i < len(ORDER) else p['name']
            at = arr_type(p['t'])
            if at is None:
                vals.append(ns)
                continue
            rank = at[0]
            if nm in MAT:
                need = (sym(MAT[nm]), ns)
            elif nm == 'iotas':
                need = (ns,)
            else:
                need = (ns,) if flux else (ZERO,)
            if rank == 2 and not asym and nm in ASYM0:
                need = (ZERO, ZERO)
            sh = need
            if opaque:
                sh = tuple(sym('dim.%s.%d' % (nm, k)) for k in range(rank))
                for x in sh:
                    self.facts.lo[x] = [N.p_const(0)]
                if not flux and nm == 'phip0':
                    sh = (ZERO,)
            self.dims[nm] = (sh, need)
            raw = InputDef('arg.' + nm, rank, 'real')
            self.inputs['arg.' + nm] = raw
            d = raw
            if nm in MAT and MAT[nm] == 'mnmax' and nm[0] in 'rz':
                # R and Z harmonics with odd m vanish on the magnetic axis
                d = InputDef('arg.%s*' % nm, 2, 'real', expand=lambda ix, raw=raw: ite(
                    and_(eq(ix[1], ZERO), eq(imod(elem(self.inputs['xm'], [ix[0]]), num(2)), ONE)), ZERO, elem(raw, ix)))
            self.args[nm] = d
            key = ('arg', nm)
            self.st.s[key] = Arr(rank, sh, d, newgen(), 'real', at[3], at[4])
            vals.append(LV(key))
        self.vals = vals

    def a(self, nm, *ix):
        return elem(self.args[nm], list(ix))

    def go(self):
        return self.call('init_from_vmec', self.vals, nparams=len(self.fn['params']))


def wits(asym, flux, tier, seed, n=None, small_ns=False):
    out = []
    for i in range(n or (4 if tier == 'quick' else 16)):
        w = Witness(seed * 777 + i, asym=asym, variant=i)
        r = w.rng
        s = w.s
        s['$zero'] = 0
        s['mpol'] = [4, 3, 2, 4][i % 4]
        s['ntor'] = [1, 0, 2, 1][i % 4]
        from .witness import modes, surface_list
        m1 = modes(s['mpol'], s['ntor'], 1, r)
        keep = [m1[0]] + sorted(r.sample(m1[1:-1], min(len(m1) - 2, 6))) + [m1[-1]]
        w.m1 = keep
        m2 = modes(s['mpol_nyq'] + 1, s['ntor_nyq'], 1, r)
        w.m2 = [m2[0]] + sorted(r.sample(m2[1:-1], 3)) + [m2[-1]]
        s['mnmax'], s['mnmax_nyq'] = len(w.m1), len(w.m2)
        s['ns'] = [4, 5, 3, 6][i % 4]
        s['ns_in'] = s['ns'] - 1
        w.surfs = surface_list(s['ns_in'], i, r)
        s['nsurf'] = len(w.surfs)
        out.append(w)
    return out


def spec_rz(W, nm, j, k):
    """half-grid value of a full-grid R/Z harmonic"""
    m = elem(W.inputs['xm'], [j])
    hs = div(ONE, sub(W.ns, ONE))
    half = num(Fraction(1, 2))
    sf = lambda i: fn('sqrt', mul(hs, i))
    sh = fn('sqrt', mul(hs, add(k, half)))
    x = lambda i: W.a(nm, j, i)
    even = mul(half, add(x(k), x(add(k, ONE))))
    # odd: mean of x/sqrt(s); the axis term is x/sqrt(s) -> 0 for m>1, linear extrapolation for m=1
    up = div(x(add(k, ONE)), sf(add(k, ONE)))
    inner = mul(half, add(div(x(k), sf(k)), up))
    extr = sub(mul(num(Fraction(3, 2)), div(x(ONE), sf(ONE))), mul(half, div(x(num(2)), sf(num(2)))))
    axis = ite(eq(m, ONE), extr, mul(half, up))
    odd = mul(sh, ite(eq(k, ZERO), axis, inner))
    return ite(eq(imod(m, num(2)), ZERO), even, odd)


def analyse(P, label, args, tier, seed):
    pid, asym, flux = args['pid'], args['asym'], args['flux']
    if pid == 'P15' and flux is None:
        return run_validation(P, asym, args['nb'], tier, seed)
    if pid == 'P15':
        return validation(P, asym, flux, tier, seed)
    W = VW(P, asym, flux, nslo=3)
    alive = W.go()
    W.shapes = in_shapes(asym)
    for nm, (sh, need) in W.dims.items():
        W.shapes['arg.' + nm] = tuple(dimname(x) for x in need)
    D = Decider(W, wits(asym, flux, tier, seed), prove_s=10 if tier == 'quick' else 60)
    stats = {'loops': W.E.stats['loops'], 'loops_closed': W.E.stats['closed'], 'events': len(W.E.events), 'gaps': len(W.E.gaps),
             'functions': sorted({e.site[2] for e in W.E.events})}
    if not alive:
        D.note('init_from_vmec returns', 'violated', 'init_from_vmec', 'never returns normally for valid inputs')
        return {'obs': [o.tup() for o in D.obs], 'stats': stats}
    vmec_obligations(D, W, asym, flux)
    return {'obs': [o.tup() for o in D.obs], 'stats': stats}


def vmec_obligations(D, W, asym, flux, S=None):
    S = S or sym
    ns = W.ns
    nin = sub(ns, ONE)
    mn, mq = S('mnmax'), S('mnmax_nyq')
    jm, jq, k, k1 = bv('mode', ZERO, mn), bv('mode', ZERO, mq), bv('s', ZERO, nin), bv('s', ZERO, ns)
    BV.info[jm], BV.info[jq], BV.info[k], BV.info[k1] = (ZERO, mn), (ZERO, mq), (ZERO, nin), (ZERO, ns)
    for nm in ('rmnc', 'zmns') + (('rmns', 'zmnc') if asym else ()):
        D.equal('%s(mode, half-grid surface)' % nm, el(W, nm, jm, k), spec_rz(W, nm + '0', jm, k), [(jm, mn), (k, nin)], where_of(W.get(nm)), key=nm)
        ext(D, W, nm, (mn, nin))
    for nm in ('lmns',) + (('lmnc',) if asym else ()):
        D.equal('%s(mode, surface)' % nm, el(W, nm, jm, k), W.a(nm + '0', jm, add(k, ONE)), [(jm, mn), (k, nin)], where_of(W.get(nm)), key=nm)
        ext(D, W, nm, (mn, nin))
    for nm in ('bmnc', 'bsubumnc', 'bsubvmnc') + (('bmns', 'bsubumns', 'bsubvmns') if asym else ()):
        D.equal('%s(mode, surface)' % nm, el(W, nm, jq, k), W.a(nm + '0', jq, add(k, ONE)), [(jq, mq), (k, nin)], where_of(W.get(nm)), key=nm)
        ext(D, W, nm, (mq, nin))
    D.equal('iota(surface)', el(W, 'iota', k), W.a('iotas', add(k, ONE)), [(k, nin)], where_of(W.get('iota')), key='iota')
    ext(D, W, 'iota', (nin,))
    D.equal('s_in(surface)', el(W, 's_in', k), div(add(k, num(Fraction(1, 2))), nin), [(k, nin)], where_of(W.get('s_in')), key='s_in')
    ext(D, W, 's_in', (nin,))
    D.equal('compute_surfs(j) defaults to every surface', el(W, 'compute_surfs', k), k, [(k, nin)], where_of(W.get('compute_surfs')), key='compute_surfs')
    ext(D, W, 'compute_surfs', (nin,))
    D.equal('ns_in', W.get('ns_in'), nin, (), 'init_from_vmec', key='ns_in')
    mpol, ntor = S('mpol'), S('ntor')
    D.equal('mboz guess', W.get('mboz'), mul(num(6), mpol), (), 'init_from_vmec', key='mboz')
    D.equal('nboz guess', W.get('nboz'), ite(lt(ZERO, ntor), sub(mul(num(2), ntor), ONE), ZERO), (), 'init_from_vmec', key='nboz')
    two_pi = mul(num(2), sym('pi', 'real'))
    if flux:
        D.equal('phip(surface)', el(W, 'phip', k1), neg(div(W.a('phip0', k1), two_pi)), [(k1, ns)], where_of(W.get('phip')), key='phip')
        for nm in ('chi', 'pres', 'phi'):
            D.equal('%s(surface)' % nm, el(W, nm, k1), W.a(nm + '0', k1), [(k1, ns)], where_of(W.get(nm)), key=nm)
        D.equal('toroidal_flux', W.get('toroidal_flux'), W.a('phi0', nin), (), 'init_from_vmec', key='toroidal_flux')
        for nm in ('phip', 'chi', 'pres', 'phi'):
            ext(D, W, nm, (ns,))
    else:
        for nm in ('phip', 'chi', 'pres', 'phi'):
            ext(D, W, nm, (ZERO,))
        D.equal('toroidal_flux without flux data', W.get('toroidal_flux'), ZERO, (), 'init_from_vmec', key='toroidal_flux')


def dimname(x):
    if x.op == 'sym':
        return x.a[0]
    return '$zero'


def ext(D, W, nm, sh):
    a = W.get(nm)
    if type(a) is not Arr or a.rank != len(sh):
        D.note('extent of ' + nm, 'undecided', '', 'no array')
        return
    for i, s in enumerate(sh):
        D.equal('extent %d of %s' % (i, nm), a.shape[i], s, (), where_of(a), key=nm + '.extent')


# ------------------------------------------------------------------ validation
def validation(P, asym, flux, tier, seed):
    obs = []
    # (a) every inconsistency is rejected: whatever reaches the normal exit satisfies the requirement
    W = VW(P, asym, flux, opaque=True)
    W.facts.lo.pop(sym('nfp'), None)
    for nm in ('xm', 'xn', 'xm_nyq', 'xn_nyq'):
        a = W.get(nm)
        sh = (sym('dim.%s.0' % nm),)
        W.facts.lo[sh[0]] = [N.p_const(0)]
        W.st.s[('o', W.obj.oid, nm)] = a.w(shape=sh)
        W.dims[nm] = (sh, (sym('mnmax_nyq' if 'nyq' in nm else 'mnmax'),))
    alive = W.go()
    D = Decider(W, wits(asym, flux, tier, seed, n=3))
    for w in D.wits:
        w.s['$zero'] = 0
    pc = W.st.pc
    reqs = []
    ns = W.ns
    for nm, (sh, need) in W.dims.items():
        if not asym and nm in ASYM0:
            continue
        for i, (a, b) in enumerate(zip(sh, need)):
            if a is ZERO or (not flux and nm in VEC and nm != 'iotas'):
                continue
            reqs.append(('%s has extent %s in dimension %d' % (nm, N.canon(b), i), eq(a, b), a, b))
    reqs.append(('ns >= 3', le(num(3), ns), ns, None))
    reqs.append(('nfp >= 1', le(ONE, sym('nfp')), sym('nfp'), None))
    i = lambda n, *x: elem(W.inputs[n], list(x))
    reqs.append(('first mode has m = 0', eq(i('xm', ZERO), ZERO), None, None))
    reqs.append(('first mode has n = 0', eq(i('xn', ZERO), ZERO), None, None))
    reqs.append(('first Nyquist mode has m = 0', eq(i('xm_nyq', ZERO), ZERO), None, None))
    reqs.append(('first Nyquist mode has n = 0', eq(i('xn_nyq', ZERO), ZERO), None, None))
    last = lambda n, c: i(n, sub(sym(c), ONE))
    reqs.append(('last mode has n = nfp*ntor', eq(last('xn', 'mnmax'), mul(sym('nfp'), sym('ntor'))), None, None))
    reqs.append(('last Nyquist mode has n = nfp*ntor_nyq', eq(last('xn_nyq', 'mnmax_nyq'), mul(sym('nfp'), sym('ntor_nyq'))), None, None))
    if not alive:
        D.note('valid inputs accepted', 'violated', 'init_from_vmec', 'never returns normally')
        return {'obs': [o.tup() for o in D.obs], 'stats': {}}
    polys = []
    for c in pc:
        try:
            polys += lit_poly(c) or []
        except N.TooBig:
            pass
    for name, cond, a, b in reqs:
        done = False
        if cond in pc or any(same_cond(cond, c) for c in pc):
            done = True
        else:
            with assume(polys):
                try:
                    if N.nf_bool(cond) == {(): 1}:
                        done = True
                except N.TooBig:
                    pass
        if done:
            D.note('rejects unless ' + name, 'proved', 'init_from_vmec', '', key='reject ' + name)
            continue
        # witness: a consistent configuration, except for this requirement, that satisfies the exit condition
        hit = None
        und = False
        for w, _ in D.more():
            for delta in (1, -1, 2):
                syms = {}
                for nm, (sh, need) in W.dims.items():
                    for x, y in zip(sh, need):
                        if x.op == 'sym':
                            syms[x.a[0]] = w.s.get(dimname(y), 0)
                ws = dict(w.s)
                ws['nsurf'] = 0
                tab = dict(w.tab)
                w2 = clone(w)
                w2.s.update(ws)
                w2.s.update(syms)
                if a is not None and b is not None:
                    w2.s[a.a[0]] = max(0, w2.s[a.a[0]] + delta)
                elif name == 'ns >= 3':
                    w2.s['ns'] = 2
                    for nm, (sh, need) in W.dims.items():
                        for x, y in zip(sh, need):
                            if x.op == 'sym' and y is ns:
                                w2.s[x.a[0]] = 2
                elif name == 'nfp >= 1':
                    w2.s['nfp'] = 0
                elif 'm = 0' in name or 'n = 0' in name or 'last' in name:
                    nm = ('XN' if ' n =' in name else 'xm')
                    if 'Nyquist' in name:
                        nm = nm + ('_NYQ' if nm == 'XN' else '_nyq')
                    idx = (0,) if 'first' in name else ((w2.s['mnmax_nyq'] if 'Nyquist' in name else w2.s['mnmax']) - 1,)
                    w2.tab[(nm, idx)] = w2.arr(nm, idx) + delta
                W.shapes = {}
                V = w2.valuation(W)
                try:
                    if V.ev(cond):
                        continue
                    if all(V.ev(c) for c in pc):
                        hit = w2
                        break
                except (Undecided, OutOfRange, UninitRead, TypeError, ValueError, ZeroDivisionError):
                    und = True
            if hit:
                break
        if hit:
            D.note('rejects unless ' + name, 'violated', 'init_from_vmec',
                   'an input that breaks this requirement reaches the normal exit (no exception on any path): %s' % D.brief(hit), key='reject ' + name)
        else:
            D.note('rejects unless ' + name, 'undecided' if und else 'agrees', 'init_from_vmec', 'identity test', key='reject ' + name)
    obs += D.obs
    # (b) valid inputs are accepted: no throw is reachable
    W2 = VW(P, asym, flux, verbose=0)
    alive = W2.go()
    W2.shapes = {}
    D2 = Decider(W2, wits(asym, flux, tier, seed))
    for w in D2.wits:
        # compute_surfs left over from an earlier, larger equilibrium
        w.surfs = [w.s['ns'] + 3]
        w.s['nsurf'] = 1
    thr = [e for e in W2.E.events if e.kind == 'throw']
    if not alive:
        D2.note('valid inputs accepted', 'violated', 'init_from_vmec', 'never returns normally')
    for e in thr:
        c = and_(*e.pc)
        free = [(l.it, l.n) for l in e.loops if l.n is not None]
        D2.holds('no exception for valid inputs (%s)' % (e.d.get('msg') or e.d.get('ty')), not_(c), free, fmt_site(e.site), key='accept')
    D2.note('normal exit reachable', 'proved' if alive else 'violated', 'init_from_vmec', '', key='accept')
    obs += D2.obs
    return {'obs': [o.tup() for o in obs], 'stats': {'throw_sites': sorted({fmt_site(e.site) for e in thr}), 'requirements': len(reqs),
            'events': len(W.E.events) + len(W2.E.events)}}


def clone(w):
    import copy
    c = copy.copy(w)
    c.s = dict(w.s)
    c.tab = dict(w.tab)
    return c


def same_cond(a, b):
    try:
        return N.nf_bool(a) == N.nf_bool(b)
    except (N.TooBig, RecursionError):
        return False


def run_validation(P, asym, nb, tier, seed):
    """run() rejects surfaces that do not exist and accepts those that do"""
    W = World(P, asym=asym, fix={'verbose': sym('verbose')} if nb else {'verbose': ZERO, 'nboz': ZERO})
    if nb:
        W.facts.lo[sym('nboz')] = [N.p_const(1)]
    W.inputs['compute_surfs'] = d = InputDef('compute_surfs', 1, 'int')
    a = W.get('compute_surfs')
    W.st.s[('o', W.obj.oid, 'compute_surfs')] = a.w(d=d)
    alive = W.call('run')
    W.shapes = in_shapes(asym)
    D = Decider(W, witnesses(asym, nb, tier, seed))
    D.nb = nb
    thr = [e for e in W.E.events if e.kind == 'throw']
    st = {'throw_sites': sorted({fmt_site(e.site) for e in thr}), 'events': len(W.E.events)}
    if not alive:
        D.note('run() accepts valid surfaces', 'violated', 'run', 'never returns normally')
        return {'obs': [o.tup() for o in D.obs], 'stats': st}
    for name, bad in (('negative', lambda w: -1), ('equal to ns_in', lambda w: w.s['ns_in']), ('above ns_in', lambda w: w.s['ns_in'] + 4)):
        n, miss, und = 0, None, None
        for w, _ in D.more():
            k = w.s['ns_in']
            for size, at in ((1, 0), (2, 0), (2, 1), (3, 1), (4, 3)):
                w2 = clone(w)
                w2.surfs = [[0, 1, k - 1, 1][i] % k for i in range(size)]
                w2.surfs[at] = bad(w)
                w2.s['nsurf'] = size
                V = w2.valuation(W)
                f = fired(V, thr)
                if f is True:
                    n += 1
                elif f is None:
                    und = w2
                else:
                    miss = w2
        if miss:
            D.note('run() rejects a surface index %s' % name, 'violated', 'run', 'no exception is reachable for %s' % D.brief(miss), key='run rejects')
        else:
            D.note('run() rejects a surface index %s' % name, 'agrees' if n and not und else 'undecided', '; '.join(st['throw_sites']), '%d identity tests' % n,
                   key='run rejects')
    bad = None
    n = 0
    for w, V in D.more():
        f = fired(V, thr)
        if f:
            bad = w
        n += f is False
    D.note('run() accepts valid surfaces', 'violated' if bad else 'agrees' if n else 'undecided', '; '.join(st['throw_sites']),
           'an exception is raised for %s' % D.brief(bad) if bad else '%d identity tests' % n, key='run accepts')
    return {'obs': [o.tup() for o in D.obs], 'stats': st}


def fired(V, throws):
    """True / False / None: does one of the throw sites apply under this valuation"""
    und = False
    for e in throws:
        free = [(l.it, l.n) for l in e.loops if l.n is not None]
        for v, hi in free:
            BV.info[v] = (ZERO, hi)

        def rec(i, env):
            nonlocal und
            if i == len(free):
                try:
                    return all(V.ev(c, env) for c in e.pc)
                except (OutOfRange, UninitRead):
                    return False
                except (Undecided, TypeError, ValueError, ZeroDivisionError):
                    und = True
                    return False
            v, hi = free[i]
            try:
                top = int(V.ev(hi, env))
            except (OutOfRange, UninitRead):
                return False
            except (Undecided, TypeError, ValueError):
                und = True
                return False
            for k in range(top):
                env[v] = k
                if rec(i + 1, env):
                    return True
            env.pop(v, None)
            return False
        if rec(0, {}):
            return True
    return None if und else False
