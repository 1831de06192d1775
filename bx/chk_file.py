"""File input/output: wout import (P06), boozmn contents (P07), round trip (P08), netCDF error discipline (P16),
handle lifecycle (P17), buffer lifetime and extent of deferred writes (P18)."""
from .decide import *
from .world import *
from .chk_run import in_shapes, el
from .chk_vmec import vmec_obligations, wits, dimname, ext
from .loops import lit_poly, assume
from . import nf as N

WOUT = {'xm': ('mnmax',), 'xn': ('mnmax',), 'xm_nyq': ('mnmax_nyq',), 'xn_nyq': ('mnmax_nyq',), 'iotas': ('ns',), 'chi': ('ns',), 'phipf': ('ns',),
        'pres': ('ns',), 'phi': ('ns',)}
for _n in ('rmnc', 'rmns', 'zmnc', 'zmns', 'lmnc', 'lmns'):
    WOUT[_n] = ('mnmax', 'ns')
for _n in ('bmnc', 'bmns', 'bsubumnc', 'bsubumns', 'bsubvmnc', 'bsubvmns'):
    WOUT[_n] = ('mnmax_nyq', 'ns')
ASYM_WOUT = ('rmns', 'zmnc', 'lmnc', 'bmns', 'bsubumns', 'bsubvmns')
FLUX_WOUT = ('chi', 'phipf', 'pres', 'phi')
OUT_SYM = ('bmnc_b', 'rmnc_b', 'zmns_b', 'numns_b', 'gmnc_b')
OUT_ASYM = ('bmns_b', 'rmns_b', 'zmnc_b', 'numnc_b', 'gmns_b')
FNAME = sym('filename', 'string')


def partitions(pid, tier):
    out = []
    if pid in ('P16', 'P17', 'P18'):
        ops = {'P16': ('read_wout', 'read_boozmn', 'write_boozmn'), 'P17': ('read_wout', 'read_boozmn', 'write_boozmn'), 'P18': ('write_boozmn',)}[pid]
        for op in ops:
            for asym in (False, True):
                for flux in ((False, True) if op != 'read_boozmn' else (True,)):
                    out.append(('%s,asym=%s,flux=%s' % (op, asym, flux), {'asym': asym, 'flux': flux, 'op': op}))
        return out
    if pid == 'P08':
        for asym in (False, True):
            out.append(('any file,asym=%s' % asym, {'asym': asym, 'flux': True, 'op': 'read'}))
    for asym in (False, True):
        for flux in (False, True):
            out.append(('asym=%s,flux=%s' % (asym, flux), {'asym': asym, 'flux': flux, 'op': 'rt'}))
    return out


def stats_of(W):
    return {'loops': W.E.stats['loops'], 'loops_closed': W.E.stats['closed'], 'events': len(W.E.events), 'gaps': len(W.E.gaps),
            'netcdf_calls': sum(1 for e in W.E.events if e.kind == 'nc'), 'functions': sorted({e.site[2] for e in W.E.events})}


def pack(D, W):
    return {'obs': [o.tup() for o in D.obs], 'stats': stats_of(W)}


# ------------------------------------------------------------------ worlds
class WoutWorld(World):
    """read_wout on a symbolic wout file"""

    def __init__(self, P, asym, flux, verbose=0):
        World.__init__(self, P, fix={'verbose': num(verbose)} if verbose is not None else {}, replaced=READ_REPLACES - {'mboz', 'nboz'})
        F = self.facts
        for k, lo in (('ns', 3), ('nfp', 1), ('mpol', 1), ('ntor', 0), ('mnmax', 1), ('mnmax_nyq', 1)):
            F.lo[sym('file.' + k)] = [N.p_const(lo)]
        self.E.filefix = {'lasym__logical__': ONE if asym else ZERO}
        self.E.filedefs = {}
        S = self.S = lambda k: sym('file.' + k)
        self.ns = S('ns')
        self.inputs = {}
        self.shapes = {}
        for nm, sh in WOUT.items():
            ety = 'int' if nm.startswith('x') else 'real'
            if nm == 'xm':
                raw = InputDef('file.xm', 1, 'int', bounds=lambda i: (ZERO, sub(S('mpol'), ONE)))
            else:
                raw = InputDef('file.' + nm, len(sh), ety)
            self.inputs['file.' + nm] = raw
            self.shapes['file.' + nm] = sh
            d = raw
            if nm[0] in 'rz' and len(sh) == 2:
                d = InputDef('file.%s*' % nm, 2, 'real', expand=lambda ix, raw=raw: ite(
                    and_(eq(ix[1], ZERO), eq(imod(elem(self.inputs['file.xm'], [ix[0]]), num(2)), ONE)), ZERO, elem(raw, ix)))
            self.E.filedefs[(nm, len(sh))] = d
        self.inputs['xm'] = self.inputs['file.xm']
        self.flux = flux

    def a(self, nm, *ix):
        nm = nm[:-1] if nm.endswith('0') else nm
        nm = {'phip': 'phipf'}.get(nm, nm)
        return elem(self.E.filedefs[(nm, len(ix))], list(ix))

    def go(self):
        return self.call('read_wout', [FNAME, TRUE if self.flux else FALSE])


def state_after_run(P, asym, flux, verbose=0, cls=World, tie=False, **kw):
    """an object whose outputs are populated (as after run()), all of them symbolic"""
    fix = {'verbose': num(verbose) if verbose is not None else sym('verbose'), 'ns_b': sym('nsurf'), 'mnboz': sym('mnboz')}
    W = cls(P, asym=asym, fix=fix, **kw)
    W.facts.lo[sym('mnboz')] = [N.p_const(1)]
    W.facts.lo[sym('nsurf')] = [N.p_const(1)]
    n1 = add(sym('ns_in'), ONE)
    W.shapes = {k: v for k, v in in_shapes(asym).items()}
    outs = {'xm_b': ('mnboz',), 'xn_b': ('mnboz',), 's_b': ('nsurf',), 'Boozer_G': ('nsurf',), 'Boozer_I': ('nsurf',), 'Boozer_G_all': ('ns_in',),
            'Boozer_I_all': ('ns_in',)}
    for nm in OUT_SYM:
        outs[nm] = ('mnboz', 'nsurf')
    for nm in OUT_ASYM:
        outs[nm] = ('mnboz', 'nsurf') if asym else ('$zero', '$zero')
    for nm in ('phip', 'chi', 'pres', 'phi'):
        outs[nm] = ('ns',) if flux else ('$zero',)
    for nm, sh in outs.items():
        a = W.get(nm)
        if type(a) is not Arr:
            from .frontend import AnalysisBroken
            raise AnalysisBroken('member %s not found' % nm)
        d = InputDef(nm, a.rank, 'int' if a.ety == 'int' else 'real')
        if nm == 's_b':
            # the output flux grid is the input half grid at the computed surfaces
            d = InputDef('s_b', 1, 'real', expand=lambda ix: div(add(elem(W.inputs['compute_surfs'], ix), num(Fraction(1, 2))), sym('ns_in')))
        if nm == 'Boozer_G' or nm == 'Boozer_I':
            d = InputDef(nm, 1, 'real', expand=lambda ix, nm=nm: elem(W.inputs[nm + '_all'], [elem(W.inputs['compute_surfs'], ix)]))
        W.inputs[nm] = d
        W.shapes[nm] = sh
        tsh = tuple(ZERO if x == '$zero' else n1 if x == 'ns' else sym(x) for x in sh)
        v = a.w(shape=tsh, d=d)
        W.st.s[('o', W.obj.oid, nm)] = v
        W.init[nm] = v
    if not tie:
        return W
    # round trip: the boundary toroidal flux is the last entry of phi
    tf = elem(W.inputs['phi'], [sym('ns_in')]) if flux else ZERO
    W.st.s[('o', W.obj.oid, 'toroidal_flux')] = tf
    W.init['toroidal_flux'] = tf
    return W


def out_wits(asym, tier, seed):
    ws = wits(asym, True, tier, seed)
    for w in ws:
        w.s['mnboz'] = w.rng.choice([1, 3, 4, 7])
        w.s['ns_b'] = w.s['nsurf']
        w.s['mboz'], w.s['nboz'] = w.rng.choice([3, 5, 8]), w.rng.choice([0, 2, 4])
        w.s['ns'] = w.s['ns_in'] + 1
    return ws


# ------------------------------------------------------------------ P06
def wout(P, asym, flux, tier, seed):
    W = WoutWorld(P, asym, flux)
    alive = W.go()
    D = Decider(W, wits(asym, flux, tier, seed), prove_s=10 if tier == 'quick' else 60)
    D.extra = no_error({})
    if not alive:
        D.note('read_wout returns', 'violated', 'read_wout', 'never returns normally for a valid file', 'returns')
        return pack(D, W)
    S = W.S
    for nm in ('nfp', 'mpol', 'ntor', 'mnmax', 'mnmax_nyq'):
        D.equal('%s <- file variable' % nm, W.get(nm), S(nm), (), 'read_wout', key=nm)
    D.equal('asym <- lasym__logical__', b2i(W.get('asym')) if W.get('asym') is not None else None, ONE if asym else ZERO, (), 'read_wout', key='asym')
    D.equal('aspect <- file variable', W.get('aspect'), sym('file.aspect', 'real'), (), 'read_wout', key='aspect')
    j1, j2 = bv('mode', ZERO, S('mnmax')), bv('mode', ZERO, S('mnmax_nyq'))
    for nm in ('xm', 'xn', 'xm_nyq', 'xn_nyq'):
        j, n = (j2, S('mnmax_nyq')) if 'nyq' in nm else (j1, S('mnmax'))
        D.equal('%s(mode) <- file variable' % nm, el(W, nm, j), W.a(nm, j), [(j, n)], where_of(W.get(nm)), key=nm)
        ext(D, W, nm, (n,))
    last = sub(S('mnmax_nyq'), ONE)
    D.equal('mpol_nyq is the largest Nyquist m', W.get('mpol_nyq'), W.a('xm_nyq', last), (), 'read_wout', key='mpol_nyq')
    D.equal('ntor_nyq is the largest Nyquist n / nfp', W.get('ntor_nyq'), idiv(W.a('xn_nyq', last), S('nfp')), (), 'read_wout', key='ntor_nyq')
    vmec_obligations(D, W, asym, flux, S)
    op = [e for e in W.E.events if e.kind == 'nc' and e.d['f'] == 'nc_open']
    D.note('the named file is opened', 'proved' if op and op[0].d['args'][0] is FNAME else 'undecided' if not op or type(op[0].d['args'][0]) is not T else 'violated',
           fmt_site(op[0].site) if op else '', '' if op else 'no nc_open', 'open')
    reads(D, W, WOUT, lambda k: S(k))
    return pack(D, W)


def reads(D, W, table, S):
    """every array is read into a buffer of exactly the file variable's extent"""
    for e in W.E.events:
        if e.kind != 'fileread' or e.d['name'] not in table:
            continue
        nm = e.d['name']
        want = tuple(S(x) for x in table[nm])
        if len(want) != e.d['rank']:
            D.note('rank of the buffer for ' + nm, 'violated', fmt_site(e.site), 'file variable has rank %d, buffer has rank %d' % (len(want), e.d['rank']), 'read ' + nm)
            continue
        for i, (x, y) in enumerate(zip(e.d['shape'], want)):
            D.equal('buffer extent %d for file variable %s' % (i, nm), x, y, (), fmt_site(e.site), key='read ' + nm)


# ------------------------------------------------------------------ P07
def fmt_table(W, asym, flux):
    """the boozmn format: name -> (type, dimensions, value(index...), units)"""
    n1 = add(sym('ns_in'), ONE)
    i = lambda nm: (lambda *ix: elem(W.inputs[nm], list(ix)))
    zero = lambda *ix: ZERO
    sh = lambda nm: (lambda j: ite(eq(j, ZERO), ZERO, elem(W.inputs[nm], [sub(j, ONE)])))
    mat = lambda nm, sg=1: (lambda s, m: mul(num(sg), elem(W.inputs[nm], [m, s])))
    sc = lambda t: (lambda: t)
    R, M, S = ('radius',), ('mn_modes',), ('comput_surfs',)
    SM = ('pack_rad', 'mn_modes')
    T_ = {
        'lasym__logical__': ('int', (), sc(ONE if asym else ZERO), None),
        'ns_b': ('int', (), sc(n1), None), 'nfp_b': ('int', (), sc(sym('nfp')), None), 'mboz_b': ('int', (), sc(sym('mboz')), None),
        'nboz_b': ('int', (), sc(sym('nboz')), None), 'mnboz_b': ('int', (), sc(sym('mnboz')), None),
        'aspect_b': ('double', (), sc(sym('aspect', 'real')), None),
        'rmax_b': ('double', (), zero, None), 'rmin_b': ('double', (), zero, None), 'betaxis_b': ('double', (), zero, None),
        'jlist': ('int', S, lambda j: add(elem(W.inputs['compute_surfs'], [j]), num(2)), None),
        'ixm_b': ('int', M, i('xm_b'), None), 'ixn_b': ('int', M, i('xn_b'), None),
        'iota_b': ('double', R, sh('iota'), None), 'buco_b': ('double', R, sh('Boozer_I_all'), 'Tesla * meter'),
        'bvco_b': ('double', R, sh('Boozer_G_all'), 'Tesla * meter'), 'beta_b': ('double', R, zero, None),
        'bmnc_b': ('double', SM, mat('bmnc_b'), 'Tesla'), 'rmnc_b': ('double', SM, mat('rmnc_b'), 'meter'),
        'zmns_b': ('double', SM, mat('zmns_b'), 'meter'), 'pmns_b': ('double', SM, mat('numns_b', -1), 'dimensionless'),
        'gmn_b': ('double', SM, mat('gmnc_b'), 'meter/Tesla'),
    }
    if asym:
        T_.update({'bmns_b': ('double', SM, mat('bmns_b'), 'Tesla'), 'rmns_b': ('double', SM, mat('rmns_b'), 'meter'),
                   'zmnc_b': ('double', SM, mat('zmnc_b'), 'meter'), 'pmnc_b': ('double', SM, mat('numnc_b', -1), 'dimensionless'),
                   'gmns_b': ('double', SM, mat('gmns_b'), 'meter/Tesla')})
    for v, f in (('phip_b', 'phip'), ('chi_b', 'chi'), ('pres_b', 'pres'), ('phi_b', 'phi')):
        if not flux:
            T_[v] = ('double', R, zero, None)
        elif f == 'phip':
            T_[v] = ('double', R, lambda j: ite(eq(j, ZERO), ZERO, elem(W.inputs['phip'], [j])), 'Tesla * meter^2')
        else:
            T_[v] = ('double', R, i(f), 'Pascal' if f == 'pres' else 'Tesla * meter^2')
    D_ = {'radius': n1, 'mn_mode': sym('mnboz'), 'mn_modes': sym('mnboz'), 'comput_surfs': sym('nsurf'), 'pack_rad': sym('nsurf')}
    return T_, D_


NCT = {4: 'int', 6: 'double', 2: 'char'}
SIZE_OF_PUT = {'nc_put_var_int': 'int', 'nc_put_var_double': 'double', 'nc_put_var_text': 'char', 'nc_put_var_float': 'float'}


def by_handle(W):
    """netCDF calls: dimension lengths by id, variables by id, and data puts by variable id"""
    dims, vars_, puts, atts = {}, {}, {}, {}
    for e in W.E.events:
        if e.kind != 'nc':
            continue
        f = e.d['f']
        if f == 'nc_def_dim':
            dims.setdefault(e.d['id'], []).append(e)
        elif f == 'nc_def_var':
            vars_.setdefault(strof(e.d['name']), []).append(e)
        elif f.startswith('nc_put_var'):
            puts.setdefault(e.d['var'], []).append(e)
        elif f.startswith('nc_put_att'):
            atts.setdefault(e.d['var'], []).append(e)
    return dims, vars_, puts, atts


def strof(t):
    return t.a[0] if type(t) is T and t.op == 'str' else t


def feasible(e, W, D):
    """False when the event's path condition is refuted"""
    polys = list(e.pc)
    if any(c is FALSE for c in polys):
        return False
    try:
        if N.nf_bool(and_(*polys)) == {}:
            return False
    except (N.TooBig, RecursionError):
        pass
    return True


def no_error(V):
    V['fn:ncst'] = lambda *v: 0
    return V


def occurs(D, e, ok=None):
    """does the event occur, under each witness, when no netCDF call fails?  -> True / False / None"""
    r = set()
    for i, w in enumerate(D.wits):
        V = D.val(i)
        try:
            r.add(all(V.ev(c) for c in e.pc))
        except (Undecided, UninitRead, OutOfRange, TypeError, ValueError):
            r.add(None)
    if None in r:
        return None
    return r.pop() if len(r) == 1 else None


def success(c):
    """a condition on the statuses of netCDF calls that holds when each of them succeeds"""
    if c.op in ('and', 'or'):
        return (all if c.op == 'and' else any)([success(x) for x in c.a])
    if c.op == 'not':
        return c.a[0].op == 'not' and success(c.a[0].a[0])
    st = lambda x: x.op == 'fn' and x.a[0] == 'ncst'
    return c.op == 'eq' and (st(c.a[0]) and c.a[1] is ZERO or st(c.a[1]) and c.a[0] is ZERO)


def always(D, name, e, key):
    """the event occurs for every object, as long as netCDF calls succeed"""
    D.holds(name, and_(*[c for c in e.pc if not success(c)]), [(l.it, l.n) for l in e.loops if l.n is not None], fmt_site(e.site), key=key)


def position(content, start):
    """offset of an element within the column-major block of its array"""
    off, step = ZERO, ONE
    for x, n in zip(start, content.shape):
        off = add(off, mul(step, x))
        step = mul(step, n)
    return off


def flat(content, ptr, ix, lens):
    """element at file index ix (slowest first) of the memory block behind ptr"""
    if type(content) is T:
        return content
    if type(content) is Vec:
        return content.v[0] if len(content.v) == 1 else None
    if type(content) is not Arr:
        return None
    off = ZERO
    for k, x in enumerate(ix):
        off = add(mul(off, lens[k]), x)
    start = ptr.lv.idx
    if start is not None and not all(x is ZERO for x in start):
        off = add(off, position(content, start))
        if content.rank == 2:
            return elem(content.d, [imod(off, content.shape[0]), idiv(off, content.shape[0])])
    if content.rank == 1:
        return elem(content.d, [off])
    rows = content.shape[0]
    if content.rank == 2 and len(ix) == 2:
        if samet(rows, lens[1]):
            return elem(content.d, [ix[1], ix[0]])
        return elem(content.d, [imod(off, rows), idiv(off, rows)])
    return None


def samet(a, b):
    if a is b:
        return True
    try:
        return N.equal(a, b)
    except (N.TooBig, RecursionError):
        return False


def writer_world(P, asym, flux, verbose=0, tie=False):
    W = state_after_run(P, asym, flux, verbose, tie=tie)
    alive = W.call('write_boozmn', [FNAME])
    return W, alive


def contents(P, asym, flux, tier, seed):
    W, alive = writer_world(P, asym, flux)
    D = Decider(W, out_wits(asym, tier, seed), prove_s=10 if tier == 'quick' else 60)
    D.extra = no_error({})
    if not alive:
        D.note('write_boozmn returns', 'violated', 'write_boozmn', 'never returns normally', 'returns')
        return pack(D, W)
    Tb, Dm = fmt_table(W, asym, flux)
    dims, vars_, puts, atts = by_handle(W)
    cr = [e for e in W.E.events if e.kind == 'nc' and e.d['f'] in ('nc_create', 'nc__create')]
    if len(cr) == 1 and type(cr[0].d['args'][0]) is T:
        D.note('the named file is created', 'proved' if cr[0].d['args'][0] is FNAME else 'violated', fmt_site(cr[0].site), repr(cr[0].d['args'][0]), 'create')
    else:
        D.note('the named file is created', 'undecided' if cr else 'violated', '', 'no single nc_create', 'create')
    dimname_ = {}
    for did, es in dims.items():
        dimname_[did] = strof(es[0].d['name'])
    for nm, want in Dm.items():
        es = [e for x in dims.values() for e in x if strof(e.d['name']) == nm and occurs(D, e) is not False]
        if not es:
            D.note('dimension %s' % nm, 'violated' if not W.E.gaps else 'undecided', 'write_boozmn', 'dimension is not defined', 'dim ' + nm)
            continue
        D.equal('length of dimension %s' % nm, es[0].d['length'], want, (), fmt_site(es[0].site), key='dim ' + nm)
        if len(es) == 1:
            always(D, 'dimension %s is defined whatever the object holds' % nm, es[0], 'dim ' + nm)
    lens = {nm: t for nm, t in Dm.items()}
    for nm, (ty, ds, val, units) in Tb.items():
        es = [e for e in vars_.get(nm, ()) if occurs(D, e) is not False]
        key = 'var ' + nm
        if not es:
            und = [k for k in vars_ if not isinstance(k, str)]
            D.note('variable %s is defined' % nm, 'undecided' if und else 'violated', 'write_boozmn', 'no nc_def_var for this name on the normal path', key)
            continue
        if len(es) > 1:
            D.note('variable %s is defined once' % nm, 'undecided', '; '.join(fmt_site(e.site) for e in es), '', key)
        e = es[0]
        site = fmt_site(e.site)
        t = e.d['type']
        ty2 = NCT.get(t.a[0]) if t.op == 'num' else None
        D.note('type of %s' % nm, 'proved' if ty2 == ty else 'violated' if ty2 else 'undecided', site, 'declared %s, format requires %s' % (ty2, ty), key)
        got = []
        for x in e.d['dims']:
            got.append(dimname_.get(x))
        gl = []
        for g, x in zip(got, e.d['dims']):
            gl.append(dims[x][0].d['length'] if x in dims else None)
        if len(got) != len(ds):
            if e.d['ndims'].op == 'num':
                D.note('rank of %s' % nm, 'violated', site, 'declared with %d dimensions, format requires %d' % (len(got), len(ds)), key)
            else:
                D.note('rank of %s' % nm, 'undecided', site, 'dimensions not extracted', key)
            continue
        okd = True
        for k, (g, wn) in enumerate(zip(got, ds)):
            if g is None:
                D.note('dimension %d of %s' % (k, nm), 'undecided', site, 'dimension id not resolved', key)
                okd = False
            else:
                same = g == wn
                D.note('dimension %d of %s' % (k, nm), 'proved' if same else 'violated', site, 'declared %s, format requires %s' % (g, wn), key)
        if not okd:
            continue
        free = []
        for k, wn in enumerate(ds):
            free.append((bv('i%d' % k, ZERO, lens[wn]), lens[wn]))
        for v, hi in free:
            BV.info[v] = (ZERO, hi)
        ix = [v for v, _ in free]
        ps = [p for p in puts.get(e.d['id'], ()) if occurs(D, p) is not False]
        if not ps:
            D.note('data of %s is written' % nm, 'violated' if all(o.d['var'].op == 'fn' for q in puts.values() for o in q) else 'undecided', site,
                   'no nc_put_var for this variable', key)
            continue
        p = ps[-1]
        for what, x in (('defined', e), ('written', p)):
            if len(es) == 1 and (what == 'defined' or len(ps) == 1):
                always(D, '%s is %s whatever the object holds' % (nm, what), x, key)
        done = False
        for g, ptr, content, ok in p.d['puts']:
            gv = [g_ok(D, c) for c in g]
            if False in gv:
                continue
            if not ok:
                continue   # reported by P18
            done = True
            x = flat(content, ptr, ix, gl)
            D.equal('contents of %s' % nm, x, val(*ix), free, site, key=key)
            kind = SIZE_OF_PUT.get(p.d['f'])
            D.note('element type of the data of %s' % nm, 'proved' if kind == ty else 'violated' if kind else 'undecided', fmt_site(p.site), p.d['f'], key)
        if not done:
            D.note('contents of %s' % nm, 'undecided', site, 'source pointer not resolved', key)
        if units is not None:
            us = [a for a in atts.get(e.d['id'], ()) if strof(a.d['att']) == 'units' and occurs(D, a) is not False]
            if not us:
                D.note('units of %s' % nm, 'violated' if all(isinstance(strof(a.d['att']), str) for z in atts.values() for a in z) else 'undecided', site,
                       'no units attribute', 'units ' + nm)
            else:
                D.equal('units of %s' % nm, us[0].d['val'], string(units), (), fmt_site(us[0].site), key='units ' + nm)
                if len(us) == 1:
                    always(D, 'units of %s are written whatever the object holds' % nm, us[0], 'units ' + nm)
    es = vars_.get('version', ())
    D.note('variable version is defined', 'proved' if es else 'violated', fmt_site(es[0].site) if es else 'write_boozmn', '', 'var version')
    if es:
        ps = [p for p in puts.get(es[0].d['id'], ())]
        x = ps[0].d['puts'][0][2] if ps and len(ps[0].d['puts']) == 1 else None
        want = fn('cat', string('C++/Python booz_xform '), sym('version', 'string'))
        r = 'undecided'
        if type(x) is T:
            r = 'proved' if x is want or repr(x) == repr(want) else 'undecided'
        D.note('contents of version', r, fmt_site(es[0].site), repr(x), 'var version')
    return pack(D, W)


def g_ok(D, c):
    r = set()
    for i in range(len(D.wits)):
        try:
            r.add(bool(D.val(i).ev(c)))
        except (Undecided, UninitRead, OutOfRange, TypeError, ValueError):
            r.add(None)
    return r.pop() if len(r) == 1 else None


# ------------------------------------------------------------------ P08
BOOZ_SC = {'nfp': 'nfp_b', 'mboz': 'mboz_b', 'nboz': 'nboz_b', 'mnboz': 'mnboz_b'}


def read_spec(W, D, get, fields, site='read_boozmn'):
    for nm, sh, spec in fields:
        key = nm
        v = get(nm)
        if not sh:
            if v is not None and type(v) is T and nm == 'asym':
                v = b2i(v)
            D.equal('%s after reading' % nm, v if type(v) is T else None, spec(), (), site, key=key)
            continue
        if type(v) is not Arr or v.rank != len(sh):
            D.note('%s after reading' % nm, 'undecided', site, 'no array', key)
            continue
        free = [(bv('i%d' % k, ZERO, n), n) for k, n in enumerate(sh)]
        for x, hi in free:
            BV.info[x] = (ZERO, hi)
        for k, n in enumerate(sh):
            D.equal('extent %d of %s after reading' % (k, nm), v.shape[k], n, (), where_of(v), key=key + '.extent')
        if not any(n is ZERO for n in sh):
            D.equal('%s after reading' % nm, elem(v.d, [x for x, _ in free]), spec(*[x for x, _ in free]), free, where_of(v), key=key)


def any_file(P, asym, tier, seed):
    """read_boozmn of an arbitrary boozmn file: attribute <- file variable"""
    W = World(P, fix={'verbose': ZERO}, replaced=READ_REPLACES)
    E = W.E
    E.filefix = {'lasym__logical__': ONE if asym else ZERO}
    S = lambda k, kind='int': sym('file.' + k, kind)
    rad, nb, mn = S('dim.radius'), S('dim.comput_surfs'), S('mnboz_b')
    E.filefix['ns_b'] = rad            # ns_b is the length of the radius dimension
    for x, lo in ((rad, 3), (nb, 1), (mn, 1)):
        W.facts.lo[x] = [N.p_const(lo)]
    E.filedefs = {}
    nin = sub(rad, ONE)
    W.inputs = {}
    W.shapes = {}
    tab = {'ixm_b': ('mnboz',), 'ixn_b': ('mnboz',), 'jlist': ('nsurf',), 'iota_b': ('ns',), 'bvco_b': ('ns',), 'buco_b': ('ns',), 'phi_b': ('ns',),
           'phip_b': ('ns',), 'chi_b': ('ns',), 'pres_b': ('ns',), 'beta_b': ('ns',)}
    mats = ['bmnc_b', 'rmnc_b', 'zmns_b', 'pmns_b', 'gmn_b', 'bmns_b', 'rmns_b', 'zmnc_b', 'pmnc_b', 'gmns_b']
    for m in mats:
        tab[m] = ('mnboz', 'nsurf')
    for nm, sh in tab.items():
        if nm == 'jlist':
            d = InputDef('file.jlist', 1, 'int', bounds=lambda i: (num(2), rad))
        else:
            d = InputDef('file.' + nm, len(sh), 'int' if nm[:2] == 'ix' else 'real')
        W.inputs['file.' + nm] = d
        W.shapes['file.' + nm] = sh
        E.filedefs[(nm, len(sh))] = d
    alive = W.call('read_boozmn', [FNAME])
    D = Decider(W, out_wits(asym, tier, seed), prove_s=10 if tier == 'quick' else 60)
    D.extra = no_error({})
    if not alive:
        D.note('read_boozmn returns', 'violated', 'read_boozmn', 'never returns normally', 'returns')
        return pack(D, W)
    # on the normal exit all netCDF calls succeeded (P16); only the optional chi_b may be absent
    i = lambda nm: (lambda *ix: elem(W.inputs['file.' + nm], list(ix)))
    j2 = lambda ix: sub(elem(W.inputs['file.jlist'], [ix]), num(2))
    F = [('asym', (), lambda: ONE if asym else ZERO), ('aspect', (), lambda: S('aspect_b', 'real')), ('ns_in', (), lambda: nin), ('ns_b', (), lambda: nb)]
    F += [(k, (), lambda v=v: S(v)) for k, v in BOOZ_SC.items()]
    F += [('xm_b', (mn,), i('ixm_b')), ('xn_b', (mn,), i('ixn_b')), ('compute_surfs', (nb,), j2)]
    sh = lambda nm: (lambda j: elem(W.inputs['file.' + nm], [add(j, ONE)]))
    F += [('iota', (nin,), sh('iota_b')), ('Boozer_G_all', (nin,), sh('bvco_b')), ('Boozer_I_all', (nin,), sh('buco_b'))]
    F += [('Boozer_G', (nb,), lambda j: elem(W.inputs['file.bvco_b'], [add(j2(j), ONE)])), ('Boozer_I', (nb,), lambda j: elem(W.inputs['file.buco_b'], [add(j2(j), ONE)]))]
    F += [(a, (rad,), i(b)) for a, b in (('phi', 'phi_b'), ('phip', 'phip_b'), ('chi', 'chi_b'), ('pres', 'pres_b'))]
    F += [('toroidal_flux', (), lambda: elem(W.inputs['file.phi_b'], [nin])), ('s_b', (nb,), lambda j: div(add(j2(j), num(Fraction(1, 2))), nin))]
    neg1 = lambda nm: (lambda m, s: neg(elem(W.inputs['file.' + nm], [m, s])))
    F += [('bmnc_b', (mn, nb), i('bmnc_b')), ('rmnc_b', (mn, nb), i('rmnc_b')), ('zmns_b', (mn, nb), i('zmns_b')), ('numns_b', (mn, nb), neg1('pmns_b')),
          ('gmnc_b', (mn, nb), i('gmn_b'))]
    asy = [('bmns_b', i('bmns_b')), ('rmns_b', i('rmns_b')), ('zmnc_b', i('zmnc_b')), ('numnc_b', neg1('pmnc_b')), ('gmns_b', i('gmns_b'))]
    F += [(a, (mn, nb) if asym else (ZERO, ZERO), b) for a, b in asy]
    read_spec(W, D, W.get, F)
    dm = {'mnboz': mn, 'nsurf': nb, 'ns': rad}
    reads(D, W, tab, lambda k: dm[k])
    op = [e for e in W.E.events if e.kind == 'nc' and e.d['f'] == 'nc_open']
    D.note('the named file is opened', 'proved' if op and op[0].d['args'][0] is FNAME else 'undecided', fmt_site(op[0].site) if op else '', '', 'open')
    return pack(D, W)


def second_object(W):
    o = Obj(('obj', CLS, 'that'), CLS)
    for f in W.P.recs[CLS]['fields']:
        n = f['n']
        t = f['t']
        at = arr_type(t)
        if n == 'verbose':
            v = ZERO
        elif at is not None and not base_t(t).startswith('std::vector'):
            rank, ety, fixed, mat, std = at
            sh = tuple(sym('old2.%s.n%d' % (n, i), 'int') for i in range(rank))
            for x in sh:
                W.facts.lo[x] = [N.p_const(0)]
            v = Arr(rank, sh, InputDef('old2.' + n, rank, ety), newgen(), ety, mat, std)
        elif is_int_t(t) or base_t(t) == 'bool':
            v = sym('old2.' + n, 'bool' if base_t(t) == 'bool' else 'int')
        elif is_float_t(t):
            v = sym('old2.' + n, 'real')
        else:
            v = W.E.default_value(t, W.st, n)
        W.st.s[('o', o.oid, n)] = v
    return o


def round_trip(P, asym, flux, tier, seed):
    W, alive = writer_world(P, asym, flux, tie=True)
    E = W.E
    D = Decider(W, out_wits(asym, tier, seed), prove_s=10 if tier == 'quick' else 60)
    D.extra = no_error({})
    if not alive:
        D.note('write_boozmn returns', 'violated', 'write_boozmn', 'never returns normally', 'returns')
        return pack(D, W)
    dims, vars_, puts, atts = by_handle(W)
    E.filedims = {}
    for did, es in dims.items():
        if isinstance(strof(es[0].d['name']), str):
            E.filedims[strof(es[0].d['name'])] = es[0].d['length']
    E.fileimg = {}
    for nm, es in vars_.items():
        es = [e for e in es if occurs(D, e) is not False]
        if not isinstance(nm, str) or not es:
            continue
        e = es[0]
        ps = [p for p in puts.get(e.d['id'], ()) if occurs(D, p) is not False]
        if not ps:
            E.fileimg[nm] = None
            continue
        gl = [dims[x][0].d['length'] if x in dims else None for x in e.d['dims']]
        sel = [(g, q, c, ok) for g, q, c, ok in ps[-1].d['puts'] if False not in [g_ok(D, x) for x in g]]
        if len(sel) != 1 or not sel[0][3]:
            E.fileimg[nm] = None
            continue
        g, q, c, ok = sel[0]
        if not gl:
            if type(c) is T:
                E.fileimg[nm] = c
        elif None not in gl and type(c) is Arr:
            # (mode, surface) in memory is (surface, mode) in the file
            E.fileimg[nm] = (tuple(reversed(gl)), lambda ix, c=c, q=q, gl=gl: flat(c, q, list(reversed(ix)), gl))
        else:
            E.fileimg[nm] = None
    B = second_object(W)
    A = W.obj
    init = dict(W.init)
    W.obj = B
    E.events = []
    alive = W.call('read_boozmn', [FNAME])
    W.obj = A
    if not alive:
        bad = [e for e in E.events if e.kind == 'nc' and e.d['status'].op == 'num']
        D.note('the reader accepts a file written by the writer', 'violated', fmt_site(bad[-1].site) if bad else 'read_boozmn',
               'reading needs %s, which the writer does not write' % (strof(bad[-1].d.get('name')) if bad else '?'), 'accept')
        return pack(D, W)
    D.note('the reader accepts a file written by the writer', 'proved', 'read_boozmn', '', 'accept')
    get = lambda n: W.st.s.get(('o', B.oid, n))
    n1, nin, nb, mn = add(sym('ns_in'), ONE), sym('ns_in'), sym('nsurf'), sym('mnboz')
    i = lambda nm: (lambda *ix: elem(W.inputs[nm], list(ix)))
    F = [('asym', (), lambda: ONE if asym else ZERO)]
    F += [(k, (), lambda k=k: init[k]) for k in ('nfp', 'mboz', 'nboz', 'mnboz', 'ns_b', 'ns_in', 'aspect', 'toroidal_flux')]
    F += [('xm_b', (mn,), i('xm_b')), ('xn_b', (mn,), i('xn_b')), ('compute_surfs', (nb,), i('compute_surfs')), ('s_b', (nb,), i('s_b')),
          ('iota', (nin,), i('iota')), ('Boozer_G_all', (nin,), i('Boozer_G_all')), ('Boozer_I_all', (nin,), i('Boozer_I_all')),
          ('Boozer_G', (nb,), i('Boozer_G')), ('Boozer_I', (nb,), i('Boozer_I'))]
    for nm in OUT_SYM:
        F.append((nm, (mn, nb), i(nm)))
    for nm in OUT_ASYM:
        F.append((nm, (mn, nb) if asym else (ZERO, ZERO), i(nm)))
    for nm in ('phi', 'chi', 'pres'):
        F.append((nm, (n1,), i(nm) if flux else (lambda j: ZERO)))
    F.append(('phip', (n1,), (lambda j: ite(eq(j, ZERO), ZERO, elem(W.inputs['phip'], [j]))) if flux else (lambda j: ZERO)))
    read_spec(W, D, get, F)
    return pack(D, W)


# ------------------------------------------------------------------ P16 / P17 / P18
def op_world(P, op, asym, flux):
    if op == 'write_boozmn':
        W, alive = writer_world(P, asym, flux)
        ws = out_wits
    elif op == 'read_wout':
        W = WoutWorld(P, asym, flux)
        alive = W.go()
        ws = out_wits
    else:
        W = World(P, fix={'verbose': ZERO}, replaced=READ_REPLACES)
        W.E.filefix = {'lasym__logical__': ONE if asym else ZERO}
        for k, lo in (('file.dim.radius', 3), ('file.dim.comput_surfs', 1), ('file.mnboz_b', 1)):
            W.facts.lo[sym(k)] = [N.p_const(lo)]
        W.shapes = {}
        alive = W.call('read_boozmn', [FNAME])
        ws = out_wits
    return W, alive, ws


def instance(V, e):
    """does the event occur under V (loops: in some iteration) -> True/False/None"""
    from .chk_vmec import fired
    return fired(V, [e])


OPTIONAL = {('read_boozmn', 'chi_b')}


def traces(P, op, asym, flux, tier, seed):
    """one abstract trace per single failing netCDF call (and the fault-free one): the recorded events whose path condition holds"""
    W, alive, ws = op_world(P, op, asym, flux)
    D = Decider(W, ws(asym, 'quick', seed)[:2])
    calls = [e for e in W.E.events if e.kind == 'nc']
    exits = [W.st.pc] if alive else []
    sts = []
    for e in calls:
        s = e.d['status']
        if s.op == 'fn' and s not in sts:
            sts.append(s)
    out = []
    w = D.wits[0]
    # library errors are negative, system errors (errno) positive
    for fault, code in [(None, 0)] + [(x, c) for x in sts for c in (-31, 28)]:
        def f(*v, fault=fault):
            return 0
        V = w.valuation(W, extra=no_error({}))
        if fault is not None:
            V.memo = FaultMemo(V.memo, fault.id, code)
        tr = []
        und = False
        for e in W.E.events:
            if e.kind not in ('nc', 'throw', 'catch', 'dangling', 'stale'):
                continue
            r = instance(V, e)
            if r is None:
                und = True
            if r:
                tr.append(e)
        normal = False
        for pc in exits:
            try:
                normal = all(V.ev(c) for c in pc)
            except (Undecided, TypeError, ValueError):
                und = True
            except (OutOfRange, UninitRead):
                und = True
        out.append((fault, tr, normal, und))
    return W, D, calls, out


class FaultMemo(dict):
    def __init__(self, d, fid, code):
        dict.__init__(self, d)
        self[fid] = code


def call_of(calls, fault):
    for e in calls:
        if e.d['status'] is fault:
            return e


def errors(P, op, asym, flux, tier, seed):
    W, D, calls, trs = traces(P, op, asym, flux, tier, seed)
    for fault, tr, normal, und in trs:
        if fault is None:
            D.note('%s without faults returns' % op, 'proved' if normal else 'undecided' if und else 'violated', op, '', 'fault-free')
            continue
        e = call_of(calls, fault)
        nm = strof(e.d.get('name'))
        site = fmt_site(e.site)
        what = '%s%s at %s' % (e.d['f'], '(%s)' % nm if isinstance(nm, str) else '', ':'.join(str(x) for x in e.site[1:2]))
        ctx = fault.a[2].a[0] if len(fault.a) > 2 and fault.a[2].op == 'str' else ''
        key = '%s %s' % (e.d['f'], nm if isinstance(nm, str) else '')
        vn = nm if isinstance(nm, str) else None
        if (op, vn) in OPTIONAL:
            D.note('failure of optional %s' % what, 'agrees' if normal else 'agrees', site, 'optional variable', key)
            continue
        occurs_ = any(x is e or x.d.get('status') is fault for x in tr if x.kind == 'nc')
        if not occurs_:
            # the call is only made after another failure, or not for this configuration
            continue
        if normal and op != 'write_boozmn' and e.d['f'] in ('nc_close', 'nc_abort'):
            D.note('failure of closing the read-only handle', 'agrees', site, 'no data can be lost', key)
            continue
        probe = e.d['f'] in ('nc_inq_dimid', 'nc_inq_varid') and op == 'write_boozmn'
        if normal and not probe:
            D.note('failure of %s is reported' % what, 'undecided' if und else 'violated', site,
                   'when this call fails %s still returns normally (%s)' % (op, ctx), key)
            continue
        if probe and normal:
            D.note('failed lookup %s is recovered' % what, 'agrees', site, 'existence probe', key)
            continue
        th = [x for x in tr if x.kind == 'throw']
        if not th:
            D.note('failure of %s is reported' % what, 'undecided', site, 'no throw on the trace', key)
            continue
        last = th[-1]
        ty = str(last.d.get('ty') or '')
        msg = last.d.get('msg')
        ok = 'runtime_error' in ty or 'exception' in ty or 'error' in ty
        has = mentions(msg, fault) if type(msg) is T else None
        if not ok:
            D.note('failure of %s raises a std exception' % what, 'undecided', fmt_site(last.site), ty, key)
        D.note('failure of %s is reported' % what, 'proved' if not und else 'agrees', site, '', key)
        if has is not None:
            D.note('the report of %s carries the netCDF message' % what, 'proved' if has else 'violated', fmt_site(last.site),
                   'message is %r' % (msg,), key + ' message')
        # no further netCDF traffic except closing the handle
        i = [k for k, x in enumerate(tr) if x.kind == 'nc' and x.d['status'] is fault]
        after = [x for x in tr[i[-1] + 1:] if x.kind == 'nc' and x.d['f'] not in ('nc_close', 'nc_abort')]
        if after and i and not th_before(tr, i[-1], after[0]):
            D.note('%s stops at the failure' % what, 'undecided', fmt_site(after[0].site), '', key)
    return pack(D, W)


def th_before(tr, i, x):
    return False


def mentions(t, sub_):
    seen = set()
    st = [t]
    while st:
        y = st.pop()
        if y is sub_:
            return True
        if type(y) is T:
            if y.id in seen:
                continue
            seen.add(y.id)
            st += [z for z in y.a if type(z) is T]
    return False


USE = ('nc_def', 'nc_put', 'nc_get', 'nc_inq', 'nc_enddef', 'nc_redef', 'nc_sync')


def lifecycle(P, op, asym, flux, tier, seed):
    W, D, calls, trs = traces(P, op, asym, flux, tier, seed)
    for fault, tr, normal, und in trs:
        e = call_of(calls, fault) if fault is not None else None
        if e is not None and not any(x.d.get('status') is fault for x in tr if x.kind == 'nc'):
            continue
        if fault is None:
            what, site = 'no failure', op
        else:
            nm = strof(e.d.get('name'))
            what, site = 'failing %s%s' % (e.d['f'], '(%s)' % nm if isinstance(nm, str) else ''), fmt_site(e.site)
        state = None      # typestate of the handle
        opened = closes = 0
        bad = None
        for x in tr:
            if x.kind != 'nc':
                continue
            f = x.d['f']
            fails = fault is not None and x.d['status'] is fault
            if f in ('nc_open', 'nc_create'):
                if not fails:
                    opened += 1
                    state = 'define' if f == 'nc_create' else 'data'
            elif f in ('nc_close', 'nc_abort'):
                closes += 1
                if state in (None, 'closed') and bad is None:
                    bad = (x, '%s on a handle that is %s' % (f, 'closed' if state else 'not open'))
                state = 'closed'
            elif f.startswith(USE):
                if state in (None, 'closed') and bad is None:
                    bad = (x, '%s on a handle that is %s' % (f, 'closed' if state else 'not open'))
                if (f.startswith('nc_def') or f.startswith('nc_put_att')) and state == 'data' and op == 'write_boozmn' and bad is None:
                    bad = (x, '%s outside define mode' % f)
                if f.startswith('nc_put_var') and state == 'define' and bad is None:
                    bad = (x, '%s in define mode' % f)
                if f == 'nc_enddef' and not fails:
                    state = 'data'
                if f == 'nc_redef' and not fails:
                    state = 'define'
        key = 'handle'
        if bad is not None:
            D.note('handle protocol with %s' % what, 'undecided' if und else 'violated', fmt_site(bad[0].site), '%s (%s; %s)' % (bad[1], op, what), key)
            continue
        if opened != closes:
            D.note('handle closed exactly once with %s' % what, 'undecided' if und else 'violated', site,
                   '%s: %d open, %d close on the path where there is %s' % (op, opened, closes, what), key)
        else:
            D.note('handle closed exactly once with %s' % what, 'agrees' if und else 'proved', site, '%d open, %d close' % (opened, closes), key)
    return pack(D, W)


def lifetime(P, op, asym, flux, tier, seed):
    """P18: the memory handed to the file is alive, unmoved and as large as the variable"""
    W, alive, ws = op_world(P, op, asym, flux)
    D = Decider(W, ws(asym, tier, seed), prove_s=10)
    D.extra = no_error({})
    dims, vars_, puts, atts = by_handle(W)
    vd = {}
    for es in vars_.values():
        for e in es:
            vd[e.d['id']] = e
    bad = [e for e in W.E.events if e.kind in ('dangling', 'stale') and occurs(D, e) is not False]
    for e in bad:
        v = e.d.get('var')
        nm = strof(v.a[2]) if type(v) is T and v.op == 'fn' and len(v.a) > 2 else '?'
        o = occurs(D, e)
        D.note('buffer of %s is live when written' % nm, 'violated' if o else 'undecided', fmt_site(e.site),
               'the storage was %s before the data are written' % ('destroyed' if e.kind == 'dangling' else 'reallocated'), 'live %s' % nm)
    badv = {e.d.get('var') for e in bad}
    n = 0
    for vid, ps in puts.items():
        e = vd.get(vid)
        nm = strof(e.d['name']) if e is not None else '?'
        for p in ps:
            if vid not in badv:
                res = [ok for g, q, c, ok in p.d['puts'] if False not in [g_ok(D, x) for x in g]]
                D.note('buffer of %s is live when written' % nm, 'proved' if res and all(res) else 'undecided', fmt_site(p.site), '', 'live %s' % nm)
            if e is None or p.d['f'] == 'nc_put_var_text' and nm == 'version':
                continue
            size = ONE
            for x in e.d['dims']:
                size = mul(size, dims[x][0].d['length']) if x in dims and size is not None else None
            for g, q, c, ok in p.d['puts']:
                if False in [g_ok(D, x) for x in g] or not ok or size is None:
                    continue
                have = ONE
                if type(c) is Arr:
                    for x in c.shape:
                        have = mul(have, x)
                    if q.lv.idx:
                        have = add(have, neg(position(c, q.lv.idx)))
                elif type(c) is Vec:
                    have = num(len(c.v))
                D.holds('the buffer of %s covers the variable' % nm, le(size, have), (), fmt_site(p.site), key='size %s' % nm)
    return pack(D, W)


def analyse(P, label, args, tier, seed):
    pid, asym, flux, op = args['pid'], args['asym'], args['flux'], args['op']
    if pid == 'P06':
        return wout(P, asym, flux, tier, seed)
    if pid == 'P07':
        return contents(P, asym, flux, tier, seed)
    if pid == 'P08':
        return any_file(P, asym, tier, seed) if op == 'read' else round_trip(P, asym, flux, tier, seed)
    if pid == 'P16':
        return errors(P, op, asym, flux, tier, seed)
    if pid == 'P17':
        return lifecycle(P, op, asym, flux, tier, seed)
    return lifetime(P, op, asym, flux, tier, seed)
