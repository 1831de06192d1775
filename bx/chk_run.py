"""Checks over Booz_xform::run(): values, shapes and history independence."""
from .decide import *
from .world import *
from .spec_run import RunSpec
from .witness import Witness
from . import nf as N


def partitions(pid, tier):
    out = []
    for asym in (False, True):
        for nb in (0, 1):
            out.append(('asym=%s,nboz%s' % (asym, '=0' if nb == 0 else '>=1'), {'asym': asym, 'nb': nb}))
    return out


def run_world(P, asym, nb, verbose=None, **kw):
    fix = {}
    if verbose is not None:
        fix['verbose'] = num(verbose)
    if nb == 0:
        fix['nboz'] = ZERO
    W = World(P, asym=asym, fix=fix, **kw)
    if nb:
        W.facts.lo[sym('nboz')] = [N.p_const(1)]
    alive = W.call('run')
    W.shapes = in_shapes(asym)
    return W, alive


def in_shapes(asym):
    sh = {}
    for k, v in IN_SHAPES.items():
        if k in ASYM_IN and not asym:
            v = tuple('$zero' for _ in v)
        sh[k] = v
    return sh


def witnesses(asym, nb, tier, seed, n=None):
    out = []
    for i in range(n or (3 if tier == 'quick' else 12)):
        w = Witness(seed * 1000 + i, asym=asym, mboz=[2, 1, 3][i % 3], nboz=0 if nb == 0 else [1, 2, 1][i % 3], variant=i)
        w.s['$zero'] = 0
        out.append(w)
    return out


def el(W, name, *idx):
    a = W.get(name)
    if type(a) is Arr and a.rank == len(idx):
        return elem(a.d, list(idx))
    return None


SCAL = {'P04'}


def analyse(P, label, args, tier, seed):
    pid, asym, nb = args['pid'], args['asym'], args['nb']
    W, alive = run_world(P, asym, nb, verbose=0)
    D = Decider(W, witnesses(asym, nb, tier, seed), prove_s=6 if tier == 'quick' else 60)
    D.nb = nb
    if pid == 'P04':
        D.big = [('large', dict(mboz=140, nboz=1 if nb else 0))]
    elif pid in ('P01', 'P02', 'P03'):
        D.big = [('many n', dict(mboz=1, nboz=34, mpol=2, ntor=1, mpol_nyq=2, ntor_nyq=1, surfs=[1])) if nb else
                 ('many m', dict(mboz=34, nboz=0, mpol=3, ntor=1, mpol_nyq=3, ntor_nyq=1, surfs=[1]))]
    S = RunSpec(W, asym)
    jm, js, ji = bv('jm', ZERO, S.mnboz), bv('js', ZERO, S.nsurf), bv('ji', ZERO, S.ns_in)
    fjm, fjs, fji = (jm, S.mnboz), (js, S.nsurf), (ji, S.ns_in)
    stats = {'loops': W.E.stats['loops'], 'loops_closed': W.E.stats['closed'], 'events': len(W.E.events), 'gaps': len(W.E.gaps),
             'functions': sorted({e.site[2] for e in W.E.events})}
    if not alive:
        D.note('run() returns', 'violated', 'run', 'run() never returns normally for valid inputs')
        return {'obs': [o.tup() for o in D.obs], 'stats': stats}
    outs = {'P01': ('bmnc_b', 'rmnc_b', 'zmns_b', 'bmns_b', 'rmns_b', 'zmnc_b'),
            'P02': ('numns_b', 'numnc_b'), 'P03': ('gmnc_b', 'gmns_b')}.get(pid, ())
    for nm in outs:
        if nm in S.ASYM and not asym:
            continue
        xm, xn = el(W, 'xm_b', jm), el(W, 'xn_b', jm)
        if xm is None or xn is None:
            D.note(nm, 'undecided', '', 'mode list not extracted')
            continue
        D.equal('%s(mode, surface)' % nm, el(W, nm, jm, js), S.coefficient(nm, xm, xn, js), [fjm, fjs], where_of(W.get(nm)), key=nm)
    if pid == 'P03':
        D.equal('Boozer_G(surface)', el(W, 'Boozer_G', js), S.G(js), [fjs], where_of(W.get('Boozer_G')), key='Boozer_G')
        D.equal('Boozer_I(surface)', el(W, 'Boozer_I', js), S.I(js), [fjs], where_of(W.get('Boozer_I')), key='Boozer_I')
        D.equal('Boozer_G_all(j)', el(W, 'Boozer_G_all', ji), S.i('bsubvmnc', ZERO, ji), [fji], where_of(W.get('Boozer_G_all')), key='Boozer_G_all')
        D.equal('Boozer_I_all(j)', el(W, 'Boozer_I_all', ji), S.i('bsubumnc', ZERO, ji), [fji], where_of(W.get('Boozer_I_all')), key='Boozer_I_all')
        D.equal('s_b(surface)', el(W, 's_b', js), S.i('s_in', S.surf(js)), [fjs], where_of(W.get('s_b')), key='s_b')
    if pid == 'P04':
        m, n = S.mode(jm)
        D.equal('mnboz', W.get('mnboz'), S.mnboz, (), 'init', key='mnboz')
        D.equal('xm_b(j)', el(W, 'xm_b', jm), m, [fjm], where_of(W.get('xm_b')), key='xm_b')
        D.equal('xn_b(j)', el(W, 'xn_b', jm), n, [fjm], where_of(W.get('xn_b')), key='xn_b')
    if pid == 'P29':
        want = {'xm_b': (S.mnboz,), 'xn_b': (S.mnboz,), 's_b': (S.nsurf,), 'Boozer_G': (S.nsurf,), 'Boozer_I': (S.nsurf,),
                'Boozer_G_all': (S.ns_in,), 'Boozer_I_all': (S.ns_in,)}
        for nm in S.SYM:
            want[nm] = (S.mnboz, S.nsurf)
        for nm in S.ASYM:
            want[nm] = (S.mnboz, S.nsurf) if asym else (ZERO, ZERO)
        for nm, sh in want.items():
            a = W.get(nm)
            if type(a) is not Arr or a.rank != len(sh):
                D.note('extent of ' + nm, 'undecided', '', 'no array')
                continue
            for i, s in enumerate(sh):
                D.equal('extent %d of %s' % (i, nm), a.shape[i], s, (), where_of(a), key='%s.extent' % nm)
        D.equal('ns_b', W.get('ns_b'), S.nsurf, (), 'init', key='ns_b')
        D.equal('mnboz', W.get('mnboz'), S.mnboz, (), 'init', key='mnboz')
    return {'obs': [o.tup() for o in D.obs], 'stats': stats}
