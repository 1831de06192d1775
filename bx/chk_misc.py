"""Constructor state (P28), OpenMP on/off (P27), accuracy report (P26)."""
import copy
from .decide import *
from .world import *
from .chk_run import run_world, in_shapes, witnesses
from .chk_eff import member_terms, members, all_terms, make, stats_of
from .spec_run import RunSpec
from .iso import Iso
from .replay import replay, Unclear
from . import nf as N
from . import frontend


def load(pid):
    P = frontend.load()
    if pid == 'P27':
        P.serial = frontend.load(openmp=False)
    return P


def partitions(pid, tier):
    if pid == 'P28':
        return [('constructor', {})]
    if pid == 'P26':
        return [('asym=%s,nboz%s' % (a, '=0' if nb == 0 else '>=1'), {'asym': a, 'nb': nb}) for a in (True, False) for nb in (0, 1)]
    out = [('omp_max_threads', {'op': 'fn'})]
    for asym in (True, False):
        for nb in (0, 1):
            out.append(('run,asym=%s,nboz%s' % (asym, '=0' if nb == 0 else '>=1'), {'op': 'run', 'asym': asym, 'nb': nb}))
        for op in ('wout', 'write', 'boozmn'):
            out.append(('%s,asym=%s' % (op, asym), {'op': op, 'asym': asym, 'flux': True}))
    return out


# ------------------------------------------------------------------ P28
INITIAL = {'verbose': 1, 'asym': 0, 'nfp': 0, 'mpol': 0, 'ntor': 0, 'mnmax': 0, 'mpol_nyq': 0, 'ntor_nyq': 0, 'mnmax_nyq': 0, 'ns_in': 0,
           'mboz': 16, 'nboz': 16, 'aspect': 0, 'toroidal_flux': 0, 'ns_b': 0, 'mnboz': 0}


def constructor(P, a, tier, seed):
    W = World(P)
    E = W.E
    ctors = [f for f in P.by_name.get(CLS + '::Booz_xform', []) if f.get('ctor') and not f['params']]
    D = Decider(W, [])
    E.frames.append(Frame({'qn': '<caller>', 'params': []}, None, '<caller>'))
    try:
        o = E.e_CXXConstructExpr({'l': 0, 'k': 'CXXConstructExpr', 't': CLS, 'cls': CLS, 'a': [], 'fu': ctors[0]['u'] if ctors else None}, W.st)
    finally:
        E.frames.pop()
    oid = o.oid
    where = '%s:%s (Booz_xform)' % (ctors[0]['file'], ctors[0]['l']) if ctors else 'booz_xform.hpp'
    i = where.find('src/_booz')
    where = where[max(i, 0):]
    for f in P.recs[CLS]['fields']:
        nm = f['n']
        v = W.st.s.get(('o', oid, nm))
        if f.get('access') not in (None, 'public') and nm not in INITIAL:
            continue
        if type(v) is T:
            if deps_uninit(v):
                D.note('%s is initialised' % nm, 'violated', where, '%s is indeterminate in a new object' % nm, nm)
            elif nm in INITIAL:
                w = TRUE if v is TRUE else FALSE if v is FALSE else v
                want = (TRUE if INITIAL[nm] else FALSE) if is_bool(v) else num(INITIAL[nm])
                D.note('%s = %s' % (nm, INITIAL[nm]), 'proved' if w is want else 'violated' if w.op in ('num', 'true', 'false') or isnum(w) else 'undecided', where,
                       'a new object has %s = %s' % (nm, show(w)), nm)
            else:
                D.note('%s is initialised' % nm, 'proved', where, '', nm)
        elif type(v) is Arr:
            ok = all(s is ZERO for s in v.shape)
            D.note('%s is empty' % nm, 'proved' if ok else 'violated' if all(isnum(s) for s in v.shape) else 'undecided', where, 'a new object has a non-empty %s' % nm, nm)
    return D, W


def deps_uninit(v):
    from .deps import deps
    return any(n.startswith('uninit:') for n in deps(v).names)


# ------------------------------------------------------------------ P27
def threads(P, a, tier, seed):
    obs = []
    for nm, Q in (('with OpenMP', P), ('without OpenMP', P.serial)):
        W = World(Q)
        D = Decider(W, [])
        f = Q.fn('booz_xform::omp_max_threads')
        if f is None:
            raise frontend.AnalysisBroken('omp_max_threads not found')
        W.E.frames.append(Frame({'qn': '<caller>', 'params': []}, None, '<caller>'))
        try:
            v = W.E.call_fn(f, [], W.st, {'l': 0})
        except Dead:
            v = None
        finally:
            W.E.frames.pop()
        want = sym('omp.max_threads', 'int') if nm == 'with OpenMP' else ONE
        where = '%s:%s (omp_max_threads)' % (f['file'][f['file'].find('src/_booz'):], f['l'])
        D.wits = witnesses(False, 1, tier, seed)
        D.vals = [None] * len(D.wits)
        D.equal('value ' + nm, v if type(v) is T else None, want, (), where, key='omp_max_threads')
        obs += D.obs
    D.obs = obs
    return D, W


def builds(P, a, tier, seed):
    """the same operation, analysed in the two builds, leaves the same results"""
    op = a['op']
    W1, D1, alive1 = make(P, a, tier, seed)
    t1 = list(all_terms(W1, op))
    f1 = W1.facts
    W2, D2, alive2 = make(P.serial, a, tier, seed)
    t2 = list(all_terms(W2, op))
    D = D2
    D.note('returns in both builds', 'proved' if alive1 == alive2 else 'violated', '', 'the operation returns in only one of the builds', 'alive')
    if op == 'run':
        b = {(nm, lab): (t, free, wh) for nm, lab, t, free, wh in t2 if nm != 'control'}
        c1 = [x for x in t1 if x[0] == 'control']
        c2 = [x for x in t2 if x[0] == 'control']
    else:
        b, c1, c2 = {}, [], []
    iso = Iso()
    if op == 'run':
        mine = {(nm, lab): (t, free, wh) for nm, lab, t, free, wh in t1 if nm != 'control'}
        for k in sorted(set(mine) | set(b)):
            x, y = mine.get(k), b.get(k)
            if x is None or y is None:
                # one build leaves the member untouched
                z = x or y
                W = W1 if x is None else W2
                v = W.get(k[0])
                alt = [(t, fr) for lab, t, fr, g in member_terms(W, k[0], v) if lab == k[1]] if v is not None else []
                if not alt:
                    D.note(k[1], 'violated', z[2], 'set in only one of the builds', k[0])
                    continue
                if x is None:
                    x = (alt[0][0], alt[0][1], z[2])
                else:
                    y = (alt[0][0], alt[0][1], z[2])
            cross(D, W1, W2, k[0], k[1], x, y, iso)
    else:
        n = min(len(t1), len(t2))
        D.note('number of results', 'proved' if len(t1) == len(t2) else 'violated', '', '%d and %d results in the two builds' % (len(t1), len(t2)), 'count')
        for (nm, lab, t, fr, wh), (nm2, lab2, u, fr2, wh2) in zip(t1, t2):
            if lab != lab2:
                D.note(lab, 'violated', wh, 'the builds differ', nm)
                break
            cross(D, W1, W2, nm, lab, (t, fr, wh), (u, fr2, wh2), iso)
    return D, W2


def cross(D, W1, W2, nm, lab, x, y, iso):
    t, fr, wh = x
    u, fr2, wh2 = y
    for (p, _), (q, _) in zip(fr, fr2):
        iso.map[p] = q
    if len(fr) == len(fr2) and Iso.same(iso, t, u):
        return D.note(lab, 'proved', wh, '', nm)
    n, why = 0, 'no witness'
    for i, w in enumerate(D.wits):
        V1, V2 = w.valuation(W1, extra=D.extra), w.valuation(W2, extra=D.extra)
        for p in (fr, fr2):
            for v, hi in p:
                BV.info[v] = (ZERO, hi)
        try:
            for env in D.envs(V1, fr):
                e2 = {q: env[p] for (p, _), (q, _) in zip(fr, fr2)}
                try:
                    a = V1.ev(t, dict(env))
                    b = V2.ev(u, dict(e2))
                except (OutOfRange, UninitRead) as e:
                    why = str(e)
                    continue
                if not same_value(a, b, 1e-6):
                    ix = {D.vname(k): v for k, v in env.items()}
                    return D.note(lab, 'violated', wh2 or wh, 'value %s with OpenMP but %s without at %s for %s' % (fm(a), fm(b), ix, D.brief(w)), nm)
                n += 1
        except (Undecided, TypeError, ValueError, ZeroDivisionError, OutOfRange, UninitRead) as e:
            why = str(e)
    return D.note(lab, 'agrees' if n else 'undecided', wh, '%d pairs' % n if n else why, nm)


# ------------------------------------------------------------------ P26
def items(V, x, env):
    """the values printed by one insertion, in order (numbers; text is dropped)"""
    if type(x) is T:
        if x.op == 'fn' and x.a[0] in ('fmt', 'fmtw') or x.op == 'cat':
            for y in x.a:
                if type(y) is T and not (x.op == 'fn' and x.a[0] == 'fmtw' and y is not x.a[1]):
                    yield from items(V, y, env)
            return
        if x.op == 'str' or getattr(x, 'kind', None) == 'string':
            return
        if x.op == 'ite' and getattr(x, 'kind', None) == 'string':
            return
        yield x
    return


def report(P, a, tier, seed):
    asym = a['asym']
    W, alive = run_world(P, asym, a['nb'], verbose=1)
    D = Decider(W, witnesses(asym, a['nb'], tier, seed))
    S = RunSpec(W, asym)
    E = W.E
    ps = [e for e in E.events if e.kind == 'print' and any(l.par for l in e.loops)]
    if not ps:
        D.note('a report is printed', 'violated', 'run', 'nothing is printed for the surfaces at verbose = 1', 'report')
        return D, W
    where = fmt_site(ps[0].site)
    L = [l for l in ps[0].loops if l.par][0]
    js = bv('js', ZERO, S.nsurf)
    pts = points(S, js, asym)
    bad = None
    n = 0
    why = 'no witness'
    D.nb = a['nb']
    for w, V in D.more():
        inside = [e for e in ps if L in e.loops]
        k0 = list(inside[0].loops).index(L)
        try:
            ns = int(V.ev(L.n))
            for it in range(ns):
                out = []
                BV.info[L.it] = (ZERO, L.n)
                for e, env in replay(V, [strip(e, k0 + 1) for e in inside], {L.it: it}):
                    for x in items(V, e.d.get('val'), env):
                        v = V.ev(x, dict(env))
                        if isinstance(v, (int, float, Fraction)) and not isinstance(v, bool):
                            out.append((float(v), x, e))
                want = expected(V, S, pts, js, it)
                got = [v for v, _, _ in out]
                r = match(got, want, it, V, S)
                if r is not None:
                    bad = (r, it, w)
                    break
                n += 1
        except (Undecided, Unclear, TypeError, ValueError, ZeroDivisionError, UninitRead, OutOfRange) as ex:
            why = '%s: %s' % (type(ex).__name__, ex)
        if bad:
            break
    if bad:
        D.note('accuracy report', 'violated', where, '%s at surface %d for %s' % (bad[0], bad[1], D.brief(bad[2])), 'report')
    else:
        D.note('accuracy report', 'agrees' if n else 'undecided', where, '%d reports' % n if n else why, 'report')
    for s in sorted({e.site for e in ps}):
        es = [e for e in ps if e.site == s]
        D.note('lines are not interleaved', 'proved' if all(e.d.get('critical') for e in es) else 'violated', fmt_site(s),
               'prints inside the parallel loop without mutual exclusion', 'interleaved')
    return D, W


def strip(e, k):
    return Event(e.kind, e.site, e.pc, tuple(e.loops)[k:], e.d, e.seq)


def points(S, js, asym):
    """|B| of the input and of the transform at theta = 0, pi and zeta = 0, pi/nfp"""
    out = []
    half = idiv(S.ntheta, TWO_)
    for j in (ZERO, mul(half, S.nzeta), idiv(S.nzeta, TWO_), add(mul(half, S.nzeta), idiv(S.nzeta, TWO_))):
        F = S.fields(j, js)
        k = bv('k', ZERO, S.mnboz)
        m, n = elem(S.W.get('xm_b').d, [k]), elem(S.W.get('xn_b').d, [k])
        ang = sub(mul(m, F['thB']), mul(n, F['zeB']))
        t = mul(elem(S.W.get('bmnc_b').d, [k, js]), fn('cos', ang))
        if asym:
            t = add(t, mul(elem(S.W.get('bmns_b').d, [k, js]), fn('sin', ang)))
        out.append((F['B'], sum_(k, ZERO, S.mnboz, t)))
    return out


TWO_ = num(2)


def expected(V, S, pts, js, it):
    res = []
    for b, r in pts:
        x, y = float(V.ev(b, {js: it})), float(V.ev(r, {js: it}))
        res.append((x, y, abs(y - x) / max(x, y)))
    return res


def close(a, b):
    return abs(a - b) <= 1e-6 * max(abs(a), abs(b), 1e-6)


def match(got, want, it, V, S):
    """every point's (input, Boozer, error) triple must appear, in order; the surface index precedes them"""
    flat = [x for p in want for x in p]
    g = [x for x in got]
    if len(g) < len(flat):
        return 'only %d numbers are reported' % len(g)
    head, body = [], []
    # leading integers identify thread and surface
    k = len(g) - len(flat)
    body = g[k:]
    for p, (u, v) in enumerate(zip(body, flat)):
        if not close(u, v):
            nm = ('|B| of the input', '|B| of the transform', 'error')[p % 3]
            pt = ('theta=0 zeta=0', 'theta=pi zeta=0', 'theta=0 zeta=pi/nfp', 'theta=pi zeta=pi/nfp')[p // 3]
            return '%s at %s is reported as %.9g, required %.9g' % (nm, pt, u, v)
    surf = V.ev(S.surf(num(it)))
    head = g[:k]
    if (float(it), float(surf)) not in list(zip(head, head[1:])):
        return 'the line does not name the output index and the surface (%s, %s): %s' % (it, surf, head)
    return None


def analyse(P, label, args, tier, seed):
    pid = args['pid']
    if pid == 'P28':
        D, W = constructor(P, args, tier, seed)
    elif pid == 'P27':
        D, W = threads(P, args, tier, seed) if args['op'] == 'fn' else builds(P, args, tier, seed)
    else:
        D, W = report(P, args, tier, seed)
    return {'obs': [o.tup() for o in D.obs], 'stats': stats_of(W)}
