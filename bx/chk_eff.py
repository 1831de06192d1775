"""Effect analyses: dependence of results (P09, P11, P12, P13, P19), races (P10), storage safety (P14)."""
import copy, re
from .decide import *
from .replay import replay, Unclear
from .deps import deps, same_content
from .world import *
from .chk_run import run_world, in_shapes, el, witnesses
from .chk_vmec import VW, wits, METHOD
from .chk_file import WoutWorld, FNAME, writer_world, out_wits, by_handle, strof, no_error, flat, occurs, fmt_table
from .loops import lit_poly
from .select import Sel
from .spec_run import RunSpec
from . import nf as N

OPS = {
    'P09': ('run', 'vmec', 'wout', 'boozmn', 'write'),
    'P10': ('run',),
    'P11': ('run',),
    'P12': ('run', 'vmec', 'wout', 'boozmn', 'write'),
    'P13': ('run', 'write'),
    'P14': ('run', 'vmec', 'wout', 'boozmn', 'write'),
    'P19': ('run', 'vmec', 'wout', 'boozmn', 'write'),
}


def partitions(pid, tier):
    out = []
    for op in OPS[pid]:
        for asym in ((False,) if pid == 'P09' else (False, True)):
            if op == 'run':
                for nb in (0, 1):
                    out.append(('run,asym=%s,nboz%s' % (asym, '=0' if nb == 0 else '>=1'), {'op': op, 'asym': asym, 'nb': nb}))
            elif op in ('boozmn',):
                out.append(('%s,asym=%s' % (op, asym), {'op': op, 'asym': asym, 'flux': True}))
            else:
                for flux in (False, True):
                    out.append(('%s,asym=%s,flux=%s' % (op, asym, flux), {'op': op, 'asym': asym, 'flux': flux}))
    if pid == 'P14':
        out += [('program,argc=%d' % n, {'op': 'driver', 'asym': False, 'argc': n}) for n in (1, 2, 3)]
    # the longest first
    out.sort(key=lambda p: (p[1]['op'] != 'run', not p[1]['asym'], p[0]))
    return out


# names of the data an operation is defined on (anything else in its results is left-over state)
DATA = {'run': set(IN_SHAPES) | set(IN_SCALARS) | {'XN', 'XN_NYQ', 'nsurf', 'pi'}}


def make(P, a, tier, seed):
    op, asym = a['op'], a['asym']
    if op == 'run':
        W, alive = run_world(P, asym, a['nb'], verbose=None)
        ws = witnesses(asym, a['nb'], tier, seed)
    elif op == 'vmec':
        W = VW(P, asym, a['flux'], verbose=None)
        alive = W.go()
        W.shapes = vm_shapes(W, asym, a['flux'])
        ws = wits(asym, a['flux'], tier, seed)
    elif op == 'wout':
        W = WoutWorld(P, asym, a['flux'], verbose=None)
        alive = W.go()
        ws = out_wits(asym, tier, seed)
    elif op == 'boozmn':
        W = World(P, replaced=READ_REPLACES)
        W.E.filefix = {'lasym__logical__': ONE if asym else ZERO}
        for k, lo in (('file.dim.radius', 3), ('file.dim.comput_surfs', 1), ('file.mnboz_b', 1)):
            W.facts.lo[sym(k)] = [N.p_const(lo)]
        W.shapes = {}
        alive = W.call('read_boozmn', [FNAME])
        ws = out_wits(asym, tier, seed)
    else:
        W, alive = writer_world(P, asym, a['flux'], verbose=None)
        ws = out_wits(asym, tier, seed)
    D = Decider(W, ws, prove_s=4 if tier == 'quick' else 30)
    D.nb = a.get('nb')
    for i, w in enumerate(ws):
        w.s.setdefault('$zero', 0)
        w.s['verbose'] = [0, 1, 2][i % 3]
    if op != 'run':
        D.extra = no_error({})
    return W, D, alive


def vm_shapes(W, asym, flux):
    sh = in_shapes(asym)
    for nm, (have, need) in W.dims.items():
        sh['arg.' + nm] = tuple('$zero' if x is ZERO else x.a[0] if x.op == 'sym' else None for x in have)
    return {k: v for k, v in sh.items() if None not in v}


def stats_of(W):
    return {'loops': W.E.stats['loops'], 'loops_closed': W.E.stats['closed'], 'events': len(W.E.events), 'gaps': len(W.E.gaps),
            'functions': sorted({e.site[2] for e in W.E.events})}


# ------------------------------------------------------------------ independence
class Pair:
    """two witnesses that agree on everything except the names accepted by `vary`"""

    def __init__(self, w, change):
        self.a = w
        b = copy.copy(w)
        b.s = dict(w.s)
        b.rng = copy.copy(w.rng)
        change(b)
        self.b = b


def independent(D, name, term, free, bad, change, where='', key=None, guard=None, why='left-over state'):
    """the value of `term` does not depend on the names accepted by bad(name)"""
    W = D.W
    if term is None or not isinstance(term, T):
        return D.note(name, 'undecided', where, 'no value extracted', key)
    for v, hi in free:
        BV.info[v] = (ZERO, hi)
    hit = sorted(n for n in deps(term).names if bad(n))
    if not hit:
        return D.note(name, 'proved', where, '', key)
    try:
        N.DEADLINE[0] = time.time() + D.prove_s
        t2 = N.to_term(N.nf_bool(term) if is_bool(term) else N.nf(term))
        if not [n for n in deps(t2).names if bad(n)]:
            return D.note(name, 'proved', where, '', key)
    except (N.TooBig, RecursionError):
        pass
    finally:
        N.DEADLINE[0] = None
    n, reason = 0, 'depends on ' + ', '.join(hit[:3])
    cov = {}

    def compare(w, V1):
        nonlocal n, reason
        lost = 0
        V1.cov = cov if V1.cov is None else V1.cov
        try:
            pr = Pair(w, change)
            V2 = pr.b.valuation(W, extra=D.extra)
            for env in D.envs(V1, free):
                if guard is not None and not V1.ev(guard, env):
                    continue
                ix = {D.vname(k): v for k, v in env.items()}
                try:
                    x = V1.ev(term, dict(env))
                    y = V2.ev(term, dict(env))
                except UninitRead as e:
                    return D.note(name, 'violated', where, 'depends on an indeterminate value (%s) at %s' % (e, ix), key)
                if not same_value(x, y, unit=w.unit):
                    if D.rounding((pr.a, pr.b), env, (term, term), (x, y)):
                        reason = 'ill-conditioned'
                        lost += 1
                        if lost > 4:
                            raise Undecided('ill-conditioned')
                        continue
                    return D.note(name, 'violated', where, 'depends on %s: %s or %s at %s for %s' % (', '.join(hit[:3]) if why is None else '%s (%s)' % (why, ', '.join(hit[:3])),
                                  fm(x), fm(y), ix, D.brief(w)), key)
                n += 1
        except (Undecided, OutOfRange, TypeError, ValueError, ZeroDivisionError, OverflowError) as e:
            reason = str(e)
        finally:
            V1.cov = None
        return None
    for w in D.wits:
        if compare(w, w.valuation(W, extra=D.extra)):
            return 'violated'
    if n:
        bad, left = D.direct(cov, compare)
        if bad:
            return 'violated'
    return D.note(name, 'agrees' if n else 'undecided', where, '%d pairs' % n if n else reason, key)


def new_old(b):
    b.oldseed = '/other'


def perturb(b, bad):
    """other values for every array and symbol accepted by bad, and for left-over members"""
    new_old(b)
    b.fs = dict(b.s)
    arr = type(b).arr

    def arr2(name, idx):
        v = arr(b, name, idx)
        if not is_left(name) and bad(name):
            return v + 1 if isinstance(v, int) else v + 0.25
        return v
    b.arr = arr2
    for k in list(b.s):
        if bad(k) and isinstance(b.s[k], (int, float)) and not isinstance(b.s[k], bool):
            b.s[k] += 1


def is_left(n):
    return n.startswith(('old.', 'old2.', 'static.', 'global.', 'nondet', 'omp.thread'))


def members(W):
    """(name, initial value, value after the operation) of every data member"""
    for nm, v in W.init.items():
        yield nm, v, W.get(nm)


def member_terms(W, nm, v):
    """scalar terms describing the final value of a member: (label, term, free, guard)"""
    if type(v) is T:
        yield nm, v, [], None
    elif type(v) is Arr:
        for i, s in enumerate(v.shape):
            yield 'extent %d of %s' % (i, nm), s, [], None
        if any(s is ZERO for s in v.shape):
            return
        free = []
        for i, s in enumerate(v.shape):
            free.append((bv('%s_%d' % (nm, i), ZERO, s), s))
        yield 'elements of ' + nm, elem(v.d, [x for x, _ in free]), free, None
    elif type(v) is Vec:
        for i, x in enumerate(v.v):
            if type(x) is T:
                yield '%s[%d]' % (nm, i), x, [], None


def file_terms(W):
    """everything written to a file: (label, term, free, site)"""
    dims, vars_, puts, atts = by_handle(W)
    for nm, es in dims.items():
        for e in es:
            yield 'dimension %s' % strof(e.d['name']), e.d['length'], [], e
    for es in vars_.values():
        for e in es:
            if type(e.d.get('name')) is T:
                yield 'name of variable', e.d['name'], [], e
    vd = {}
    for es in vars_.values():
        for e in es:
            vd[e.d['id']] = e
    for vid, ps in puts.items():
        e = vd.get(vid)
        nm = strof(e.d['name']) if e is not None else '?'
        for p in ps:
            for g, q, c, ok in p.d['puts']:
                if type(c) is T:
                    yield 'contents of %s' % nm, c, [], p
                elif type(c) is Arr and not any(s is ZERO for s in c.shape):
                    free = [(bv('w%d' % i, ZERO, s), s) for i, s in enumerate(c.shape)]
                    yield 'contents of %s' % nm, elem(c.d, [x for x, _ in free]), free, p


def control_terms(W):
    """conditions deciding errors and library traffic"""
    seen = set()
    for e in W.E.events:
        if e.kind in ('throw', 'nc'):
            for c in e.pc:
                if c in seen:
                    continue
                seen.add(c)
                yield e, c


def all_terms(W, op):
    for nm, v0, v1 in members(W):
        if v1 is None:
            continue
        if same_content(v0, v1):
            continue
        for lab, t, free, g in member_terms(W, nm, v1):
            yield nm, lab, t, free, where_of(v1)
    if op == 'write':
        for lab, t, free, e in file_terms(W):
            if type(t) is T:
                yield lab, lab, t, free, fmt_site(e.site)
    for e, c in control_terms(W):
        free = [(l.it, l.n) for l in e.loops if l.n is not None]
        yield 'control', 'condition of %s' % (e.d.get('f') or e.kind), c, free, fmt_site(e.site)


def independence(W, D, op, bad, change, why, skip=()):
    for nm, lab, t, free, where in all_terms(W, op):
        if nm in skip:
            continue
        independent(D, lab, t, free, bad, change, where, key=nm, why=why)


class OldFix(dict):
    def __init__(self, d, extent=None):
        dict.__init__(self, d)
        self.extent = extent

    def __contains__(self, k):
        return dict.__contains__(self, k) or self.extent is not None and EXT.search(k) is not None

    def __missing__(self, k):
        return self.extent


EXT = re.compile(r'\.n\d+$')


def coinciding(W, D):
    """copies of the witnesses in which left-over sizes and scalars happen to equal the new ones"""
    out = []
    for i, w in enumerate(D.wits):
        V = D.val(i)
        fix = {}
        olds = list(members(W))
        for e in W.E.events:
            if e.kind == 'static' and e.d.get('key') in W.st.s:
                v1 = W.st.s[e.d['key']]
                nm = e.d['name']
                v0 = Arr(v1.rank, tuple(sym('static.%s.n%d' % (nm, k)) for k in range(v1.rank)), v1.d, v1.gen, v1.ety) if type(v1) is Arr else \
                    sym('static.' + nm, v1.a[1] if type(v1) is T and v1.op == 'sym' else 'int')
                olds.append((nm, v0, v1))
        for nm, v0, v1 in olds:
            prs = [(v0, v1)] if type(v0) is T and type(v1) is T else list(zip(v0.shape, v1.shape)) if type(v0) is Arr and type(v1) is Arr else []
            for x, y in prs:
                if type(x) is T and x.op == 'sym' and is_left(x.a[0]):
                    try:
                        fix[x.a[0]] = V.ev(y)
                    except (Undecided, UninitRead, OutOfRange, TypeError, ValueError, ZeroDivisionError):
                        pass
        s = w.s
        for ext in ('flip', None, s['ns_in'] + 1, s['ns_in'], s['mnmax']):
            b = copy.copy(w)
            b.tab = dict(w.tab)
            b.flip = ext == 'flip'
            if b.flip:
                ext = None
            b.oldfix = OldFix(fix if ext is None else {}, ext)
            out.append(b)
    return out


# ------------------------------------------------------------------ P12
def history(P, a, tier, seed):
    W, D, alive = make(P, a, tier, seed)
    op = a['op']
    if op == 'run':
        bad = lambda n: is_left(n) or n.startswith(('unk:', 'uninit:', 'opaque:'))
    elif op == 'vmec':
        own = set(IN_SHAPES) | {'ns_in', 'mboz', 'nboz', 'toroidal_flux', 'aspect', 'nsurf'}
        own -= {'xm', 'xn', 'xm_nyq', 'xn_nyq'}
        bad = lambda n: is_left(n) or n in own or n.startswith(('unk:', 'uninit:', 'opaque:'))
    elif op in ('wout', 'boozmn'):
        bad = lambda n: is_left(n) or n in IN_SHAPES or n in ('nsurf', 'XN', 'XN_NYQ') or (n in IN_SCALARS and n != 'verbose') or n.startswith(('unk:', 'uninit:', 'opaque:'))
    else:
        bad = lambda n: is_left(n) or n.startswith(('uninit:', 'unk:', 'opaque:'))

    def change(b):
        perturb(b, bad)
        if b.oldfix:
            # the sizes and scalars coincide, the contents differ
            b.s = dict(b.fs)
            if b.flip:
                b.oldfix = None
    D.wits = D.wits + coinciding(W, D)
    D.vals = [None] * len(D.wits)
    independence(W, D, op, bad, change, 'left-over state')
    for e in W.E.events:
        if e.kind == 'nondet' and occurs_ev(D, e):
            D.note('no nondeterministic input', 'violated', fmt_site(e.site), 'calls %s' % e.d['what'], 'nondet')
    return D, W


# ------------------------------------------------------------------ P13
def preserved(P, a, tier, seed):
    W, D, alive = make(P, a, tier, seed)
    names = list(IN_SCALARS) + list(IN_SHAPES)
    if a['op'] == 'write':
        names += [n for n in W.init if n not in names]
    else:
        names += ['phip', 'chi', 'pres', 'phi', 'verbose']
    for nm in names:
        v0, v1 = W.init.get(nm), W.get(nm)
        if v0 is None:
            continue
        if same_content(v0, v1):
            D.note('%s is unchanged' % nm, 'proved', '', '', nm)
            continue
        if type(v0) is T and type(v1) is T:
            D.equal('%s is unchanged' % nm, v1, v0, (), a['op'], key=nm)
        elif type(v0) is Arr and type(v1) is Arr and v0.rank == v1.rank:
            w = where_of(v1)
            for i in range(v0.rank):
                D.equal('extent %d of %s is unchanged' % (i, nm), v1.shape[i], v0.shape[i], (), w, key=nm)
            free = [(bv('i%d' % i, ZERO, s), s) for i, s in enumerate(v0.shape)]
            ix = [x for x, _ in free]
            D.equal('elements of %s are unchanged' % nm, elem(v1.d, ix), elem(v0.d, ix), free, w, key=nm)
        else:
            D.note('%s is unchanged' % nm, 'undecided', '', 'value not extracted', nm)
    return D, W


# ------------------------------------------------------------------ P19
def verbosity(P, a, tier, seed):
    W, D, alive = make(P, a, tier, seed)
    op = a['op']

    def change(b):
        b.s['verbose'] = 3 if b.s['verbose'] != 3 else 0
    for w in D.wits:
        w.s['verbose'] = 0
    independence(W, D, op, lambda n: n == 'verbose', change, 'the verbosity')
    # silence at verbose = 0 unless an error is reported
    seen = {}
    throws = [e for e in W.E.events if e.kind == 'throw']
    for e in W.E.events:
        if e.kind != 'print' or str(e.d.get('stream')) not in ('std::cout', 'std::cerr', 'std::clog'):
            continue
        s = e.site
        if s in seen and seen[s] == 'violated':
            continue
        c = and_(*[subst_sym(x, 'verbose', ZERO) for x in e.pc])
        if refuted(c):
            r = 'proved'
        else:
            o = occurs_ev(D, e)
            r = 'violated' if o else 'agrees' if o is False else 'undecided'
        if s not in seen or r != 'proved':
            seen[s] = r
    for s, r in seen.items():
        D.note('silent when verbose = 0', r, fmt_site(s), 'prints although verbose is 0' if r == 'violated' else '', 'silence')
    return D, W


def subst_sym(t, name, val):
    memo = {}

    def f(x):
        if type(x) is not T:
            return x
        r = memo.get(x)
        if r is None:
            if x.op == 'sym':
                r = val if x.a[0] == name else x
            elif x.op in ('num', 'bv', 'true', 'false', 'str', 'unk', 'uninit', 'none'):
                r = x
            elif x.op in ('rec', 'elem', 'sum', 'exists', 'first'):
                r = x if name not in deps(x).names else None
                if r is None:
                    try:
                        r = rebuild(x, f, lambda d: d)
                    except Exception:
                        r = x
            else:
                r = rebuild(x, f, lambda d: d)
            memo[x] = r
        return r
    return f(t)


def refuted(c):
    if c is FALSE:
        return True
    try:
        N.DEADLINE[0] = time.time() + 3
        return not N.nf_bool(c)
    except (N.TooBig, RecursionError):
        return False
    finally:
        N.DEADLINE[0] = None


def occurs_ev(D, e):
    """does the event occur for some witness: True / False / None"""
    from .chk_vmec import fired
    und = False
    for w, V in D.more():
        r = fired(V, [e])
        if r:
            return True
        if r is None:
            und = True
    return None if und else False


# ------------------------------------------------------------------ P09
def unread(P, a, tier, seed):
    W, D, alive = make(P, a, tier, seed)
    op = a['op']
    if op in ('run', 'vmec'):
        dead = {n for n in ASYM_IN} if op == 'run' else {'arg.' + n for n in ('rmns0', 'zmnc0', 'lmnc0', 'bmns0', 'bsubumns0', 'bsubvmns0')}
        dead |= {d + '*' for d in dead}
        for e in W.E.events:
            if e.kind != 'acc':
                continue
            k = e.d['key']
            nm = k[2] if k[0] == 'o' else 'arg.' + k[1] if k[0] == 'arg' else None
            d = e.d.get('d')
            isd = nm in dead or (isinstance(d, InputDef) and d.name in dead)
            if not isd:
                continue
            if refuted(and_(*e.pc)):
                continue
            o = occurs_ev(D, e)
            D.note('symmetric input reads %s' % nm, 'violated' if o else 'agrees' if o is False else 'undecided', fmt_site(e.site),
                   'the array is accessed although asym is false' if o else '', 'read ' + str(nm))
        outs = 0
        for nm, lab, t, free, where in all_terms(W, op):
            hit = sorted(n for n in deps(t).names if n in dead)
            outs += 1
            D.note('%s is independent of the asymmetric arrays' % lab, 'undecided' if hit else 'proved', where, ', '.join(hit), nm)
        if op == 'vmec':
            # a symmetric configuration is accepted whatever the sizes of the asymmetric arrays
            WO = VW(P, False, a['flux'], opaque=True, verbose=0)
            WO.go()
            dimd = {'dim.%s.%d' % (n, k) for n in ('rmns0', 'zmnc0', 'lmnc0', 'bmns0', 'bsubumns0', 'bsubvmns0') for k in (0, 1)}
            for e in WO.E.events:
                if e.kind == 'throw':
                    hit = sorted(n for c in e.pc for n in deps(c).names if n in dimd)
                    if not hit:
                        D.note('rejection does not depend on the asymmetric arrays', 'proved', fmt_site(e.site), '', 'reject')
                        continue
                    cond = and_(*e.pc)
                    same = refuted(cond)
                    D.note('rejection does not depend on the asymmetric arrays', 'proved' if same else 'violated', fmt_site(e.site),
                           'a symmetric configuration is rejected because of %s' % ', '.join(hit), 'reject')
    else:
        dead = {'rmns', 'zmnc', 'lmnc', 'bmns', 'bsubumns', 'bsubvmns'} if op == 'wout' else \
               {'bmns_b', 'rmns_b', 'zmnc_b', 'pmnc_b', 'gmns_b', 'gmn_s', 'numnc_b', 'pmns'} - {'pmns'}
        n = 0
        for e in W.E.events:
            if e.kind != 'nc':
                continue
            nm = strof(e.d.get('name'))
            if nm is None or type(nm) is not str:
                continue
            n += 1
            if nm not in dead:
                D.note('%s(%s) is a symmetric quantity' % (e.d['f'], nm), 'proved', fmt_site(e.site), '', nm)
                continue
            if refuted(and_(*e.pc)):
                D.note('%s(%s) is not reached' % (e.d['f'], nm), 'proved', fmt_site(e.site), '', nm)
                continue
            o = occurs_ev(D, e)
            D.note('%s(%s) is not reached' % (e.d['f'], nm), 'violated' if o else 'agrees' if o is False else 'undecided', fmt_site(e.site),
                   'the asymmetric variable is accessed for a symmetric file', nm)
        for e in W.E.events:
            if e.kind == 'acc' and e.d['key'][0] == 'o' and e.d['key'][2] in ('bmns_b', 'rmns_b', 'zmnc_b', 'numnc_b', 'gmns_b') and not refuted(and_(*e.pc)):
                o = occurs_ev(D, e)
                if o:
                    D.note('%s is not accessed' % e.d['key'][2], 'violated', fmt_site(e.site), 'accessed for a symmetric configuration', e.d['key'][2])
    return D, W


# ------------------------------------------------------------------ P11
def per_surface(P, a, tier, seed):
    W, D, alive = make(P, a, tier, seed)
    for w in D.wits:
        w.s['verbose'] = 0
    S = RunSpec(W, a['asym'])
    jm, js = bv('jm', ZERO, S.mnboz), bv('js', ZERO, S.nsurf)
    fjm, fjs = (jm, S.mnboz), (js, S.nsurf)
    col = elem(W.inputs['compute_surfs'], [js])
    one = sym('the_surface')
    outs = list(RunSpec.SYM) + (list(RunSpec.ASYM) if a['asym'] else [])
    todo = [(n, el(W, n, jm, js), [fjm, fjs]) for n in outs] + [(n, el(W, n, js), [fjs]) for n in ('Boozer_G', 'Boozer_I', 's_b')]

    def relist(p):
        def change(b):
            # the surface at position p in another list: the other positions hold other surfaces, one more is appended
            if p >= len(b.surfs):
                raise OutOfRange('position %d' % p)
            k = b.s['ns_in']
            b.surfs = [x if i == p else (x + 1) % k for i, x in enumerate(b.surfs)] + [(b.surfs[-1] + 1) % k]
            b.s['nsurf'] += 1
            b.s['omp.max_threads'] += 3
            b.s['omp.num_threads'] += 3
            b.own = ('compute_surfs',)
        return change
    for nm, t, free in todo:
        where = where_of(W.get(nm))
        if t is None:
            D.note('%s depends only on its own surface' % nm, 'undecided', where, 'no value', nm)
            continue
        for v, hi in free:
            BV.info[v] = (ZERO, hi)
        st, why = column_only(t, js, col, one)
        if st is not True:
            try:
                st, why = column_only(Sel(40)(t), js, col, one)
            except (N.TooBig, RecursionError):
                pass
            finally:
                N.DEADLINE[0] = None
        if st is True:
            D.note('%s depends only on its own surface' % nm, 'proved', where, '', nm)
            continue
        r = None
        for p in (0, 1):
            r = r if r == 'violated' else independent(
                D, '%s is independent of the other requested surfaces' % nm, t, free,
                lambda n: n in ('nsurf', 'compute_surfs', 'omp.max_threads', 'omp.num_threads') or is_left(n), relist(p), where, nm,
                guard=eq(js, num(p)), why='the other requested surfaces')
        # and of the data on other surfaces: every column but that of the surface at position p
        two = {k for k, v in IN_SHAPES.items() if len(v) == 2} | {'iota'}

        def other(p, f):
            def change(b):
                arr = type(b).arr
                if p >= len(b.surfs):
                    raise OutOfRange('position %d' % p)

                def arr2(name, idx):
                    v = arr(b, name, idx)
                    return f(v) if name in two and idx[-1] != b.surfs[p] else v
                b.arr = arr2
            return change
        for p, f in ((0, lambda v: v * 1e20 + 1), (1, lambda v: 0.0), (0, lambda v: -v)):
            r = independent(D, '%s is independent of the data on other surfaces' % nm, t, free, lambda n: True, other(p, f), where, nm,
                            guard=eq(js, num(p)), why='data of other surfaces')
            if r == 'violated':
                break
    return D, W


def column_only(t, js, col, one):
    """t mentions the requested-surface list only as compute_surfs(js), and radial data only in that column"""
    memo = {}

    def f(x):
        if x is col:
            return one
        if type(x) is not T or not (x.fv or x.a):
            return x
        r = memo.get(x)
        if r is None:
            if x.op in ('num', 'sym', 'bv', 'true', 'false', 'str', 'unk', 'uninit', 'none'):
                r = x
            else:
                try:
                    r = rebuild(x, f, lambda d: fdef(d))
                except NotImplementedError:
                    r = x
            memo[x] = r
        return r
    dm = {}

    def fdef(d):
        if d is None:
            return {}
        r = dm.get(d.uid)
        if r is None:
            if isinstance(d, ExprDef):
                r = ExprDef(d.formals, f(d.body), d.sites)
            elif isinstance(d, UpdDef):
                r = UpdDef(fdef(d.prev), d.formals, f(d.cond), f(d.val), d.sites)
            elif isinstance(d, IteDef):
                r = IteDef(f(d.cond), fdef(d.x), fdef(d.y))
            else:
                r = d
            dm[d.uid] = r
        return r
    u = f(t)
    dd = deps(u)
    if 'compute_surfs' in dd.names:
        return False, 'other entries of compute_surfs'
    left = [n for n in dd.names if n in ('nsurf', 'omp.max_threads', 'omp.num_threads') or is_left(n)]
    if left:
        return False, ', '.join(left)
    if js in u.fv:
        return False, 'the position in compute_surfs'
    two = {k for k, v in IN_SHAPES.items() if len(v) == 2} | {'iota', 's_in'}
    for d, ix in dd.uses:
        if d.name in two and ix[-1] is not one:
            return False, 'another column of ' + d.name
    return True, ''


# ------------------------------------------------------------------ P10
def races(P, a, tier, seed):
    W, D, alive = make(P, a, tier, seed)
    D.prove_s = 2
    pars = {}
    for e in W.E.events:
        if e.kind == 'share':
            L = e.d['par']
            pars.setdefault(id(L), (L, {}))[1].setdefault(e.d['key'], []).append(e)
    if not pars:
        D.note('no parallel region', 'proved', 'run', 'the computation is sequential', 'parallel')
    for L, keys in pars.values():
        par = L.par
        for key, es in keys.items():
            nm = keyname(key)
            wr = [e for e in es if e.d['rw'] == 'w']
            if not wr:
                D.note('%s is only read in parallel' % nm, 'proved', fmt_site(L.site), '', nm)
                continue
            if key in par.get('reduction', ()):
                D.note('%s is a reduction' % nm, 'undecided', fmt_site(L.site), 'order of a floating-point reduction', nm)
                continue
            if loop_counter(L, key):
                continue
            if all(e.d['critical'] for e in es):
                D.note('%s is protected' % nm, 'agrees', fmt_site(L.site), 'critical section', nm)
                continue
            for e in wr:
                bad = None
                status = 'proved'
                for o in es:
                    r = disjoint(D, L, e, o)
                    if r == 'proved':
                        continue
                    if r == 'violated':
                        bad = o
                        status = r
                        break
                    if r == 'undecided' or status == 'proved':
                        status = r
                        bad = o
                D.note('writes of %s by different iterations are disjoint from other accesses' % nm, status, fmt_site(e.site),
                       'conflicts with the access at %s' % fmt_site(bad.site) if bad is not None else '', nm)
    # thread count must not enter the results
    independence(W, D, 'run', lambda n: n.startswith('omp.') or n.startswith('nondet'), lambda b: b.s.update({'omp.max_threads': b.s['omp.max_threads'] + 3,
                 'omp.num_threads': b.s['omp.num_threads'] + 5}), 'the number of threads')
    return D, W


def keyname(k):
    if k[0] == 'o':
        return k[2]
    if k[0] == 'g':
        return 'global ' + str(k[1]).split('@')[-1]
    if k[0] == 'static':
        return 'static ' + str(k[1]).split('@')[-1]
    return str(k[-1])


def loop_counter(L, key):
    """the (implicitly private) counter of the work-shared loop"""
    return key in getattr(L, 'ckeys', ())


def disjoint(D, L, w, o):
    """element written by w at one iteration of L differs from the element touched by o at any other"""
    if w.d['idx'] is None or o.d['idx'] is None:
        # whole objects
        if infeasible(w) or infeasible(o):
            return 'proved'
        return whole(D, L, w, o)
    iw, io = w.d['idx'], o.d['idx']
    if len(iw) != len(io):
        return 'undecided'
    for x, y in zip(iw, io):
        if x is L.it and y is L.it:
            return 'proved'
        try:
            N.DEADLINE[0] = time.time() + 2
            px, py = N.nf(x), N.nf(y)
        except (N.TooBig, RecursionError):
            continue
        finally:
            N.DEADLINE[0] = None
        if affine(px, L.it) and N.p_add(px, py, -1) == {}:
            return 'proved'
    if infeasible(w) or infeasible(o):
        return 'proved'
    return collide(D, L, w, o)


def infeasible(e):
    return refuted(and_(*e.pc))


def affine(p, it):
    """p = c*it + r, c a nonzero constant, r free of every loop variable"""
    c = 0
    for m, k in p.items():
        ts = dict(m)
        if it in ts:
            if ts != {it: 1} or not isinstance(k, (int, Fraction)):
                return False
            c = k
        elif any(t.fv for t in ts):
            return False
    return c != 0


def inner(L, e):
    i = [k for k, l in enumerate(e.loops) if l is L]
    return [(l.it, l.n) for l in e.loops[i[0] + 1:]] if i else []


def touched(D, V, L, e, k):
    """elements touched by e in iteration k of L (None: whole object)"""
    out = set()
    free = inner(L, e) + list(e.d.get('ext') or ())
    outer = []
    for l in e.loops:
        if l is L:
            break
        outer.append((l.it, l.n))
    for v, hi in free + outer:
        BV.info[v] = (ZERO, hi)

    def rec(i, fr, env):
        if i == len(fr):
            if all(V.ev(c, env) for c in e.pc):
                out.add(None if e.d['idx'] is None else tuple(int(V.ev(x, env)) for x in e.d['idx']))
            return
        v, hi = fr[i]
        if hi is None:
            raise Undecided('unbounded loop')
        for j in range(int(V.ev(hi, env))):
            env[v] = j
            rec(i + 1, fr, env)
        env.pop(v, None)
    env = {L.it: k}
    rec(0, outer + free, env)
    return out


def collide(D, L, w, o):
    und = False
    n = 0
    for wit, V in D.more():
        # at least two iterations, possibly with a repeated entry in compute_surfs
        try:
            tc = int(V.ev(L.n, {})) if L.n is not None else 2
        except (Undecided, OutOfRange, UninitRead, TypeError, KeyError):
            tc = 2
        try:
            a = [touched(D, V, L, w, k) for k in range(tc)]
            b = [touched(D, V, L, o, k) for k in range(tc)]
        except (Undecided, OutOfRange, UninitRead, TypeError, ValueError, KeyError):
            und = True
            continue
        for p in range(tc):
            for q in range(tc):
                if p != q and (a[p] & b[q] or (None in a[p] and b[q]) or (None in b[q] and a[p])):
                    return 'violated'
        if tc > 1:
            n += 1
    return 'agrees' if n else 'undecided'


def whole(D, L, w, o):
    return collide(D, L, w, o)


# ------------------------------------------------------------------ P14
def loop_facts(loops):
    """linear facts that hold inside the bodies of the loops (each runs at least once)"""
    out = []
    for l in loops:
        if l.n is None:
            continue
        p = N.nf(l.n)
        for _ in range(4):
            iv = N.find_iv(p)
            if iv is None:
                break
            p1, p0 = N.split_iv(p, iv)
            if iv.op != 'ge0':
                break
            q = N.nf(iv.a[0])
            if not p0 or list(p0) == [()] and p0[()] <= 0:
                out.append(q)
                p = p1
            elif not p1 or list(p1) == [()] and p1[()] <= 0:
                out.append(N.p_add(N.p_scale(q, -1), N.p_const(-1 if N.all_int(q) else 0)))
                p = p0
            else:
                break
        top = N.p_add(p, N.p_const(-1))
        out.append(top)
        out.append(N.p_add(top, N.p_atom(l.it), -1))
    return out


def prove_under(pc, cond, limit, loops=()):
    """cond holds whenever all of pc hold (linear facts)"""
    N.DEADLINE[0] = time.time() + limit
    old = N.C
    try:
        if N.nf_bool(cond) == {(): 1}:
            return True
        asm = loop_facts(loops)
        for c in pc:
            try:
                asm += lit_poly(c) or []
            except (N.TooBig, RecursionError):
                raise
            except Exception:
                pass
        if not asm:
            return False
        c2 = N.Ctx(old.facts)
        if hasattr(old, 'subsyms'):
            c2.subsyms = old.subsyms
        c2.assume = old.assume + asm
        N.set_ctx(c2)
        return N.nf_bool(cond) == {(): 1}
    except (N.TooBig, RecursionError):
        return False
    finally:
        N.set_ctx(old)
        N.DEADLINE[0] = None


def conditions(e):
    """(obligation, condition, what) of one memory event"""
    cs = []
    if e.kind == 'acc':
        nm = keyname(e.d['key']) if e.d['key'] else '?'
        for i, (x, s) in enumerate(zip(e.d['idx'], e.d['shape'])):
            cs.append(('subscript %d of %s is >= 0' % (i, nm), le(ZERO, x), nm))
            cs.append(('subscript %d of %s is within its extent' % (i, nm), lt(x, s), nm))
    elif e.kind == 'blk':
        cs.append(('block starts inside', le(ZERO, e.d['lo']), 'block'))
        cs.append(('block ends inside', le(add(e.d['lo'], e.d['cnt']), e.d['size']), 'block'))
    elif e.kind == 'shape':
        cs.append(('operand extents agree', eq(e.d['a'], e.d['b']), 'shape'))
    elif e.kind == 'alloc':
        for s in e.d['shape']:
            cs.append(('allocated extent is >= 0', le(ZERO, s), 'alloc'))
    elif e.kind == 'resize':
        for s in e.d['new']:
            cs.append(('new extent is >= 0', le(ZERO, s), 'alloc'))
    elif e.kind == 'div':
        cs.append(('integer divisor is nonzero', ne(e.d['den'], ZERO), 'div'))
    return cs


def program(P, a, tier, seed):
    """the command-line program: its own subscripts, for every kind of input file"""
    from . import chk_driver
    D0, W = chk_driver.driver(P, {'argc': a['argc']}, tier, seed)
    D = Decider(W, [])
    evs = [e for e in W.E.events if e.kind in ('acc', 'blk', 'shape', 'div', 'dangling', 'stale', 'nullderef')]
    bad, seen, unclear = {}, {}, {}
    for t in chk_driver.cases():
        V = t.valuation(W)
        try:
            for e, env in replay(V, evs):
                for name, c, key in conditions(e) or [('no %s storage is used' % e.kind, FALSE, e.kind)]:
                    k = (e.site, name, key)
                    try:
                        ok = V.ev(c, env)
                    except (Undecided, UninitRead, OutOfRange, TypeError, ValueError, KeyError) as x:
                        unclear[k] = str(x)
                        continue
                    seen[k] = seen.get(k, 0) + 1
                    if not ok:
                        bad.setdefault(k, t)
        except (Undecided, Unclear, UninitRead, OutOfRange, TypeError, ValueError, KeyError, AttributeError) as x:
            D.note('memory accesses for input %s' % (t.words,), 'undecided', 'driver', str(x), 'driver')
    for k in sorted(set(seen) | set(unclear), key=repr):
        site, name, key = k
        st = 'violated' if k in bad else 'undecided' if k in unclear else 'agrees'
        D.note(name, st, fmt_site(site), 'fails for the input file %s' % (bad[k].words,) if k in bad else unclear.get(k, ''), key)
    if not evs:
        D.note('no array access', 'proved', 'driver', '', 'driver')
    return D, W


def storage(P, a, tier, seed):
    if a['op'] == 'driver':
        return program(P, a, tier, seed)
    W, D, alive = make(P, a, tier, seed)
    lim = 2 if tier == 'quick' else 15
    obl = []
    seen = set()
    for e in W.E.events:
        cs = conditions(e)
        if e.kind in ('dangling', 'stale', 'nullderef'):
            if e.d.get('f'):
                continue        # deferred buffers: P18
            if refuted(and_(*e.pc)):
                continue
            o = occurs_ev(D, e)
            D.note('no %s storage is used' % e.kind, 'violated' if o else 'undecided', fmt_site(e.site), keyname(e.d['key']) if e.d.get('key') else '', e.kind)
            continue
        for name, c, key in cs:
            k = (e.site, name, c, e.pc)
            if k in seen:
                continue
            seen.add(k)
            obl.append((e, name, c, key))
    budget = time.time() + (420 if tier == 'quick' else 2400)
    for e, name, c, key in obl:
        free = [(l.it, l.n) for l in e.loops if l.n is not None]
        for v, hi in free:
            BV.info[v] = (ZERO, hi)
        if time.time() < budget and (prove_under(e.pc, c, lim) or e.loops and prove_under(e.pc, c, lim, e.loops)):
            D.note(name, 'proved', fmt_site(e.site), '', key)
            continue
        if refuted(and_(*e.pc)):
            D.note(name, 'proved', fmt_site(e.site), 'unreachable', key)
            continue
        test(D, e, name, c, free, key)
    return D, W


def test(D, e, name, c, free, key):
    n, why = 0, 'no witness reaches it'
    open_ = [l for l in e.loops if l.n is None]
    for w, V in D.more():
        try:
            for env in D.envs(V, free):
                try:
                    if not all(V.ev(p, env) for p in e.pc):
                        continue
                    if not V.ev(c, env):
                        ix = {D.vname(k): v for k, v in env.items()}
                        D.note(name, 'violated', fmt_site(e.site), 'fails at %s for %s' % (ix, D.brief(w)), key)
                        return
                except UninitRead as x:
                    D.note(name, 'violated', fmt_site(e.site), 'depends on an indeterminate value (%s)' % x, key)
                    return
                except OutOfRange as x:
                    # an earlier access is at fault; it is reported there
                    why = str(x)
                    continue
                n += 1
        except (Undecided, OutOfRange, UninitRead, TypeError, ValueError, ZeroDivisionError) as x:
            why = str(x)
    D.note(name, 'agrees' if n and not open_ else 'undecided', fmt_site(e.site), '%d identity tests' % n if n else why, key)


RULES = {'P09': unread, 'P10': races, 'P11': per_surface, 'P12': history, 'P13': preserved, 'P14': storage, 'P19': verbosity}


def analyse(P, label, args, tier, seed):
    D, W = RULES[args['pid']](P, args, tier, seed)
    return {'obs': [o.tup() for o in D.obs], 'stats': stats_of(W)}
