"""P20: the command-line driver performs the documented sequence of operations."""
from .decide import *
from .world import *
from .chk_eff import stats_of
from .ev import Exit, fn_bool
from .deps import same_content
from .replay import replay, Unclear
from . import nf as N
from . import frontend

OPSN = ('read_wout', 'run', 'write_boozmn')
HAVOC_OUT = ('ns_b', 's_b', 'mnboz', 'xm_b', 'xn_b', 'bmnc_b', 'bmns_b', 'gmnc_b', 'gmns_b', 'rmnc_b', 'rmns_b', 'zmnc_b', 'zmns_b', 'numnc_b', 'numns_b',
             'Boozer_G', 'Boozer_I', 'Boozer_G_all', 'Boozer_I_all')


def partitions(pid, tier):
    return [('argc=2', {'argc': 2}), ('argc=1', {'argc': 1}), ('argc=3', {'argc': 3})]


def stub(nm, W, calls):
    def f(E, fn_, args, st, n, this):
        vals = [E.rv(a, st) if isinstance(a, dict) else a for a in args if not (isinstance(a, dict) and a.get('k') == 'CXXDefaultArgExpr')]
        oid = this.oid if this is not None else None
        snap = {k[2]: v for k, v in st.s.items() if k[0] == 'o' and k[1] == oid}
        E.emit('op', n, st, op=nm, vals=vals, snap=snap, oid=oid)
        c = fn_bool('opfail', string(nm))
        s2 = st.fork(c)
        E.sink.append(Exit('throw', string('failure'), s2, 'std::runtime_error', E.site(n)))
        st.pc = st.pc + (not_(c),)
        # the operation may set any member
        for fl in E.P.recs[CLS]['fields']:
            m, t = fl['n'], fl['t']
            if nm == 'write_boozmn' or m == 'verbose' or nm == 'run' and m not in HAVOC_OUT and fl.get('access') in (None, 'public'):
                continue
            at = arr_type(t)
            tag = 'old2.%s.%s' % (nm, m)
            if at is not None and not base_t(t).startswith('std::vector'):
                rank, ety, fixed, mat, std = at
                sh = tuple(sym(tag + '.n%d' % i, 'int') for i in range(rank))
                for x in sh:
                    W.facts.lo[x] = [N.p_const(0)]
                v = Arr(rank, sh, InputDef(tag, rank, ety), newgen(), ety, mat, std)
            elif is_int_t(t) or base_t(t) == 'bool':
                v = sym(tag, 'bool' if base_t(t) == 'bool' else 'int')
            elif is_float_t(t):
                v = sym(tag, 'real')
            else:
                continue
            st.s[('o', oid, m)] = v
        return NONE
    return f


class Tokens:
    """one invocation: the words of the input file"""

    def __init__(self, words, openfail=False, opfail=None, seed=1, wm=5, wn=3, wsurf=(0, 1, 2)):
        self.words, self.openfail, self.opfail = words, openfail, opfail
        self.seed, self.wm, self.wn, self.wsurf = seed, wm, wn, wsurf

    def isint(self, p):
        p = int(p)
        return p < len(self.words) and isinstance(self.words[p], int)

    def text(self, p):
        return str(self.words[int(p)]) if 0 <= int(p) < len(self.words) else ''

    def valuation(self, W):
        sy = _Sy(self)
        sy.update({'fn:openfail': lambda *v: self.openfail, 'fn:isint': lambda p: self.isint(p), 'fn:istok': lambda p: int(p) < len(self.words),
                   'fn:isnum': lambda p: self.isint(p), 'fn:tokint': lambda p: self.words[int(p)] if self.isint(p) else 0,
                   'fn:tokstr': lambda p: self.text(p), 'fn:toknum': lambda p: self.words[int(p)] if self.isint(p) else 0,
                   'fn:eof': lambda p: int(p) >= len(self.words),
                   'fn:opfail': lambda s: s == self.opfail, 'argv1': 'input.txt', 'version': 'v',
                   'fn:fmt': lambda *v: str(v[0]) if not isinstance(v[0], float) else '%g' % v[0], 'omp.max_threads': 2})
        return WVal(sy, {}, 2000000, self)

    def _f(self, nm, shape):
        return lambda idx: self.arr(nm, tuple(int(i) for i in idx))

    def arr(self, nm, idx):
        if nm.endswith('.compute_surfs'):
            if not 0 <= idx[0] < len(self.wsurf):
                raise OutOfRange(nm)
            return self.wsurf[idx[0]]
        return random.Random('%s%s%s' % (self.seed, nm, idx)).randrange(1, 9)

    # ---- documented behaviour
    def required(self):
        """(exit kind, [(operation, file name, mboz, nboz, surfaces)])"""
        w = self.words
        if self.openfail or not self.isint(0) or not self.isint(1) or len(w) < 3:
            return 'error', []
        ext = str(w[2])
        surf = []
        for x in w[3:]:
            if not isinstance(x, int):
                break
            surf.append(x)
        m, n = max(self.wm, w[0]), max(self.wn, w[1])
        s = sorted(surf) if surf else list(self.wsurf)
        ops = [('read_wout', 'wout_%s.nc' % ext, None), ('run', None, (m, n, s)), ('write_boozmn', 'boozmn_%s.nc' % ext, None)]
        if self.opfail:
            k = [o[0] for o in ops].index(self.opfail)
            return 'error', ops[:k + 1]
        return 'normal', ops


class _Sy(dict):
    def __init__(self, w):
        super().__init__()
        self.w = w

    def __missing__(self, k):
        if isinstance(k, str):
            if k == 'old2.read_wout.mboz':
                return self.w.wm
            if k == 'old2.read_wout.nboz':
                return self.w.wn
            if k == 'old2.read_wout.compute_surfs.n0':
                return len(self.w.wsurf)
            if not k.startswith('fn:'):
                return random.Random('%s%s' % (self.w.seed, k)).randrange(1, 9)
        raise KeyError(k)

    def get(self, k, d=None):
        try:
            return self[k]
        except KeyError:
            return d


CASES = [
    [20, 10, 'li383'], [2, 1, 'a'], [5, 3, 'x_y', 3, 1, 2], [7, 2, 'ext', 4], [3, 9, 'ext', 9, 9, 0, 'stop', 5], [6, 4, 12, 2, 1], [6, 4, 'q', 'z', 3],
    [1, 0, 'one', 0], [4, 'x', 'ext'], ['x', 4, 'ext'], [8, 8], [8], [], [12, 3, 'deep', 30, 2, 17, 4, 4, 11, 1, 0, 9, 8],
]


def cases():
    out = []
    for i, w in enumerate(CASES):
        out.append(Tokens(w, seed=i, wm=[5, 18, 4][i % 3], wn=[3, 2, 9][i % 3], wsurf=[(0, 1, 2), (0, 1, 2, 3, 4)][i % 2]))
    out.append(Tokens([4, 4, 'a'], openfail=True))
    out.append(Tokens([6, 4, 'LI383_1.4m', 3, -1, 2]))
    out.append(Tokens([-2, 4, 'w7x.EIM-v2', -1]))
    for nm in OPSN:
        out.append(Tokens([4, 4, 'a', 2, 1], opfail=nm))
    return out


def driver(P, a, tier, seed):
    W = World(P)
    calls = []
    for nm in OPSN:
        if not P.by_name.get(CLS + '::' + nm):
            raise frontend.AnalysisBroken('%s::%s not found' % (CLS, nm))
        W.E.stubs = dict(W.E.stubs or {})
    for nm in OPSN:
        W.E.stubs[CLS + '::' + nm] = stub(nm, W, calls)
    E = W.E
    f = P.fn('main') or P.fn('booz_xform::driver')
    if f is None:
        raise frontend.AnalysisBroken('no main function')
    D = Decider(W, [])
    argv = [string('xbooz_xform'), string_sym('argv1'), string_sym('argv2')][:a['argc']]
    W.st.s[('arg', 'argv')] = Vec(argv, 'str')
    E.frames.append(Frame({'qn': '<caller>', 'params': []}, None, '<caller>'))
    E.sink = []
    try:
        an = [{'k': 'Value', 'v': num(a['argc']), 't': 'int'}, {'k': 'Value', 'v': Ptr(LV(('arg', 'argv'), (ZERO,))), 't': ''}]
        r = E.call_fn(f, an[:len(f['params'])], W.st, {'l': 0})
        alive = True
    except Dead:
        r, alive = None, False
    finally:
        E.frames.pop()
    throws = [x for x in E.sink if x.kind == 'throw']
    ops = [e for e in E.events if e.kind == 'op']
    drv = P.fn('booz_xform::driver') or f
    where = '%s:%s (%s)' % (drv['file'][drv['file'].find('src/_booz'):], drv['l'], drv['name'] if 'name' in drv else 'driver')
    if a['argc'] != 2:
        D.note('usage: no operation', 'proved' if not ops else 'violated', fmt_site(ops[0].site) if ops else where, 'performs an operation without an input file', 'usage')
        D.note('usage: returns normally', 'proved' if alive and not throws else 'violated', where, 'fails instead of printing the usage', 'usage')
        pr = [e for e in E.events if e.kind == 'print']
        D.note('usage: printed', 'proved' if pr else 'violated', where, 'prints nothing', 'usage')
        return D, W
    fo = [e for e in E.events if e.kind == 'fopen']
    D.note('the named file is opened', 'proved' if len(fo) == 1 and fo[0].d['name'] is argv[1] else 'violated' if fo else 'undecided',
           fmt_site(fo[0].site) if fo else where, 'opens %s' % (show(fo[0].d['name']) if fo else ''), 'input')
    D.note('no error is swallowed', 'violated' if any(e.kind == 'catch' for e in E.events) and not throws else 'proved', where, '', 'catch')
    n_ok = {}
    for ci, t in enumerate(cases()):
        kind, req = t.required()
        V = t.valuation(W)
        name = 'sequence for input %s%s' % (t.words, ' (cannot be opened)' if t.openfail else ' (%s fails)' % t.opfail if t.opfail else '')
        try:
            got = []
            seen = replay(V, ops)
            for e, env in seen:
                got.append((e, env))
            names = [e.d['op'] for e, _ in got]
            bad = None
            if names != [x[0] for x in req]:
                bad = 'operations %s, required %s' % (names, [x[0] for x in req])
                wh = fmt_site(got[0][0].site) if got else where
            else:
                for (e, env), (nm, fname, state) in zip(got, req):
                    wh = fmt_site(e.site)
                    if len({id_(x[0].d['oid']) for x in got}) != 1:
                        bad = 'operations on different objects'
                    if fname is not None:
                        g = V.ev(e.d['vals'][0], env)
                        if g != fname:
                            bad = '%s is given %r, required %r' % (nm, g, fname)
                        if len(e.d['vals']) > 1 and nm == 'read_wout' and V.ev(e.d['vals'][1], env):
                            bad = 'read_wout is asked for the flux profile'
                    if state is not None:
                        m, n, s = state
                        S = e.d['snap']
                        gm, gn = V.ev(S['mboz'], env), V.ev(S['nboz'], env)
                        cs = S['compute_surfs']
                        L = int(V.ev(cs.shape[0], env))
                        gs = [V.ev(elem(cs.d, [num(i)]), env) for i in range(L)]
                        if (gm, gn) != (m, n):
                            bad = 'runs with mboz = %s, nboz = %s, required %s, %s' % (gm, gn, m, n)
                        elif list(gs) != list(s):
                            bad = 'runs with compute_surfs = %s, required %s' % (gs, s)
                    if bad:
                        break
            if bad is None:
                thrown = any(all(V.ev(c) for c in x.st.pc) for x in throws)
                if kind == 'error' and not thrown:
                    bad, wh = 'no error is raised', where
                if kind == 'normal' and thrown:
                    bad, wh = 'an error is raised', where
                if kind == 'normal' and alive and type(r) is T and not isinstance(r, str):
                    v = V.ev(r) if r is not NONE else 0
                    if v != 0:
                        bad, wh = 'exit status %s' % v, where
            if bad:
                D.note(name, 'violated', wh, bad, 'sequence')
            else:
                D.note(name, 'agrees', where, '', 'sequence')
        except UninitRead as ex:
            D.note(name, 'violated', where, 'depends on an indeterminate value (%s)' % ex, 'sequence')
        except (Undecided, Unclear, OutOfRange, TypeError, ValueError, KeyError, AttributeError) as ex:
            D.note(name, 'undecided', where, '%s: %s' % (type(ex).__name__, ex), 'sequence')
    # nothing but the resolution and the surfaces changes between the operations
    public = {f['n']: f.get('access') for f in P.recs[CLS]['fields']}
    if len(ops) == 3:
        for (e1, e2, allowed) in ((ops[0], ops[1], ('mboz', 'nboz', 'compute_surfs')), (ops[1], ops[2], ())):
            for m, v in e2.d['snap'].items():
                if m in allowed:
                    continue
                if public.get(m) not in (None, 'public'):
                    continue
                tag = 'old2.%s.%s' % (e1.d['op'], m)
                if type(v) is Arr:
                    fresh = isinstance(v.d, InputDef) and v.d.name == tag and all(x.op == 'sym' for x in v.shape)
                elif type(v) is T:
                    fresh = v.op == 'sym' and v.a[0] == tag
                else:
                    continue
                fresh = fresh or same_content(v, e1.d['snap'].get(m)) and (m == 'verbose' or e1.d['op'] == 'run' and m not in HAVOC_OUT)
                D.note('%s is not modified before %s' % (m, e2.d['op']), 'proved' if fresh else 'violated', fmt_site(e2.site), '%s is modified before %s' % (m, e2.d['op']), m)
    return D, W


def id_(x):
    return repr(x)


def analyse(P, label, args, tier, seed):
    D, W = driver(P, args, tier, seed)
    return {'obs': [o.tup() for o in D.obs], 'stats': stats_of(W)}
