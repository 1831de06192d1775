"""P21: the Python command performs the documented sequence of operations."""
from .decide import *
from .world import *
from .chk_eff import stats_of
from .ev import Exit, fn_bool
from .replay import replay, Unclear
import ast
from .pyev import *
from .chk_driver import Tokens, CASES, OPSN, HAVOC_OUT
from .deps import same_content
from . import nf as N
from . import frontend, pyfe, pyev


def load(pid):
    P = frontend.load()
    P.py = pyfe.load()
    return P


def partitions(pid, tier):
    return [('main([file])', {'argc': 1}), ('main() with sys.argv = [prog, file]', {'argc': 1, 'sysargv': True}), ('main([])', {'argc': 0}),
            ('main() with sys.argv = [prog]', {'argc': 0, 'sysargv': True}), ('main([file, other])', {'argc': 2})]


def obj_in(E, P, W, tag, cls=CLS):
    """a Booz_xform object with unknown contents"""
    E.nobj = getattr(E, 'nobj', 0) + 1
    o = Obj(('obj', CLS, 'py%d' % E.nobj), CLS)
    for f in P.recs[CLS]['fields']:
        v = unknown_member(P, W, f, tag)
        if v is not None:
            W.st.s[('o', o.oid, f['n'])] = v
    return o


def unknown_member(P, W, fl, tag):
    m, t = fl['n'], fl['t']
    at = arr_type(t)
    tag = tag + '.' + m
    if at is not None and not base_t(t).startswith('std::vector'):
        rank, ety, fixed, mat, std = at
        sh = tuple(sym(tag + '.n%d' % i, 'int') for i in range(rank))
        for x in sh:
            W.facts.lo[x] = [N.p_const(0)]
        return Arr(rank, sh, InputDef(tag, rank, ety), newgen(), ety, mat, std)
    if is_int_t(t) or base_t(t) == 'bool':
        return sym(tag, 'bool' if base_t(t) == 'bool' else 'int')
    if is_float_t(t):
        return sym(tag, 'real')
    return None


class PyWorld:
    def __init__(self, P):
        self.P = P
        self.facts = base_facts()
        self.E = PyEngine(P, P.py)
        self.st = St({}, ())
        self.inputs = {}
        self.init = {}
        self.E.sink = []

    def run(self, mod, fn, args, kw=None):
        E = self.E
        m = E.mods.get(mod)
        if m is None or fn not in m.fns:
            raise frontend.AnalysisBroken('%s.%s not found' % (mod, fn))
        E.frames.append(E.pyframe('<caller>', mod, None))
        try:
            return True, E.call_py(PFn(m.fns[fn], mod, None, fn), args, kw or {}, self.st, {'l': 0})
        except Dead:
            return False, None
        finally:
            E.frames.pop()

    def throws(self):
        return [x for x in self.E.sink if x.kind == 'throw']


def methods_of(P):
    return {q.rsplit('::', 1)[1] for q in P.by_name if q.startswith(CLS + '::')}


def op_method(W):
    P = W.P
    known = set(OPSN) | methods_of(P)

    def call(E, obj, name, args, kw, st, n):
        if name not in known:
            E.gap('method ' + name, n)
            return unk('method ' + name)
        vals = [E.freeze(a, st) for a in args]
        oid = obj.oid
        snap = {k[2]: v for k, v in st.s.items() if k[0] == 'o' and k[1] == oid}
        E.emit('op', n, st, op=name, vals=vals, kw={k: E.freeze(v, st) for k, v in kw.items()}, snap=snap, oid=oid)
        c = fn_bool('opfail', string(name))
        E.sink.append(Exit('throw', string('failure'), st.fork(c), 'RuntimeError', E.site(n)))
        st.pc = st.pc + (not_(c),)
        for fl in P.recs[CLS]['fields']:
            m = fl['n']
            if name == 'write_boozmn' or m == 'verbose' or name == 'run' and m not in HAVOC_OUT and fl.get('access') in (None, 'public'):
                continue
            v = unknown_member(P, W, fl, 'old2.' + name)
            if v is not None:
                st.s[('o', oid, m)] = v
        return PNONE
    return call


class PyTokens(Tokens):
    def valuation(self, W):
        V = super().valuation(W)
        V.syms.update({'fn:pyisint': lambda s: self.pyint(s) is not None, 'fn:pyint': lambda s: self.pyint(s), 'ntok': len(self.words),
                       'nline1': min(2, len(self.words)), 'nline2': min(1, max(0, len(self.words) - 2)),
                       'fn:openfail': lambda *v: self.openfail})
        return V

    def pyint(self, s):
        try:
            return int(s)
        except (ValueError, TypeError):
            return None

    def arr(self, nm, idx):
        if nm == 'tokens':
            if not 0 <= idx[0] < len(self.words):
                raise OutOfRange(nm)
            return str(self.words[idx[0]])
        return super().arr(nm, idx)


def cases():
    out = []
    for i, w in enumerate(CASES):
        out.append(PyTokens(w, seed=i, wm=[5, 18, 4][i % 3], wn=[3, 2, 9][i % 3], wsurf=[(0, 1, 2), (0, 1, 2, 3, 4)][i % 2]))
    out.append(PyTokens([4, 4, 'a'], openfail=True))
    out.append(PyTokens([6, 4, 'LI383_1.4m', 3, -1, 2]))
    out.append(PyTokens([-2, 4, 'w7x.EIM-v2', -1]))
    for nm in OPSN:
        out.append(PyTokens([4, 4, 'a', 2, 1], opfail=nm))
    return out


def cli(P, a):
    W = PyWorld(P)
    E = W.E
    E.methods[(CLS, '*')] = op_method(W)
    made = []

    def mk(st, n):
        o = Obj(('obj', CLS, 'py%d' % len(made)), CLS)
        made.append(o)
        for f in P.recs[CLS]['fields']:
            v = unknown_member(P, W, f, 'old2.new')
            if v is not None:
                st.s[('o', o.oid, f['n'])] = v
        return o
    E.make_obj = mk
    D = Decider(W, [])
    words = [string('input.txt'), string('extra')][:a['argc']]
    st = W.st
    if a.get('sysargv'):
        st.s[('g', 'argv')] = E.mklist([string('xbooz_xform')] + words, st)
        args = []
    else:
        args = [E.mklist(words, st)]
    alive, r = W.run('_cli', 'main', args)
    throws = W.throws()
    ops = [e for e in E.events if e.kind == 'op']
    mainl = P.py['_cli'].fns['main']
    where = 'src/booz_xform/_cli.py:%s (main)' % mainl.lineno

    def holds(c, V, env=None):
        return all(V.ev(x, env or {}) for x in c)
    if a['argc'] != 1:
        D.note('usage: no operation', 'proved' if not ops else 'violated', fmt_site(ops[0].site) if ops else where, 'performs an operation without an input file', 'usage')
        bad = not alive and not throws or any(x.ty != 'SystemExit' or x.val not in (ZERO, PNONE, NONE) for x in throws)
        D.note('usage: returns normally', 'violated' if bad else 'proved', where, 'fails instead of printing the usage', 'usage')
        pr = [e for e in E.events if e.kind == 'print']
        D.note('usage: printed', 'proved' if pr else 'violated', where, 'prints nothing', 'usage')
        if alive:
            v = None if r in (PNONE, NONE) else r
            D.note('usage: exit status 0', 'proved' if v is None or v is ZERO else 'violated' if type(v) is T and v.op == 'num' else 'undecided', where, 'exit status %s' % (show(v) if type(v) is T else v), 'usage')
        return D, W
    fo = [e for e in E.events if e.kind == 'fopen']
    D.note('the named file is opened', 'proved' if fo and all(e.d['name'] is words[0] for e in fo) else 'violated' if fo else 'undecided',
           fmt_site(fo[0].site) if fo else where, 'opens %s' % (show(fo[0].d['name']) if fo and type(fo[0].d['name']) is T else ''), 'input')
    for t in cases():
        kind, req = t.required()
        V = t.valuation(W)
        name = 'sequence for input %s%s' % (t.words, ' (cannot be opened)' if t.openfail else ' (%s fails)' % t.opfail if t.opfail else '')
        bad, wh = None, where
        try:
            got = list(replay(V, ops))
            names = [e.d['op'] for e, _ in got]
            if names != [x[0] for x in req]:
                bad = 'operations %s, required %s' % (names, [x[0] for x in req])
                wh = fmt_site(got[0][0].site) if got else where
            else:
                for (e, env), (nm, fname, state) in zip(got, req):
                    wh = fmt_site(e.site)
                    if len({repr(x[0].d['oid']) for x in got}) != 1:
                        bad = 'operations on different objects'
                    if fname is not None:
                        av = list(e.d['vals']) + list(e.d['kw'].values())
                        g = V.ev(av[0], env) if av else None
                        if g != fname:
                            bad = '%s is given %r, required %r' % (nm, g, fname)
                        if nm == 'read_wout' and len(av) > 1 and pyev.value(V, av[1], env):
                            bad = 'read_wout is asked for the flux profile'
                    if state is not None:
                        m, n, s = state
                        S = e.d['snap']
                        gm, gn = V.ev(S['mboz'], env), V.ev(S['nboz'], env)
                        gs = pyev.value(V, E.to_arr(S['compute_surfs'], W.st) if type(S['compute_surfs']) is not Arr else S['compute_surfs'], env)
                        if (gm, gn) != (m, n):
                            bad = 'runs with mboz = %s, nboz = %s, required %s, %s' % (gm, gn, m, n)
                        elif list(gs) != list(s):
                            bad = 'runs with compute_surfs = %s, required %s' % (gs, s)
                    if bad:
                        break
            if bad is None:
                thrown = [x for x in throws if holds(x.st.pc, V)]
                if kind == 'error' and not thrown:
                    bad, wh = 'no error is raised', where
                if kind == 'error' and any(x.ty == 'SystemExit' and (x.val in (PNONE, NONE) or type(x.val) is T and x.val.kind != 'string' and V.ev(x.val) == 0) for x in thrown):
                    bad, wh = 'ends with a success status', where
                if kind == 'normal' and thrown and not all(x.ty == 'SystemExit' for x in thrown):
                    bad, wh = 'an error is raised', fmt_site(thrown[0].site) if thrown[0].site else where
                if kind == 'normal' and alive and type(r) is T:
                    v = V.ev(r)
                    if v:
                        bad, wh = 'exit status %s' % v, where
            if bad:
                D.note(name, 'violated', wh, bad, 'sequence')
            else:
                D.note(name, 'agrees', where, '', 'sequence')
        except (Undecided, Unclear, OutOfRange, TypeError, ValueError, KeyError, AttributeError) as ex:
            D.note(name, 'undecided', where, '%s: %s' % (type(ex).__name__, ex), 'sequence')
    public = {f['n']: f.get('access') for f in P.recs[CLS]['fields']}
    for e1, e2, allowed in zip(ops, ops[1:], (('mboz', 'nboz', 'compute_surfs'), ())):
        for m, v in e2.d['snap'].items():
            if m in allowed or public.get(m) not in (None, 'public'):
                continue
            if type(v) not in (Arr, T):
                continue
            tag = 'old2.%s.%s' % (e1.d['op'], m)
            if type(v) is Arr:
                fresh = isinstance(v.d, InputDef) and v.d.name == tag and all(x.op == 'sym' for x in v.shape)
            else:
                fresh = v.op == 'sym' and v.a[0] == tag
            fresh = fresh or same_content(v, e1.d['snap'].get(m)) and (m == 'verbose' or e1.d['op'] == 'run' and m not in HAVOC_OUT)
            D.note('%s is not modified before %s' % (m, e2.d['op']), 'proved' if fresh else 'violated', fmt_site(e2.site), '%s is modified before %s' % (m, e2.d['op']), m)
    return D, W


def entry(P, D):
    """importing the module runs nothing; running it as a script runs main() once"""
    m = P.py['_cli']
    for role, name in (('imported', 'booz_xform._cli'), ('run as a script', '__main__')):
        calls, unsure, todo = [], False, list(m.tree.body)
        while todo:
            s = todo.pop(0)
            if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom)):
                continue
            if isinstance(s, ast.If) and not [x for x in ast.walk(s.test) if isinstance(x, ast.Name) and x.id != '__name__' or isinstance(x, ast.Call)]:
                try:
                    c = eval(compile(ast.Expression(s.test), m.path, 'eval'), {'__builtins__': {}, '__name__': name})
                except Exception:
                    unsure = True
                    continue
                todo = list(s.body if c else s.orelse) + todo
                continue
            if isinstance(s, (ast.If, ast.Try, ast.For, ast.While, ast.With)) and any(isinstance(x, ast.Call) for x in ast.walk(s)):
                unsure = True
            calls += [x for x in ast.walk(s) if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'main']
        want = name == '__main__'
        ok = len(calls) == want and all(not x.args and not x.keywords for x in calls)
        D.note('module %s' % role, 'undecided' if unsure else 'proved' if ok else 'violated', 'src/booz_xform/_cli.py:%s' % (calls[0].lineno if calls else len(m.tree.body)),
               'main() is called %d times when the module is %s' % (len(calls), role), 'entry')


def quiet_gaps(D, W):
    """a construct outside the modelled subset makes every alarm of the partition doubtful"""
    if W.E.gaps:
        for o in D.obs:
            if o.status == 'violated':
                o.status = 'undecided'
                o.detail = 'not modelled: %s; %s' % (W.E.gaps[0][0], o.detail)


def analyse(P, label, args, tier, seed):
    D, W = cli(P, args)
    quiet_gaps(D, W)
    if args['argc'] == 1:
        entry(P, D)
    return {'obs': [o.tup() for o in D.obs], 'stats': stats_of(W)}
