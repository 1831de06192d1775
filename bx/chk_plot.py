"""P23-P25, P30: what the Python plotting functions pass to the plotting libraries."""
import ast, itertools, re
from .decide import *
from .world import *
from .witness import WVal
from .chk_eff import stats_of
from .replay import replay, Unclear
from .pyev import *
from .pyev import value as pyvalue
from .chk_py import load, PyWorld, unknown_member, quiet_gaps, methods_of
from . import nf as N
from . import frontend

FILE = 'src/booz_xform/plots.py'
OUT2 = ('bmnc_b', 'rmnc_b', 'zmns_b', 'numns_b', 'gmnc_b')
OUT2A = ('bmns_b', 'rmns_b', 'zmnc_b', 'numnc_b', 'gmns_b')
IN2 = ('rmnc', 'zmns', 'lmns')
IN2A = ('rmns', 'zmnc', 'lmnc')
IN2N = ('bmnc', 'bsubumnc', 'bsubvmnc')
IN2NA = ('bmns', 'bsubumns', 'bsubvmns')


def shapes(asym, inputs):
    s = {}
    for n in OUT2:
        s[n] = ('mnboz', 'ns_b')
    for n in OUT2A:
        s[n] = ('mnboz', 'ns_b') if asym else (0, 0)
    for n in ('xm_b', 'xn_b'):
        s[n] = ('mnboz',)
    for n in ('s_b', 'Boozer_I', 'Boozer_G', 'compute_surfs'):
        s[n] = ('ns_b',)
    for n in IN2 + IN2N:
        s[n] = ('mnmax' if n in IN2 else 'mnmax_nyq', 'ns_in') if inputs else (0, 0)
    for n in IN2A + IN2NA:
        s[n] = ('mnmax' if n in IN2A else 'mnmax_nyq', 'ns_in') if inputs and asym else (0, 0)
    for n in ('xm', 'xn', 'xm_nyq', 'xn_nyq'):
        s[n] = ('mnmax' if 'nyq' not in n else 'mnmax_nyq',) if inputs else (0,)
    for n in ('s_in', 'iota', 'Boozer_I_all', 'Boozer_G_all'):
        s[n] = ('ns_in',)
    return s


SC = ('nfp', 'mnboz', 'ns_b', 'ns_in', 'mnmax', 'mnmax_nyq', 'mboz', 'nboz', 'mpol', 'ntor', 'mpol_nyq', 'ntor_nyq', 'verbose')


def fill(P, W, oid, asym, inputs):
    st = W.st
    sh = shapes(asym, inputs)
    for f in P.recs[CLS]['fields']:
        m, t = f['n'], f['t']
        if m == 'asym':
            v = TRUE if asym else FALSE
        elif m in SC:
            v = ZERO if not inputs and m in ('mnmax', 'mnmax_nyq') else sym('b.' + m, 'int')
            if v is not ZERO:
                W.facts.lo[v] = [N.p_const(1 if m in ('nfp', 'mnboz', 'ns_b', 'ns_in', 'mnmax', 'mboz', 'mpol') else 0)]
        elif m in sh:
            rank, ety, fixed, mat, std = arr_type(t)
            dims = tuple(num(x) if isinstance(x, int) else sym('b.' + x, 'int') for x in sh[m])
            v = Arr(rank, dims, InputDef('b.' + m, rank, ety), newgen(), ety, mat, std)
        else:
            v = unknown_member(P, W, f, 'b')
        if v is not None:
            st.s[('o', oid, m)] = v


MODES = [(0, 0), (0, 1), (0, 2), (1, -2), (1, -1), (1, 0), (1, 1), (1, 2), (2, -2), (2, -1), (2, 0), (2, 1), (2, 2), (3, -1), (3, 0), (3, 3), (3, -3)]


class PlotW:
    def __init__(self, seed, params, asym=False):
        r = random.Random(seed)
        self.seed, self.p, self.asym = seed, params, asym
        self.nfp = [2, 3, 1, 5][seed % 4]
        self.modes = [MODES[0]] + sorted(r.sample(MODES[1:], [9, 12, 7, 16][seed % 4]))
        self.mnboz = len(self.modes)
        self.ns_b = [3, 2, 4, 1][seed % 4]
        if seed == 5:
            self.modes = [(0, 0)]
            self.mnboz = 1
        sb = sorted(r.uniform(0.05, 0.99) for _ in range(self.ns_b))
        if seed % 3 == 1:
            sb = sb[::-1]
        elif seed % 3 == 2 and self.ns_b > 2:
            sb = [sb[0], sb[-1]] + sb[1:-1]
        self.sb = sb
        self.outer = max(range(self.ns_b), key=lambda i: sb[i])
        self.ns_in = 6
        self.surfs = [r.randrange(6) for _ in range(self.ns_b)]
        self.inmodes = [(0, 0), (0, 1), (1, -1), (1, 0), (1, 1), (2, 0)][:4 + seed % 3]

    def scalar(self, k):
        v = {'nfp': self.nfp, 'mnboz': self.mnboz, 'ns_b': self.ns_b, 'ns_in': self.ns_in, 'mnmax': len(self.inmodes), 'mnmax_nyq': len(self.inmodes) + 3,
             'mboz': 4, 'nboz': 3, 'mpol': 3, 'ntor': 1, 'mpol_nyq': 4, 'ntor_nyq': 3, 'verbose': 1}.get(k)
        return v

    def arr(self, nm, idx):
        nm = nm[2:]
        i = idx[0]
        dims = shapes(self.asym, True).get(nm)
        if dims is not None:
            for a, d in zip(idx, dims):
                d = d if isinstance(d, int) else self.scalar(d)
                if not 0 <= a < d:
                    raise OutOfRange('%s%s' % (nm, list(idx)))
        if nm == 'xm_b':
            return self.modes[i][0]
        if nm == 'xn_b':
            return self.modes[i][1] * self.nfp
        if nm == 'xm':
            return self.inmodes[i][0]
        if nm == 'xn':
            return self.inmodes[i][1] * self.nfp
        if nm == 's_b':
            return self.sb[i]
        if nm == 'compute_surfs':
            return self.surfs[i]
        r = random.Random('%s/%s/%s' % (self.seed, nm, idx))
        if nm == 'bmnc_b' and i == 0:
            return 4 + r.random()
        if nm in ('rmnc_b', 'rmnc') and i == 0:
            return 9 + r.random()
        return r.uniform(-0.3, 0.3)

    def valuation(self, W):
        return PVal(_Sy(self), {}, 40000000, self)

    def _f(self, nm, shape):
        return lambda idx: self.arr(nm, tuple(int(i) for i in idx))


class PVal(WVal):
    """memoises scalars of arrays"""
    pass


class _Sy(dict):
    def __init__(self, w):
        super().__init__({k: v for k, v in w.p.items() if not isinstance(v, tuple)}, pi=math.pi)
        self.w = w

    def __missing__(self, k):
        if isinstance(k, str):
            if k.startswith('b.'):
                v = self.w.scalar(k[2:])
                if v is not None:
                    return v
                return random.Random('%s%s' % (self.w.seed, k)).randrange(1, 9)
        raise KeyError(k)

    def get(self, k, d=None):
        try:
            return self[k]
        except KeyError:
            return d


# ------------------------------------------------------------------ running a plot function
def build(P, how, asym, inputs):
    W = PyWorld(P)
    E = W.E
    made = []

    def new(st, n):
        o = Obj(('obj', CLS, 'py%d' % len(made)), CLS)
        made.append(o)
        for f in P.recs[CLS]['fields']:
            v = unknown_member(P, W, f, 'fresh%d' % len(made))
            if v is not None:
                st.s[('o', o.oid, f['n'])] = v
        return o

    def meth(E_, obj, name, args, kw, st, n):
        E.emit('op', n, st, op=name, vals=[E.freeze(a, st) for a in args], kw={k: E.freeze(v, st) for k, v in kw.items()}, oid=obj.oid)
        if name == 'read_boozmn':
            fill(P, W, obj.oid, asym, inputs)
            return PNONE
        if name in methods_of(P):
            # another operation of the class: it may change anything
            for f in P.recs[CLS]['fields']:
                v = unknown_member(P, W, f, 'op%d' % n.get('l', 0) if isinstance(n, dict) else 'op')
                if v is not None:
                    st.s[('o', obj.oid, f['n'])] = v
            return PNONE
        E.gap('method ' + name, n)
        return unk('method ' + name)
    E.make_obj = new
    E.methods[(CLS, '*')] = meth
    if how == 'file':
        b = string('boozmn_x.nc')
    elif how == 'other':
        b = num(7)
    else:
        b = new(W.st, None)
        fill(P, W, b.oid, asym, inputs)
        W.obj = b
    W.made = made
    return W, b


def pv(W, x):
    """parameter value"""
    st = W.st
    if x is None:
        return PNONE
    if x is True:
        return TRUE
    if x is False:
        return FALSE
    if isinstance(x, str) and x.startswith('$'):
        t = sym(x[1:], 'int' if x[1:] not in ('ymin', 'lw') else 'real')
        W.facts.lo[t] = [N.p_const(0)] if x[1:] not in ('hm', 'hn', 'js') else []
        return t
    if isinstance(x, str):
        return string(x)
    if isinstance(x, tuple):
        return Vec([pv(W, y) for y in x], 'tuple', newgen())
    if isinstance(x, dict):
        return W.E.mkdict([(k, pv(W, v)) for k, v in x.items()], st)
    return num(x)


class Call:
    def __init__(self, fn_, args, kw, site):
        self.fn, self.args, self.kw, self.site = fn_, args, kw, site
        self.name = fn_.split('.')[-1]


def library_calls(W, V, names, keep=None):
    """library calls in order, with evaluated arguments"""
    out = []
    for e, env in replay(V, [e for e in W.E.events if e.kind == 'call']):
        nm = e.d['fn'].split('.')[-1]
        if nm not in names:
            continue
        args = [pyvalue(V, a, env) for a in e.d['args']]
        kw = {k: pyvalue(V, v, env) for k, v in e.d['kw'].items()}
        out.append(Call(e.d['fn'], args, kw, e.site))
    return out


def lin(a, b, n):
    return [a + (b - a) * i / (n - 1) if n > 1 else a for i in range(n)]


def close(a, b, tol=1e-7):
    return isinstance(a, (int, float)) and isinstance(b, (int, float)) and abs(a - b) <= tol * max(1.0, abs(a), abs(b))


class Bad(Exception):
    def __init__(self, key, msg, site=None):
        Exception.__init__(self, msg)
        self.key, self.msg, self.site = key, msg, site


def need(c, key, msg, site=None):
    if not c:
        raise Bad(key, msg, site)


def grid2(X, Y):
    """coordinates as matrices"""
    if X and not isinstance(X[0], list) and Y and not isinstance(Y[0], list):
        return [list(X) for _ in Y], [[y] * len(X) for y in Y]
    return X, Y


def wrap(f, D, name, where):
    try:
        f()
        D.note(name, 'agrees', where, '', 'plot')
    except Bad as e:
        D.note(name, 'violated', fmt_site(e.site) if e.site else where, e.msg, e.key)
    except OutOfRange as e:
        D.note(name, 'violated', where, 'reads outside the data: %s' % e, 'range')
    except (Undecided, Unclear, UninitRead, TypeError, ValueError, KeyError, AttributeError, IndexError, ZeroDivisionError) as e:
        D.note(name, 'undecided', where, '%s: %s' % (type(e).__name__, e), 'plot')


def site_of(P, fn_):
    m = P.py['plots']
    if fn_ not in m.fns:
        raise frontend.AnalysisBroken('plots.%s not found' % fn_)
    return '%s:%s (%s)' % (FILE, m.fns[fn_].lineno, fn_)


def first_errors(W, V):
    for x in W.throws():
        if all(V.ev(c) for c in x.st.pc):
            raise Bad('error', 'raises %s' % x.ty, x.site)


def check_kwargs(c, extra, own=()):
    for k, v in extra.items():
        need(k in c.kw and c.kw[k] == v, 'kwargs', 'the keyword argument %s is not passed on to %s' % (k, c.name), c.site)


# ------------------------------------------------------------------ surfplot
def surfplot(P, a, tier):
    W, b = build(P, a.get('how', 'object'), a['asym'], False)
    kw = {'js': '$js', 'fill': a['fill'], 'ntheta': '$ntheta', 'nphi': '$nphi', 'ncontours': '$ncontours', 'alpha': '$alpha', 'cmap': 'viridis'}
    for k in a.get('default', ()):
        kw.pop(k)
    alive, r = W.run('plots', 'surfplot', [b], {k: pv(W, v) for k, v in kw.items()})
    D = Decider(W, [])
    where = site_of(P, 'surfplot')
    for seed in range(4 if tier == 'quick' else 10):
        p = {'js': seed % [3, 2, 4, 1][seed % 4], 'ntheta': [5, 4, 7, 3][seed % 4], 'nphi': [4, 6, 5, 8][seed % 4], 'ncontours': 11 + seed, 'alpha': 0.25}
        w = PlotW(seed, p, a['asym'])
        for k, v in (('js', 0), ('ntheta', 50), ('nphi', 90), ('ncontours', 25)):
            if k in a.get('default', ()):
                p[k] = v
        V = w.valuation(W)

        def go():
            first_errors(W, V)
            need(alive, 'error', 'never returns')
            cs = library_calls(W, V, ('contourf', 'contour', 'tricontourf', 'tricontour', 'pcolormesh', 'imshow'))
            need(len(cs) == 1, 'calls', '%d contour plots are drawn, required one' % len(cs))
            c = cs[0]
            want = 'contourf' if a['fill'] else 'contour'
            need(c.name == want, 'fill', 'calls %s, required %s' % (c.name, want), c.site)
            need(len(c.args) >= 3, 'args', 'coordinates are not passed', c.site)
            X, Y = grid2(c.args[0], c.args[1])
            Z = c.args[2]
            pts = {}
            for i in range(len(Z)):
                for j in range(len(Z[i])):
                    pts[(round(X[i][j], 9), round(Y[i][j], 9))] = Z[i][j]
            phis, thetas = lin(0, 2 * math.pi / w.nfp, p['nphi']), lin(0, 2 * math.pi, p['ntheta'])
            need(len(pts) == len(phis) * len(thetas), 'grid', '%d points are drawn, required %d x %d' % (len(pts), len(thetas), len(phis)), c.site)
            step = max(1, len(phis) // 8)
            for ph in phis[::step] + phis[-1:]:
                for th in thetas[::step] + thetas[-1:]:
                    z = pts.get((round(ph, 9), round(th, 9)))
                    need(z is not None, 'grid', 'the point theta = %.4f, phi = %.4f is not on the grid' % (th, ph), c.site)
                    want_z = 0.0
                    for k, (m, n) in enumerate(w.modes):
                        ang = m * th - n * w.nfp * ph
                        want_z += w.arr('b.bmnc_b', (k, p['js'])) * math.cos(ang)
                        if a['asym']:
                            want_z += w.arr('b.bmns_b', (k, p['js'])) * math.sin(ang)
                    need(close(z, want_z), 'value', '|B| at theta = %.4f, phi = %.4f is drawn as %s, required %s' % (th, ph, z, want_z), c.site)
            lv = c.args[3] if len(c.args) > 3 else c.kw.get('levels')
            need(lv == p['ncontours'], 'ncontours', 'the number of contours passed is %s, required %s' % (lv, p['ncontours']), c.site)
            check_kwargs(c, {'alpha': 0.25, 'cmap': 'viridis'})
            lab = library_calls(W, V, ('xlabel', 'ylabel', 'set_xlabel', 'set_ylabel', 'title', 'set_title', 'suptitle', 'set'))
            xs = [(x.args[0], x.site) for x in lab if x.name in ('xlabel', 'set_xlabel') and x.args] + [(x.kw['xlabel'], x.site) for x in lab if x.name == 'set' and 'xlabel' in x.kw]
            ys = [(x.args[0], x.site) for x in lab if x.name in ('ylabel', 'set_ylabel') and x.args] + [(x.kw['ylabel'], x.site) for x in lab if x.name == 'set' and 'ylabel' in x.kw]
            ts = [(x.args[0], x.site) for x in lab if 'title' in x.name and x.args] + [(x.kw['title'], x.site) for x in lab if x.name == 'set' and 'title' in x.kw]
            need(xs and ys and ts, 'labels', 'the %s is missing' % ('label of the toroidal axis' if not xs else 'label of the poloidal axis' if not ys else 'title'))
            for x, site in xs:
                need(re.search(r'toroidal|phi|zeta', x.lower()) and 'poloidal' not in x.lower(), 'labels', 'the toroidal axis is labelled %r' % x, site)
            for x, site in ys:
                need(re.search(r'poloidal|theta', x.lower()) and 'toroidal' not in x.lower(), 'labels', 'the poloidal axis is labelled %r' % x, site)
            v = [float(g) for x, _ in ts for g in re.findall(r'\d+\.\d+', x)]
            need(any(abs(g - w.sb[p['js']]) < 1e-3 for g in v), 'title', 'the title %r names another surface than s = %s' % (ts[0][0], w.sb[p['js']]), ts[0][1])
        wrap(go, D, 'contours for witness %d' % seed, where)
    return D, W


# ------------------------------------------------------------------ symplot / modeplot
def group(m, n, detail):
    if m == 0 and n == 0:
        return 'background'
    if n == 0:
        return 'quasiaxisymmetric'
    if m == 0:
        return 'mirror'
    if detail and n == m:
        return 'helical+'
    if detail and n == -m:
        return 'helical-'
    return 'helical'


def lines_of(c):
    """[(x, y, format)] of one plot call"""
    a = list(c.args)
    out = []
    while a:
        if len(a) == 1 or isinstance(a[1], str):
            raise Bad('lines', 'a line without abscissa', c.site)
        x, y = a[0], a[1]
        a = a[2:]
        f = None
        if a and isinstance(a[0], str):
            f = a.pop(0)
        if y and isinstance(y[0], list):
            # columns
            for j in range(len(y[0])):
                out.append((x, [r[j] for r in y], f))
        else:
            out.append((x, y, f))
    return out


def color_of(c, f):
    v = c.kw.get('color', c.kw.get('c'))
    if isinstance(v, list):
        return tuple(v)
    if v is None and f:
        return ''.join(ch for ch in f if ch in 'bgrcmykw') or None
    return v


def mode_lines(W, V, w, a, p, detail=None):
    """{mode index: [Call]} plus the calls in order"""
    calls = library_calls(W, V, ('plot', 'semilogy', 'semilogx', 'loglog', 'legend', 'yscale', 'set_yscale', 'set_ylim', 'ylim', 'errorbar', 'scatter', 'step', 'xlim', 'set_xlim', 'set', 'axis', 'xlabel', 'set_xlabel'))
    hm, hn = (p['hm'], p['hn']) if a['helicity'] else (None, None)
    removed = {k for k, (m, n) in enumerate(w.modes) if a['helicity'] and hn * m == hm * n * w.nfp}
    rad = [math.sqrt(s) if a['sqrts'] else s for s in w.sb]
    drawn = {}
    order = []
    for c in calls:
        if c.name not in ('plot', 'semilogy', 'semilogx', 'loglog', 'errorbar', 'scatter', 'step'):
            continue
        need(c.name in ('plot', 'semilogy'), 'lines', 'draws with %s' % c.name, c.site)
        for x, y, f in lines_of(c):
            if [float(v) for v in y] == [0.0, 0.0] and [float(v) for v in x] == [0.0, 1.0] and not c.kw.get('label'):
                need(not a['log'], 'lines', 'a line at zero on a logarithmic axis', c.site)
                continue
            pts = sorted(zip(x, y))
            need(len(x) == len(y) == w.ns_b and all(close(u, v) for u, v in zip(sorted(x), sorted(rad))), 'abscissa',
                 'a line is drawn at x = %s, required %s' % ([round(float(v), 5) for v in x][:6], [round(v, 5) for v in rad]), c.site)
            hit = None
            for k in range(w.mnboz):
                d = [w.arr('b.bmnc_b', (k, j)) for j in range(w.ns_b)]
                if a['log']:
                    d = [abs(v) for v in d]
                want = sorted(zip(rad, d))
                if all(close(u[0], v[0]) and close(u[1], v[1]) for u, v in zip(pts, want)):
                    hit = k
            if hit is None and all(abs(v) == 0 for v in y):
                need(removed, 'lines', 'a line of zeros is drawn', c.site)
                order.append((c, None, f))
                continue
            need(hit is not None, 'lines', 'a line with values %s is the amplitude of no mode' % [round(float(v), 5) for v in y][:5], c.site)
            need(hit not in removed, 'helicity', 'the mode m = %d, n = %d of the removed helicity is drawn' % w.modes[hit], c.site)
            drawn.setdefault(hit, []).append((c, f))
            order.append((c, hit, f))
    return calls, drawn, order, removed


def limits(c, ax):
    """(low, high) set by a call of xlim/ylim/set, None where not set"""
    if c.name == 'set':
        v = c.kw.get(ax + 'lim')
        return tuple(v) if isinstance(v, (list, tuple)) and len(v) == 2 else (None, None)
    a = list(c.args)
    if len(a) == 1 and isinstance(a[0], (list, tuple)) and len(a[0]) == 2:
        a = list(a[0])
    lo = a[0] if a else c.kw.get('left' if ax == 'x' else 'bottom', c.kw.get(ax + 'min'))
    hi = a[1] if len(a) > 1 else c.kw.get('right' if ax == 'x' else 'top', c.kw.get(ax + 'max'))
    num = (int, float)
    return lo if isinstance(lo, num) else None, hi if isinstance(hi, num) else None


def common(calls, order, a, p, kwx, w, drawn):
    xs = [math.sqrt(s) if a['sqrts'] else s for s in w.sb] if drawn else []
    top = max((abs(w.arr('b.bmnc_b', (k, j))) for k in drawn for j in range(w.ns_b)), default=None)
    for c, hit, f in order:
        check_kwargs(c, kwx)
    lg = [c for c in calls if c.name == 'legend']
    need(len(lg) == 1, 'legend', 'legend is called %d times' % len(lg))
    need(lg[0].kw == {'loc': 'upper right', 'fontsize': 7}, 'legend', 'legend is given %s instead of legend_args' % lg[0].kw, lg[0].site)
    i = calls.index(lg[0])
    for c in calls[i + 1:]:
        need(not (c.name in ('plot', 'semilogy') and c.kw.get('label')), 'legend', 'a labelled line is drawn after the legend', c.site)
    scale = [c for c in calls if c.name in ('yscale', 'set_yscale') and c.args and c.args[0] == 'log' or c.name == 'semilogy']
    need(bool(scale) == bool(a['log']), 'log', 'the y axis is %slogarithmic' % ('' if scale else 'not '), scale[0].site if scale else None)
    if a['log'] and a['ymin']:
        lim = [c for c in calls if c.name in ('set_ylim', 'ylim')]
        ok = [c for c in lim if c.kw.get('bottom', c.kw.get('ymin', c.args[0] if c.args else None)) == p['ymin']]
        need(ok, 'ymin', 'ymin is not used as the lower limit', lim[0].site if lim else None)
    if a['log'] and not a['ymin'] and top is not None:
        for c in calls:
            if c.name in ('set_ylim', 'ylim', 'set'):
                v = limits(c, 'y')[0]
                need(v is None or v < top, 'ymin', 'the default lower limit of the y axis, %s, is above the largest amplitude %s' % (v, top), c.site)
    for c in calls:
        if c.name in ('set_xlim', 'xlim', 'set'):
            lo, hi = limits(c, 'x')
            need((lo is None or all(lo <= x + 1e-9 for x in xs)) and (hi is None or all(hi >= x - 1e-9 for x in xs)), 'xlim',
                 'the x axis from %s to %s hides points' % (lo, hi), c.site)
    lab = [c.args[0] if c.args else c.kw.get('xlabel') for c in calls if c.name in ('xlabel', 'set_xlabel') and c.args or c.name == 'set' and 'xlabel' in c.kw]
    need(lab, 'labels', 'the radial coordinate is not named on the x axis')
    for x in lab:
        need(bool(re.search(r'sqrt|r/a|rho', x)) == bool(a['sqrts']), 'labels', 'the x axis is labelled %r for sqrts = %s' % (x, a['sqrts']))


def symplot(P, a, tier):
    W, b = build(P, a.get('how', 'object'), a['asym'], False)
    kw = {'max_m': '$max_m', 'max_n': '$max_n', 'ymin': '$ymin' if a['ymin'] else None, 'sqrts': a['sqrts'], 'log': a['log'], 'B0': a['B0'],
          'remove_helicity': ('$hm', '$hn') if a['helicity'] else None, 'helical_detail': a['detail'],
          'legend_args': {'loc': 'upper right', 'fontsize': 7}, 'linewidth': '$lw', 'marker': 'x'}
    alive, r = W.run('plots', 'symplot', [b], {k: pv(W, v) for k, v in kw.items()})
    D = Decider(W, [])
    where = site_of(P, 'symplot')
    for seed in range(5 if tier == 'quick' else 12):
        nf_ = [2, 3, 1, 5][seed % 4]
        p = {'max_m': [3, 1, 2, 20, 0][seed % 5], 'max_n': [3, 1, 20, 2, 0][(seed * 2) % 5], 'ymin': 1.5e-5, 'lw': 2.5,
             'hm': [1, 1, 0][seed % 3], 'hn': [0, nf_, 1][seed % 3]}
        w = PlotW(seed, p, a['asym'])
        V = w.valuation(W)

        def go():
            first_errors(W, V)
            calls, drawn, order, removed = mode_lines(W, V, w, a, p)
            want = {k for k, (m, n) in enumerate(w.modes) if abs(m) <= p['max_m'] and abs(n) <= p['max_n'] and (a['B0'] or (m, n) != (0, 0)) and k not in removed}
            for k in sorted(want - set(drawn)):
                raise Bad('modes', 'the mode m = %d, n = %d*nfp is not drawn' % w.modes[k])
            for k in sorted(set(drawn) - want):
                raise Bad('modes', 'the mode m = %d, n = %d*nfp must not be drawn (max_m = %s, max_n = %s, B0 = %s)' % (w.modes[k] + (p['max_m'], p['max_n'], a['B0'])), drawn[k][0][0].site)
            col = {}
            for k, cs in drawn.items():
                g = group(*w.modes[k], a['detail'])
                for c, f in cs:
                    v = color_of(c, f)
                    need(v is not None, 'color', 'a line without a colour', c.site)
                    need(col.setdefault(g, v) == v, 'color', 'the %s mode m = %d, n = %d*nfp is drawn in another colour than its group' % ((g,) + w.modes[k]), c.site)
            for g in col:
                for h in col:
                    if g < h:
                        need(col[g] != col[h], 'color', 'the %s and %s modes have the same colour' % (g, h))
            labels = {}
            for c, hit, f in order:
                lb = c.kw.get('label')
                if lb:
                    need(hit is not None or removed, 'label', 'a label on a line that is no mode', c.site)
                    if hit is not None:
                        g = group(*w.modes[hit], a['detail'])
                        labels.setdefault(g, []).append((lb, c))
            for k in want:
                g = group(*w.modes[k], a['detail'])
                if removed:
                    continue
                need(g in labels, 'label', 'the %s modes have no legend entry' % g)
            for g, ls in labels.items():
                need(len(ls) == 1, 'label', 'the %s modes have %d legend entries' % (g, len(ls)), ls[-1][1].site)
                lb, c = ls[0]
                words = {'background': 'background', 'quasiaxisymmetric': 'quasiaxi', 'mirror': 'mirror', 'helical': 'elical', 'helical+': 'elical', 'helical-': 'elical'}
                for h, wd in words.items():
                    if wd in lb.lower() or wd in lb:
                        need(words[g] == wd, 'label', 'the %s modes are labelled %r' % (g, lb), c.site)
                if g == 'helical-':
                    need('-' in lb, 'label', 'the modes n = -nfp m are labelled %r' % lb, c.site)
                if g == 'helical+':
                    need('-' not in lb, 'label', 'the modes n = nfp m are labelled %r' % lb, c.site)
            common(calls, order, a, p, {'linewidth': 2.5, 'marker': 'x'}, w, drawn)
        wrap(go, D, 'lines for witness %d' % seed, where)
    return D, W


def modeplot(P, a, tier):
    W, b = build(P, a.get('how', 'object'), a['asym'], False)
    kw = {'nmodes': '$nmodes', 'ymin': '$ymin' if a['ymin'] else None, 'sqrts': a['sqrts'], 'log': a['log'], 'B0': a['B0'],
          'remove_helicity': ('$hm', '$hn') if a['helicity'] else None, 'legend_args': {'loc': 'upper right', 'fontsize': 7}, 'linewidth': '$lw', 'marker': 'x'}
    alive, r = W.run('plots', 'modeplot', [b], {k: pv(W, v) for k, v in kw.items()})
    D = Decider(W, [])
    where = site_of(P, 'modeplot')
    for seed in range(5 if tier == 'quick' else 12):
        nf_ = [2, 3, 1, 5][seed % 4]
        p = {'nmodes': [3, 6, 1, 40, 4][seed % 5], 'ymin': 1.5e-5, 'lw': 2.5, 'hm': [1, 1, 0][seed % 3], 'hn': [0, nf_, 1][seed % 3]}
        w = PlotW(seed, p, a['asym'])
        V = w.valuation(W)

        def go():
            first_errors(W, V)
            calls, drawn, order, removed = mode_lines(W, V, w, a, p)
            cand = [k for k in range(w.mnboz) if (a['B0'] or w.modes[k] != (0, 0)) and k not in removed]
            cand.sort(key=lambda k: -abs(w.arr('b.bmnc_b', (k, w.outer))))
            want = set(cand[:p['nmodes']])
            for k in sorted(want - set(drawn)):
                raise Bad('modes', 'the mode m = %d, n = %d*nfp, among the %d largest at s = %.3f, is not drawn' % (w.modes[k] + (p['nmodes'], w.sb[w.outer])))
            for k in sorted(set(drawn) - want):
                raise Bad('modes', 'the mode m = %d, n = %d*nfp is drawn but is not among the %d largest at s = %.3f' % (w.modes[k] + (p['nmodes'], w.sb[w.outer])), drawn[k][0][0].site)
            need(len(order) <= p['nmodes'], 'modes', '%d lines are drawn, at most %d are asked for' % (len(order), p['nmodes']))
            for k, cs in drawn.items():
                for c, f in cs:
                    lb = c.kw.get('label')
                    need(lb, 'label', 'a mode without a label', c.site)
                    g = [int(x) for x in re.findall(r'-?\d+', lb)]
                    m, n = w.modes[k]
                    need(g == [m, n * w.nfp], 'label', 'the mode m = %d, n = %d is labelled %r' % (m, n * w.nfp, lb), c.site)
            common(calls, order, a, p, {'linewidth': 2.5, 'marker': 'x'}, w, drawn)
        wrap(go, D, 'lines for witness %d' % seed, where)
    return D, W


# ------------------------------------------------------------------ wireplot
def traces(W, V):
    """(kind, kwargs, site) of the traces of the figures"""
    out, seen = [], set()
    E = W.E
    evs = [e for e in E.events if e.kind in ('call', 'lappend')]
    logs = {}
    figs = []

    def trace(h, env):
        if type(h) is Handle and h.name.split('.')[-1] in ('Surface', 'Scatter3d', 'Mesh3d'):
            kw = {k: pyvalue(V, v, env) for k, v in h.kw.items() if k in ('x', 'y', 'z', 'mode')}
            return (h.name.split('.')[-1], kw, h.ev.site)
        return None

    def contents(v, env):
        if type(v) is Opq and getattr(v, 'uid', None) is not None:
            return list(logs.get(v.uid, []))
        if type(v) is Vec:
            return [trace(x, env) for x in v.v]
        if type(v) is Handle:
            return [trace(v, env)]
        if v in (PNONE, NONE, None):
            return []
        raise Undecided('traces of the figure')
    for e, env in replay(V, evs):
        if e.kind == 'lappend':
            v = e.d['val']
            if type(v) is Handle:
                logs.setdefault(e.d['list'], []).append(trace(v, env))
            continue
        nm = e.d['fn'].split('.')[-1]
        if nm == 'Figure':
            d = e.d['kw'].get('data', e.d['args'][0] if e.d['args'] else None)
            figs.append(contents(d, env))
        elif nm == 'add_trace' and figs:
            figs[-1] += contents(e.d['args'][0] if e.d['args'] else e.d['kw'].get('trace'), env)
        elif nm == 'add_traces' and figs:
            figs[-1] += contents(e.d['args'][0] if e.d['args'] else e.d['kw'].get('data'), env)
        elif nm in ('add_scatter3d', 'add_surface') and figs:
            kw = {k: pyvalue(V, v, env) for k, v in e.d['kw'].items() if k in ('x', 'y', 'z', 'mode')}
            figs[-1].append(('Scatter3d' if 'scatter' in nm else 'Surface', kw, e.site))
    if len(figs) != 1:
        raise Bad('figure', '%d figures are made, required one' % len(figs))
    if any(t is None for t in figs[0]):
        raise Undecided('trace of another kind')
    return figs[0]


def same_curve(c, d, tol=1e-6):
    if len(c) != len(d):
        return False
    return all(abs(u - v) < tol for x, y in zip(c, d) for u, v in zip(x, y)) or all(abs(u - v) < tol for x, y in zip(c, d[::-1]) for u, v in zip(x, y))


def wireplot(P, a, tier):
    W, b = build(P, a.get('how', 'object'), a['asym'], a['inputs'])
    kw = {'js': '$js' if a['js'] else None, 'ntheta': a['nt'], 'nphi': a['np'], 'refine': a['refine'], 'surf': a['surf'], 'orig': a['orig']}
    alive, r = W.run('plots', 'wireplot', [b], {k: pv(W, v) for k, v in kw.items()})
    D = Decider(W, [])
    where = site_of(P, 'wireplot')
    nt, np_, rf = a['nt'], a['np'], a['refine']
    for seed in range(3 if tier == 'quick' else 6):
        p = {'js': seed % [3, 2, 4, 1][seed % 4]}
        w = PlotW(seed, p, a['asym'])
        w.modes = w.modes[:5]
        w.mnboz = len(w.modes)
        V = w.valuation(W)
        js = p['js'] if a['js'] else w.outer
        A = lambda nm, k, j: w.arr('b.' + nm, (k, j))

        def boozer(th, ph):
            R = Z = nu = 0.0
            for k, (m, n) in enumerate(w.modes):
                g = m * th - n * w.nfp * ph
                R += A('rmnc_b', k, js) * math.cos(g)
                Z += A('zmns_b', k, js) * math.sin(g)
                nu += A('numns_b', k, js) * math.sin(g)
                if a['asym']:
                    R += A('rmns_b', k, js) * math.sin(g)
                    Z += A('zmnc_b', k, js) * math.cos(g)
                    nu += A('numnc_b', k, js) * math.cos(g)
            return (R * math.cos(ph - nu), R * math.sin(ph - nu), Z)

        def original(th, ph):
            j = w.surfs[js]
            R = Z = 0.0
            for k, (m, n) in enumerate(w.inmodes):
                g = m * th - n * w.nfp * ph
                R += A('rmnc', k, j) * math.cos(g)
                Z += A('zmns', k, j) * math.sin(g)
                if a['asym']:
                    R += A('rmns', k, j) * math.sin(g)
                    Z += A('zmnc', k, j) * math.cos(g)
            return (R * math.cos(ph), R * math.sin(ph), Z)

        def go():
            first_errors(W, V)
            need(alive, 'error', 'never returns')
            ts = traces(W, V)
            th, ph = lin(0, 2 * math.pi, nt * rf + 1), lin(0, 2 * math.pi, np_ * rf + 1)

            def curves(f):
                G = [[f(t, q) for q in ph] for t in th]
                return G, [G[i] for i in range(0, len(th), rf)] + [[G[i][j] for i in range(len(th))] for j in range(0, len(ph), rf)]
            G, want = curves(boozer)
            if a['orig'] and a['inputs']:
                want = want + curves(original)[1]
            got = []
            surfs = []
            for kind, k, site in ts:
                need(all(x in k for x in 'xyz'), 'traces', 'a trace without coordinates', site)
                if kind == 'Scatter3d':
                    need('lines' in k.get('mode', 'lines'), 'traces', 'a curve without a line', site)
                    got.append((list(zip(k['x'], k['y'], k['z'])), site))
                else:
                    surfs.append((k, site))
            need(len(surfs) == (1 if a['surf'] else 0), 'surface', '%d surfaces are drawn, required %d' % (len(surfs), 1 if a['surf'] else 0), surfs[0][1] if surfs else None)
            for k, site in surfs:
                need(len(k['x']) == len(th) and len(k['x'][0]) == len(ph) or len(k['x']) == len(ph) and len(k['x'][0]) == len(th), 'surface', 'the surface has %d x %d points' % (len(k['x']), len(k['x'][0])), site)
                tr = len(k['x']) != len(th)
                for i in range(len(th)):
                    for j in range(len(ph)):
                        q = (k['x'][j][i], k['y'][j][i], k['z'][j][i]) if tr else (k['x'][i][j], k['y'][i][j], k['z'][i][j])
                        need(math.dist(q, G[i][j]) < 0.02, 'surface', 'the surface is %.3g away from the flux surface' % math.dist(q, G[i][j]), site)
            left = list(want)
            for c, site in got:
                hit = next((i for i, d in enumerate(left) if same_curve(c, d)), None)
                need(hit is not None, 'curves', 'a curve from (%.4f, %.4f, %.4f) is no required coordinate curve' % tuple(c[0]), site)
                left.pop(hit)
            need(not left, 'curves', '%d of %d coordinate curves are missing' % (len(left), len(want)))
            h = r
            need(type(h) is Handle, 'figure', 'the figure is not returned')
        wrap(go, D, 'curves for witness %d' % seed, where)
    return D, W


# ------------------------------------------------------------------ the object stays as it was
def unchanged(P, a, tier):
    fnm = a['fn']
    D, W = RUN[fnm](P, dict(BASE[fnm], **a), tier)
    D.obs.clear()
    where = site_of(P, fnm)
    E = W.E
    oids = {o.oid for o in W.made}
    if a.get('how') == 'other':
        t = W.throws()
        calls = [e for e in E.events if e.kind in ('call', 'op')]
        D.note('%s rejects an argument that is neither an object nor a name' % fnm, 'proved' if t and not calls else 'violated', where, 'accepts any argument', 'type')
        return D, W
    if a.get('how') == 'file':
        ops = [e for e in E.events if e.kind == 'op']
        ok = len(ops) == 1 and ops[0].d['op'] == 'read_boozmn' and len(W.made) == 1 and [x for x in ops[0].d['vals'] + list(ops[0].d['kw'].values())] == [string('boozmn_x.nc')]
        D.note('%s reads the named file into a new object' % fnm, 'proved' if ok else 'violated', fmt_site(ops[0].site) if ops else where, 'does not read the file it is given', 'file')
        return D, W
    ws = [e for e in E.events if e.kind in ('write', 'set') and e.d.get('key', ('',))[0] == 'o' and e.d['key'][1] in oids]
    for f in P.recs[CLS]['fields']:
        m = f['n']
        hit = [e for e in ws if e.d['key'][2] == m]
        D.note('%s leaves %s as it is' % (fnm, m), 'violated' if hit else 'proved', fmt_site(hit[0].site) if hit else where, 'modifies %s of the object' % m, m)
    ops = [e for e in E.events if e.kind == 'op']
    D.note('%s performs no operation on the object' % fnm, 'violated' if ops else 'proved', fmt_site(ops[0].site) if ops else where, 'calls %s' % (ops[0].d['op'] if ops else ''), 'op')
    return D, W


RUN = {'surfplot': surfplot, 'symplot': symplot, 'modeplot': modeplot, 'wireplot': wireplot}
BASE = {
    'surfplot': {'asym': True, 'fill': True},
    'symplot': {'asym': False, 'log': True, 'sqrts': False, 'B0': True, 'helicity': True, 'detail': True, 'ymin': False},
    'modeplot': {'asym': False, 'log': True, 'sqrts': False, 'B0': True, 'helicity': True, 'ymin': False},
    'wireplot': {'asym': True, 'inputs': True, 'js': True, 'surf': True, 'orig': True, 'nt': 2, 'np': 3, 'refine': 2},
}
FNS = {'P23': ('surfplot',), 'P24': ('symplot', 'modeplot'), 'P25': ('wireplot',)}


def grid_of(fnm, tier):
    out = []
    if fnm == 'surfplot':
        for asym, fill_ in itertools.product((False, True), (True, False)):
            out.append({'asym': asym, 'fill': fill_})
        out.append({'asym': True, 'fill': True, 'how': 'file'})
        out.append({'asym': False, 'fill': True, 'default': ('js', 'ncontours')})
    elif fnm in ('symplot', 'modeplot'):
        base = list(itertools.product((True, False), (False, True), (True, False), (False, True), (False, True)))
        for i, (log, sq, b0, hel, ymin) in enumerate(base):
            for det in ((False, True) if fnm == 'symplot' else (False,)):
                if tier == 'quick' and (i + det * 3) % 2:
                    continue
                out.append({'asym': i % 3 == 1, 'log': log, 'sqrts': sq, 'B0': b0, 'helicity': hel, 'ymin': ymin, 'detail': det})
        out.append(dict(BASE[fnm], how='file'))
    else:
        for asym, inputs, js, surf, orig in itertools.product((False, True), (True, False), (True, False), (True, False), (True, False)):
            if tier == 'quick' and (asym + inputs + js + surf + orig) % 2:
                continue
            i = len(out)
            out.append({'asym': asym, 'inputs': inputs, 'js': js, 'surf': surf, 'orig': orig, 'nt': 1 + i % 3, 'np': 2 + i % 2, 'refine': 1 + i % 3})
        out.append(dict(BASE['wireplot'], how='file', inputs=False))
    return out


def partitions(pid, tier):
    if pid == 'P30':
        out = []
        for fnm in RUN:
            for hel in ((True, False) if fnm in ('symplot', 'modeplot') else (None,)):
                a = {'fn': fnm}
                if hel is not None:
                    a['helicity'] = hel
                    a['B0'] = hel
                out.append(('%s%s' % (fnm, '' if hel is None else ', remove_helicity %s' % hel), a))
            out.append(('%s of a file' % fnm, {'fn': fnm, 'how': 'file'}))
            out.append(('%s of something else' % fnm, {'fn': fnm, 'how': 'other'}))
        return out
    out = []
    for fnm in FNS[pid]:
        for i, a in enumerate(grid_of(fnm, tier)):
            out.append(('%s %s' % (fnm, ', '.join('%s=%s' % kv for kv in a.items())), dict(a, fn=fnm, first=i == 0)))
    return out


DEFAULTS = {
    'surfplot': {'js': 0, 'fill': True, 'ntheta': 50, 'nphi': 90, 'ncontours': 25},
    'symplot': {'max_m': 20, 'max_n': 20, 'ymin': None, 'sqrts': False, 'log': True, 'B0': True, 'remove_helicity': None, 'helical_detail': False},
    'modeplot': {'nmodes': 10, 'ymin': None, 'sqrts': False, 'log': True, 'B0': True, 'remove_helicity': None},
    'wireplot': {'js': None, 'ntheta': 30, 'nphi': 80, 'refine': 3, 'surf': True, 'orig': True},
}


def defaults(P, D, fnm):
    """an argument that is not given has the value of the published signature"""
    m = P.py['plots']
    f = m.fns[fnm]
    pos = list(f.args.posonlyargs) + list(f.args.args)
    have = dict(zip([x.arg for x in pos[len(pos) - len(f.args.defaults):]], f.args.defaults))
    have.update({x.arg: d for x, d in zip(f.args.kwonlyargs, f.args.kw_defaults) if d is not None})
    for nm, want in DEFAULTS[fnm].items():
        e = have.get(nm)
        if isinstance(e, ast.Name) and e.id in m.consts:
            e = m.consts[e.id]
        try:
            v = ast.literal_eval(e)
        except (ValueError, TypeError, SyntaxError):
            continue
        st = 'proved' if type(v) is type(want) and v == want else 'violated' if v is not None and not isinstance(v, (dict, list, tuple, str)) else 'undecided'
        D.note('default of %s' % nm, st, 'src/booz_xform/plots.py:%s (%s)' % (f.lineno, fnm), 'the default of %s is %r, documented %r' % (nm, v, want), 'defaults')


def analyse(P, label, args, tier, seed):
    if args['pid'] == 'P30':
        D, W = unchanged(P, args, tier)
    else:
        D, W = RUN[args['fn']](P, args, tier)
    quiet_gaps(D, W)
    if args['pid'] != 'P30' and args.get('first'):
        defaults(P, D, args['fn'])
    s = stats_of(W)
    s['gaps'] = ['%s at %s' % (w, fmt_site(x) if x else '') for w, x in W.E.gaps][:20]
    return {'obs': [o.tup() for o in D.obs], 'stats': s}
