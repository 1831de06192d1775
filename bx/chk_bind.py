"""P22: the Python module exposes the documented attributes and methods, bound to the members and functions of the same name."""
import ast, os
from .decide import *
from .world import *
from . import frontend

INPUTS = ['verbose', 'asym', 'nfp', 'mpol', 'ntor', 'mnmax', 'mpol_nyq', 'ntor_nyq', 'mnmax_nyq', 'xm', 'xn', 'xm_nyq', 'xn_nyq', 'ns_in', 's_in', 'iota',
          'rmnc', 'rmns', 'zmnc', 'zmns', 'lmnc', 'lmns', 'bmnc', 'bmns', 'bsubumnc', 'bsubumns', 'bsubvmnc', 'bsubvmns', 'mboz', 'nboz', 'compute_surfs',
          'aspect', 'toroidal_flux', 'phi', 'chi', 'phip', 'pres']
OUTPUTS = ['ns_b', 's_b', 'mnboz', 'xm_b', 'xn_b', 'bmnc_b', 'bmns_b', 'gmnc_b', 'gmns_b', 'rmnc_b', 'rmns_b', 'zmnc_b', 'zmns_b', 'numnc_b', 'numns_b',
           'Boozer_G_all', 'Boozer_I_all', 'Boozer_G', 'Boozer_I']
EMPTY = 'empty'
METHODS = {
    'read_wout': [('filename', None), ('flux', False)],
    'init_from_vmec': [(x, None) for x in ('ns', 'iotas', 'rmnc0', 'rmns0', 'zmnc0', 'zmns0', 'lmnc0', 'lmns0', 'bmnc0', 'bmns0', 'bsubumnc0', 'bsubumns0',
                                           'bsubvmnc0', 'bsubvmns0')] + [(x, EMPTY) for x in ('phips', 'chi', 'pres', 'phi')],
    'run': [], 'write_boozmn': [('filename', None)], 'read_boozmn': [('filename', None)],
}
EXPORTS = {'Booz_xform': '_booz_xform', 'omp_max_threads': '_booz_xform', 'surfplot': 'plots', 'symplot': 'plots', 'modeplot': 'plots', 'wireplot': 'plots'}


def load(pid):
    return frontend.load(bindings=True)


def partitions(pid, tier):
    return [('bindings', {})]


SKIP = ('ImplicitCastExpr', 'ExprWithCleanups', 'ParenExpr', 'CXXBindTemporaryExpr', 'MaterializeTemporaryExpr', 'CXXStaticCastExpr', 'CStyleCastExpr',
        'CXXFunctionalCastExpr', 'ConstantExpr')


def peel(n):
    while isinstance(n, dict):
        if n['k'] in SKIP and n.get('c'):
            n = n['c'][0]
        elif n['k'] == 'CXXConstructExpr' and len(n.get('a') or []) == 1:
            n = n['a'][0]
        else:
            return n
    return n


def kids(n):
    for k in ('obj', 'callee', 'range', 'init', 'cond', 'a', 'c', 'decls', 'body', 'then', 'else'):
        v = n.get(k)
        if isinstance(v, dict):
            yield v
        elif isinstance(v, list):
            for x in v:
                if isinstance(x, dict):
                    yield x


class Scan:
    """definitions executed by the module initialiser, in order"""

    def __init__(self, P):
        self.P = P
        self.defs = []       # (kind, receiver, name, target, extras, line, file)
        self.opaque = []     # constructs that may define something unseen
        self.depth = 0
        self.env = [{}]

    def text(self, n, k=0):
        n = peel(n)
        if not isinstance(n, dict) or k > 6:
            return None
        if n['k'] == 'StringLiteral':
            return n['v']
        if n['k'] == 'DeclRefExpr':
            for e in reversed(self.env):
                if n.get('d') in e:
                    x = e[n['d']]
                    return x if isinstance(x, str) else self.text(x, k + 1)
            v = self.P.vars.get(n.get('d'))
            if v is not None and v.get('init'):
                return self.text(v['init'], k + 1)
        if n['k'] == 'CXXMemberCallExpr' and (n.get('fn') or '').endswith('c_str'):
            return self.text(n['obj'], k + 1)
        return None

    def target(self, n):
        """('member', name) | ('method', qn) | ('get', member) | None"""
        n = peel(n)
        if not isinstance(n, dict):
            return None
        if n['k'] == 'UnaryOperator' and n.get('op') == '&':
            d = peel(n['c'][0])
            if d['k'] == 'DeclRefExpr':
                qn = d['n']
                if qn.startswith(CLS + '::'):
                    return ('class', qn[len(CLS) + 2:])
                return ('fn', qn)
        if n['k'] == 'DeclRefExpr':
            for e in reversed(self.env):
                if n.get('d') in e and isinstance(e[n['d']], dict):
                    return self.target(e[n['d']])
            return ('fn', n['n'])
        if n['k'] == 'LambdaExpr':
            return self.lam(n)
        if n['k'] == 'CallExpr' and n.get('fn', '').startswith('pybind11::') and n.get('a'):
            return self.target(n['a'][0])
        if n['k'] == 'CXXOperatorCallExpr' and n.get('op') == '()' and 'overload_cast' in (n.get('cls') or n.get('fn') or ''):
            return self.target(n['a'][1])
        return None

    def lam(self, n):
        ps = [p['id'] for p in n.get('params') or []]
        b = n.get('body')
        ss = b.get('c') if isinstance(b, dict) and b.get('k') == 'CompoundStmt' else b
        ss = ss if isinstance(ss, list) else [ss]
        if len(ss) != 1:
            return None
        e = ss[0]
        if isinstance(e, dict) and e['k'] == 'ReturnStmt':
            e = e['c'][0] if e.get('c') else None
        e = peel(e)
        if not isinstance(e, dict):
            return None
        if e['k'] == 'MemberExpr' and peel(e['c'][0]).get('d') in ps[:1]:
            return ('class', e['n'])
        if e['k'] in ('BinaryOperator', 'CXXOperatorCallExpr') and e.get('op') == '=' and len(ps) == 2:
            l, r = (e['c'] if e['k'] == 'BinaryOperator' else e['a'])[:2]
            l, r = peel(l), peel(r)
            if l['k'] == 'MemberExpr' and r.get('d') == ps[1]:
                return ('class', l['n'])
        if e['k'] == 'CXXMemberCallExpr' and peel(e['obj']).get('d') in ps[:1]:
            av = [peel(x) for x in e['a'] if x['k'] != 'CXXDefaultArgExpr']
            if [x.get('d') for x in av] == ps[1:]:
                return ('class', e['fn'].split('::')[-1])
            return ('class', 'reordered call of ' + e['fn'].split('::')[-1])
        if e['k'] == 'CallExpr' and e.get('fn') and not ps:
            return ('fn', e['fn'])
        return None

    def extra(self, n):
        """keyword arguments: (name, default)"""
        n = peel(n)
        if not isinstance(n, dict):
            return None
        if n['k'] == 'UserDefinedLiteral':
            for x in kids(n):
                t = self.text(x)
                if t is not None:
                    return (t, None)
        if n['k'] in ('CXXTemporaryObjectExpr', 'CXXConstructExpr') and 'pybind11::arg' in (n.get('cls') or ''):
            t = self.text(n['a'][0]) if n.get('a') else None
            if t is not None:
                return (t, None if len(n['a']) < 2 else ('expr', n['a'][1]))
        if n['k'] == 'CXXOperatorCallExpr' and n.get('op') == '=':
            l = self.extra(n['a'][0])
            if l is not None:
                return (l[0], ('expr', n['a'][1]))
        if n['k'] == 'CXXMemberCallExpr' and 'pybind11::arg' in (n.get('fn') or ''):
            return self.extra(n['obj'])
        return None

    def run(self, n):
        if isinstance(n, list):
            for x in n:
                self.run(x)
            return
        if not isinstance(n, dict):
            return
        k = n.get('k')
        if k == 'DeclStmt':
            for d in n.get('decls') or []:
                if d.get('init') is not None:
                    self.run(d['init'])
                    self.env[-1][d['id']] = d['init']
            return
        if k in ('IfStmt', 'SwitchStmt', 'ConditionalOperator'):
            self.opaque.append(n.get('l'))
        if k in ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt'):
            self.opaque.append(n.get('l'))
        for x in kids(n):
            if k == 'LambdaExpr':
                break
            self.run(x)
        if k == 'CXXMemberCallExpr':
            fn_, cls = n.get('fn') or '', n.get('cls') or ''
            s = fn_.split('::')[-1]
            if (cls.startswith('pybind11::class_') or cls.startswith('pybind11::module_')) and s.startswith('def'):
                self.define('class' if cls.startswith('pybind11::class_') else 'module', s, n)
        elif k == 'CallExpr':
            f = self.P.fns.get(n.get('fu'))
            if f is not None and f.get('body') is not None and self.depth < 5:
                e = {}
                for p, a in zip(f['params'], n['a']):
                    t = self.text(a)
                    e[p['id']] = t if t is not None else self.lookup(a)
                self.env.append(e)
                self.depth += 1
                self.run(f['body'])
                self.depth -= 1
                self.env.pop()
            elif any('pybind11::class_' in (peel(a).get('t') or '') or 'pybind11::module_' in (peel(a).get('t') or '') for a in n.get('a') or []):
                self.opaque.append(n.get('l'))

    def lookup(self, a):
        b = peel(a)
        if isinstance(b, dict) and b['k'] == 'DeclRefExpr':
            for e in reversed(self.env):
                if b.get('d') in e:
                    return e[b['d']]
        return a

    def define(self, recv, how, n):
        a = n.get('a') or []
        if how in ('def', 'def_static'):
            p = peel(a[0]) if a else None
            if isinstance(p, dict) and (p.get('fn') or '').startswith('pybind11::init') or isinstance(p, dict) and 'initimpl' in (p.get('t') or ''):
                self.defs.append(('init', recv, '__init__', None, [self.extra(x) for x in a[1:] if self.extra(x)], n.get('l')))
                return
        nm = self.text(a[0]) if a else None
        if nm is None:
            self.opaque.append(n.get('l'))
            return
        tg = self.target(a[1]) if len(a) > 1 else None
        ex = [self.extra(x) for x in a[2:]]
        set_ = None
        if how == 'def_property' and len(a) > 2:
            set_ = self.target(a[2])
        line = peel(a[0]).get('l') or n.get('l')
        self.defs.append((how, recv, nm, (tg, set_), [x for x in ex if x is not None], line))


def empty_default(W, node):
    """the default value is an array without elements"""
    E = W.E
    E.frames.append(Frame({'qn': '<bindings>', 'params': []}, None, ''))
    try:
        v = E.rv(node, W.st)
        if type(v) is Arr:
            return all(s is ZERO for s in v.shape)
    except Exception:
        pass
    finally:
        E.frames.pop()
    return None


def analyse(P, label, args, tier, seed):
    W = World(P)
    D = Decider(W, [])
    fs = [f for f in P.fns.values() if f['qn'].startswith('pybind11_init')]
    if not fs:
        raise frontend.AnalysisBroken('no pybind11 module initialiser found')
    S = Scan(P)
    S.run(fs[0]['body'])
    fl = 'src/_booz_xform/bindings.cpp'
    at = lambda l: '%s:%s (module initialiser)' % (fl, l)
    missing = 'undecided' if S.opaque else 'violated'
    prop, meth, mod = {}, {}, {}
    for how, recv, nm, tg, ex, l in S.defs:
        if recv == 'module':
            mod[nm] = (how, tg, ex, l)
        elif how in ('def', 'def_static'):
            meth.setdefault(nm, []).append((how, tg, ex, l))
            prop.pop(nm, None)
        elif how != 'init':
            prop[nm] = (how, tg, ex, l)
            meth.pop(nm, None)
    for nm in INPUTS + OUTPUTS:
        rw = nm in INPUTS
        if nm not in prop:
            D.note('attribute ' + nm, missing, at('?'), 'the documented attribute %s is not defined' % nm, nm)
            continue
        how, (tg, st), ex, l = prop[nm]
        if tg is None:
            D.note('attribute ' + nm, 'undecided', at(l), 'getter not resolved', nm)
            continue
        if tg != ('class', nm):
            D.note('attribute ' + nm, 'violated', at(l), 'the attribute %s gives access to %s' % (nm, tg[1]), nm)
            continue
        writable = how in ('def_readwrite', 'def_property')
        if how == 'def_property' and st != ('class', nm):
            D.note('attribute ' + nm, 'undecided' if st is None else 'violated', at(l), 'assigning %s changes %s' % (nm, st[1] if st else '?'), nm)
            continue
        if how not in ('def_readwrite', 'def_property', 'def_readonly', 'def_property_readonly'):
            D.note('attribute ' + nm, 'violated', at(l), '%s is defined with %s' % (nm, how), nm)
            continue
        D.note('attribute ' + nm, 'proved' if writable == rw else 'violated', at(l),
               'the %s %s is %s' % ('input' if rw else 'output', nm, 'writable' if writable else 'read-only'), nm)
    D.note('default constructor', 'proved' if any(d[0] == 'init' and not d[4] for d in S.defs) else missing, at('?'), 'no constructor without arguments', '__init__')
    for nm, want in METHODS.items():
        c = meth.get(nm)
        if not c:
            D.note('method ' + nm, missing, at('?'), 'the documented method %s is not defined' % nm, nm)
            continue
        how, (tg, _), ex, l = c[0]
        if tg is None:
            D.note('method ' + nm, 'undecided', at(l), 'target not resolved', nm)
        else:
            D.note('method ' + nm, 'proved' if tg == ('class', nm) else 'violated', at(l), 'the method %s calls %s' % (nm, tg[1]), nm)
        got = [x[0] for x in ex]
        D.note('arguments of ' + nm, 'proved' if got == [x[0] for x in want] else 'violated', at(l),
               'the arguments of %s are %s, documented are %s' % (nm, got, [x[0] for x in want]), nm)
        if got != [x[0] for x in want]:
            continue
        for (an, dv), (_, wd) in zip(ex, want):
            key = '%s.%s' % (nm, an)
            if wd is None:
                D.note('%s of %s has no default' % (an, nm), 'proved' if dv is None else 'violated', at(l), 'the argument %s has a default' % an, key)
            elif dv is None:
                D.note('default of %s of %s' % (an, nm), 'violated', at(l), 'the argument %s has no default' % an, key)
            elif wd is False:
                p = peel(dv[1])
                ok = p['k'] == 'CXXBoolLiteralExpr' and p['v'] in (False, 0, 'false') or p['k'] == 'IntegerLiteral' and str(p['v']) == '0'
                D.note('default of %s of %s' % (an, nm), 'proved' if ok else 'violated' if p['k'] in ('CXXBoolLiteralExpr', 'IntegerLiteral') else 'undecided',
                       at(l), 'the default of %s is not false' % an, key)
            else:
                r = empty_default(W, dv[1])
                D.note('default of %s of %s' % (an, nm), 'proved' if r else 'undecided' if r is None else 'violated', at(l), 'the default of %s is not empty' % an, key)
    c = mod.get('omp_max_threads')
    if not c:
        D.note('function omp_max_threads', missing, at('?'), 'not defined', 'omp_max_threads')
    else:
        tg = c[1][0]
        D.note('function omp_max_threads', 'proved' if tg == ('fn', 'booz_xform::omp_max_threads') else 'undecided' if tg is None else 'violated', at(c[3]),
               'omp_max_threads calls %s' % (tg,), 'omp_max_threads')
    exports(D)
    return {'obs': [o.tup() for o in D.obs], 'stats': {'definitions': len(S.defs), 'opaque': len(S.opaque), 'functions': ['module initialiser', '__init__.py']}}


def exports(D):
    """names re-exported by the package"""
    fl = os.path.join(frontend.REPO, 'src/booz_xform/__init__.py')
    if not os.path.exists(fl):
        raise frontend.AnalysisBroken('no package initialiser')
    t = ast.parse(open(fl).read())
    got, star = {}, []
    for n in ast.walk(t):
        if isinstance(n, ast.ImportFrom) and n.level == 1:
            for a in n.names:
                if a.name == '*':
                    star.append(n.module)
                else:
                    got[a.asname or a.name] = (n.module, a.name, n.lineno)
        elif isinstance(n, ast.Assign):
            for x in n.targets:
                if isinstance(x, ast.Name) and x.id in EXPORTS:
                    got[x.id] = (None, None, n.lineno)
    for nm, m in EXPORTS.items():
        g = got.get(nm)
        w = 'src/booz_xform/__init__.py:%s' % (g[2] if g else '?')
        if g is None:
            D.note('export of ' + nm, 'undecided' if star else 'violated', w, '%s is not exported' % nm, nm)
        else:
            D.note('export of ' + nm, 'proved' if g[:2] == (m, nm) else 'undecided' if g[0] is None or g[1] == nm else 'violated', w, '%s is %s.%s' % (nm, g[0], g[1]), nm)
