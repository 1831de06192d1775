"""Semantics of the Python subset used by the package (values with reference semantics, numpy arrays as value graphs)."""
import ast
import builtins
from fractions import Fraction
from .terms import *
from . import terms as tm
from . import nf as N
from .interp import *
from .ev import Exit, fn_bool
from .engine import Engine
from .pyfe import Lower, imports


def bindings(nodes):
    """every name bound by the given nodes"""
    out = set()
    for x in nodes:
        if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load):
            out.add(x.id)
        elif isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(x.name)
        elif isinstance(x, ast.arg):
            out.add(x.arg)
        elif isinstance(x, ast.alias):
            out.add((x.asname or x.name).split('.')[0])
        elif isinstance(x, ast.ExceptHandler) and x.name:
            out.add(x.name)
        elif isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name:
            out.add(x.name)
    return out


def own_nodes(fn):
    """the nodes of a function outside nested scopes"""
    todo = list(fn.body)
    while todo:
        x = todo.pop()
        yield x
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            continue
        todo.extend(ast.iter_child_nodes(x))


class PMod:
    __slots__ = ('path',)

    def __init__(self, path):
        self.path = path

    def __eq__(self, o):
        return type(o) is PMod and o.path == self.path

    def __hash__(self):
        return hash(self.path)

    def __repr__(self):
        return self.path


class PFn:
    def __init__(self, node, mod, parent, name):
        self.node, self.mod, self.parent, self.name = node, mod, parent, name


class Bound:
    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class PList:
    __slots__ = ('uid',)

    def __init__(self, uid):
        self.uid = uid

    def __eq__(self, o):
        return type(o) is PList and o.uid == self.uid

    def __hash__(self):
        return hash(self.uid)

    def __repr__(self):
        return 'PList%d' % self.uid


class PDict(PList):
    def __repr__(self):
        return 'PDict%d' % self.uid


class PD:
    """dict contents"""
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)

    def get(self, k):
        for a, b in self.items:
            if a == k:
                return b
        return None

    def put(self, k, v):
        return PD([(a, b) for a, b in self.items if a != k] + [(k, v)])


class PLog:
    """contents of a list of non-scalar values: the initial elements and the recorded appends"""
    __slots__ = ('uid',)

    def __init__(self, uid):
        self.uid = uid


class PIter:
    def __init__(self, size, at, known=None):
        self.size, self.at, self.known = size, at, known


class PSlice:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class Handle(Opq):
    """result of a library call that is not interpreted further"""


PNONE = Opq('None')


class ArgsortDef(Def):
    """stable sort permutation"""

    def __init__(self, prev, n):
        Def.__init__(self, 1, prev.fv | n.fv)
        self.prev, self.n = prev, n

    def subst(self, m):
        return ArgsortDef(subst_def(self.prev, m), subst(self.n, m))

    def value(self, V, idx, env):
        n = int(V.ev(self.n, env))
        if not 0 <= idx[0] < n:
            raise OutOfRange('sorted index')
        x = [V.evdef(self.prev, (k,), env) for k in range(n)]
        return sorted(range(n), key=lambda k: x[k])[idx[0]]


class UniqDef(Def):
    """distinct values in increasing order"""

    def __init__(self, prev, n):
        Def.__init__(self, 1, prev.fv | n.fv)
        self.prev, self.n = prev, n

    def subst(self, m):
        return UniqDef(subst_def(self.prev, m), subst(self.n, m))

    def value(self, V, idx, env):
        n = int(V.ev(self.n, env))
        x = sorted({V.evdef(self.prev, (k,), env) for k in range(n)})
        if not 0 <= idx[0] < len(x):
            raise OutOfRange('distinct values')
        return x[idx[0]]


class StrSplitDef(Def):
    """pieces of a string"""

    def __init__(self, how, s, args):
        fv = s.fv
        for x in args:
            fv = fv | x.fv
        Def.__init__(self, 1, fv)
        self.how, self.s, self.args = how, s, tuple(args)

    def subst(self, m):
        return StrSplitDef(self.how, subst(self.s, m), [subst(x, m) for x in self.args])

    def pieces(self, V, env):
        s = V.ev(self.s, env)
        if not isinstance(s, str):
            raise Undecided('string')
        return list(getattr(s, self.how)(*[V.ev(x, env) for x in self.args]))

    def length(self):
        # number of pieces, counted at evaluation
        r = fn('py.count' + self.how, self.s, *self.args)
        r.kind = 'int'
        return r

    def value(self, V, idx, env):
        p = self.pieces(V, env)
        if not 0 <= idx[0] < len(p):
            raise OutOfRange('pieces of a string')
        return p[idx[0]]


def is_str(v):
    return type(v) is T and (v.kind == 'string' or v.op in ('str', 'cat'))


UFUNC = {**{'np_' + k: 1 for k in ('cos', 'sin', 'sqrt', 'exp', 'log', 'log10', 'abs', 'negative', 'square', 'floor', 'ceil', 'rint', 'logical_not')},
         **{'np_' + k: 2 for k in ('add', 'subtract', 'multiply', 'divide', 'mod', 'floor_divide', 'power', 'maximum', 'minimum', 'hypot', 'arctan2',
                                   'logical_and', 'logical_or', 'equal', 'not_equal', 'less', 'less_equal', 'greater', 'greater_equal')}}
BIN = {'Add': '+', 'Sub': '-', 'Mult': '*', 'Div': '/', 'Mod': '%', 'FloorDiv': '//', 'Pow': '**', 'BitAnd': '&', 'BitOr': '|', 'MatMult': '@', 'BitXor': '^'}
CMP = {'Eq': '==', 'NotEq': '!=', 'Lt': '<', 'Gt': '>', 'LtE': '<=', 'GtE': '>='}
PARENTS = {'FileNotFoundError': ('OSError', 'IOError'), 'OSError': ('IOError',), 'IOError': ('OSError',), 'IndexError': ('LookupError',), 'KeyError': ('LookupError',),
           'UnicodeDecodeError': ('ValueError',), 'ZeroDivisionError': ('ArithmeticError',)}


class PyEngine(Engine):
    def __init__(self, P, mods, stubs=None):
        Engine.__init__(self, P, stubs=stubs)
        self.mods = mods
        self.low = Lower()
        self.plogs = set()
        self.ltype = {}
        self.handling = []
        self.npy = 0
        self.methods = {}       # (class, method) -> callable(engine, obj, args, kw, st, n)
        self.nolist_events = False
        self.bindcache = {}

    # ================================================================ frames and names
    def mod_of(self, fr):
        return fr.mod

    def pyframe(self, qn, mod, parent):
        fr = Frame({'qn': qn, 'params': [], 'ret': ''}, None, self.mods[mod].path if mod in self.mods else '')
        fr.mod = mod
        fr.parent = parent
        fr.imports = {}
        return fr

    def name(self, nm, st, n):
        fr = self.frame
        if not hasattr(fr, 'mod'):
            return unk('name ' + nm)
        f = fr
        local = False
        while f is not None:
            key = f.ids.get(nm)
            if key is not None:
                if key in st.s:
                    u = st.s.get(('u', key))
                    if u is not None:
                        self.maybe_throw(u, 'UnboundLocalError', string(nm), st, n)
                        st.s.pop(('u', key), None)
                    return self.slot(key, st)
                local = True
                break
            if nm in f.imports:
                return self.resolve(f.imports[nm])
            f = f.parent
        if local:
            self.gap('variable %s may be unbound' % nm, n)
            return unk('variable %s may be unbound' % nm)
        if self.never_bound(fr, nm):
            self.maybe_throw(TRUE, 'NameError', string(nm), st, n)
        return self.mod_name(fr.mod, nm, st, n)

    def drop_frame(self, s, fr):
        Engine.drop_frame(self, s, fr)
        for k in [k for k in s.s if k[0] == 'u' and k[1][1] == fr.uid]:
            del s.s[k]

    def never_bound(self, fr, nm):
        """no binding of the name has been executed and none can be found outside the function"""
        node = getattr(fr, 'node', None)
        m = self.mods.get(fr.mod)
        if node is None or m is None or hasattr(builtins, nm) or nm in ('__name__', '__version__', '__file__', '__doc__') or nm.startswith('$'):
            return False
        c = self.bindcache.get(fr.mod)
        if c is None:
            c = self.bindcache[fr.mod] = bindings(own_nodes(m.tree)), bindings(ast.walk(m.tree))
        if '*' in c[1]:
            return False
        if nm not in c[1]:
            return True
        if fr.parent is not None or isinstance(node, ast.Lambda):
            return False
        g = {x for y in ast.walk(m.tree) if isinstance(y, (ast.Global, ast.Nonlocal)) for x in y.names}
        own = list(own_nodes(node))
        if nm in g or nm in bindings(x for x in own if not isinstance(x, ast.Name)):
            return False
        # a local that was not reached yet, or a name that neither the function nor the module binds
        return any(isinstance(x, ast.Name) and x.id == nm and isinstance(x.ctx, ast.Store) for x in own) or nm not in c[0]

    def merge_store(self, c, sa, sb):
        out = Engine.merge_store(self, c, sa, sb)
        for x, y, cond in ((sa, sb, not_(c)), (sb, sa, c)):
            for key, v in x.items():
                if key[0] == 'v' and key not in y:
                    out[key] = v
                    out[('u', key)] = or_(cond, x.get(('u', key), FALSE))
                elif key[0] == 'u' and key not in y and key[1] in y:
                    out[key] = and_(not_(cond), v)
        return out

    def slot(self, key, st):
        v = st.s[key]
        if type(v) is Arr:
            return LV(key)
        return v

    def resolve(self, path):
        p = path.split('.')
        if p[0] == 'booz_xform' and len(p) > 1:
            if p[1] in self.mods and len(p) == 3:
                return self.mod_name(p[1], p[2], None, None)
            if p[-1] in ('Booz_xform', 'omp_max_threads'):
                return PMod('booz_xform.' + p[-1])
            if p[-1] == '__version__':
                return string_sym('version')
            if len(p) == 2 and p[1] in self.mods:
                return PMod('package:' + p[1])
            if len(p) == 2:
                return self.mod_name('__init__', p[1], None, None)
        return PMod(path)

    def mod_name(self, mod, nm, st, n):
        m = self.mods.get(mod)
        if m is None:
            return unk('module ' + mod)
        if nm in m.fns:
            return PFn(m.fns[nm], mod, None, nm)
        if nm in m.imports:
            return self.resolve(m.imports[nm])
        if nm in m.consts:
            key = ('g', 'const', mod, nm)
            if st is not None and key in st.s:
                return self.slot(key, st)
            s2 = st if st is not None else St({}, ())
            self.frames.append(self.pyframe(mod, mod, None))
            try:
                v = self.pv(m.consts[nm], s2)
            finally:
                self.frames.pop()
            s2.s[key] = v
            return self.slot(key, s2)
        if nm == '__name__':
            return string('booz_xform.' + mod)
        if nm == '__version__':
            return string_sym('version')
        return PMod('builtins.' + nm)

    def migrate(self, key, st):
        """the variable is about to be rebound: other references keep the old array"""
        used = False
        for k, v in st.s.items():
            if k != key and self.refers(v, key):
                used = True
                break
        if not used:
            return
        self.npy += 1
        nk = ('g', 'pa', self.npy)
        st.s[nk] = st.s[key]
        for k, v in list(st.s.items()):
            if k != key and k != nk:
                st.s[k] = self.reref(v, key, nk)

    def refers(self, v, key):
        t = type(v)
        if t is LV:
            return v.key == key
        if t is View:
            return v.base.key == key
        if t is Vec:
            return any(self.refers(x, key) for x in v.v)
        if t is Choice:
            return self.refers(v.a, key) or self.refers(v.b, key)
        if t is PD:
            return any(self.refers(x, key) for _, x in v.items)
        return False

    def reref(self, v, key, nk):
        t = type(v)
        if not self.refers(v, key):
            return v
        if t is LV:
            return LV(nk, v.idx)
        if t is View:
            return View(LV(nk), v.rank, v.shape, v.fwd, v.inv, v.mat)
        if t is Vec:
            return Vec([self.reref(x, key, nk) for x in v.v], v.ety, v.gen)
        if t is Choice:
            return Choice(v.c, self.reref(v.a, key, nk), self.reref(v.b, key, nk))
        return PD([(a, self.reref(b, key, nk)) for a, b in v.items])

    def bind(self, nm, v, st, n):
        fr = self.frame
        key = fr.ids.get(nm)
        if key is None:
            key = ('v', fr.uid, nm)
            fr.ids[nm] = key
        st.s.pop(('u', key), None)
        if v is NONE:
            v = PNONE
        if type(v) is LV and v.key == key and v.idx is None:
            return
        if type(st.s.get(key)) is Arr:
            tk = ('g', 'tmpv')
            st.s[tk] = v
            self.migrate(key, st)
            v = st.s.pop(tk)
        st.s[key] = v

    # ================================================================ statements
    def x_PyBlock(self, n, st):
        for c in n['c']:
            if not self.exec(c, st):
                return False
        return True

    def x_PyGap(self, n, st):
        self.gap('statement ' + n['why'], n)
        return True

    def x_PyExprStmt(self, n, st):
        self.cur = n
        self.pv(n['v'], st)
        return True

    def x_PyImport(self, n, st):
        self.frame.imports.update(imports(n['s'], self.frame.mod))
        return True

    def x_PyDef(self, n, st):
        self.bind(n['fn'].name, PFn(n['fn'], self.frame.mod, self.frame, n['fn'].name), st, n)
        return True

    def x_PyAssign(self, n, st):
        v = self.pv(n['v'], st)
        for t in n['t']:
            self.assign_to(t, v, st, n)
        return True

    def assign_to(self, t, v, st, n):
        if isinstance(t, ast.Name):
            self.bind(t.id, v, st, n)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, a in enumerate(t.elts) if isinstance(a, ast.Starred)]
            if star:
                xs = self.unpack_star(v, star[0], len(t.elts), st, n)
            else:
                xs = self.unpack(v, len(t.elts), st, n)
            for a, b in zip(t.elts, xs):
                self.assign_to(a.value if isinstance(a, ast.Starred) else a, b, st, n)
        elif isinstance(t, ast.Attribute):
            o = self.rd_obj(self.pv(t.value, st), st)
            if type(o) is Obj:
                key = ('o', o.oid, t.attr)
                w = self.val(v, st)
                if type(st.s.get(key)) is Arr:
                    w = self.to_arr(w, st, n)
                    if type(w) is Arr:
                        self.write(LV(key), w.w(gen=newgen()), st, n)
                        return
                if type(w) not in (T, Arr):
                    w = unk('attribute value')
                self.write(LV(key), w, st, n)
            else:
                self.gap('attribute assignment', n)
        elif isinstance(t, ast.Subscript):
            self.store_sub(t, v, st, n)
        else:
            self.gap('target ' + type(t).__name__, n)

    def unpack_star(self, v, i, k, st, n):
        it = self.iterable(v, st, n)
        if it is None:
            return [unk('unpacking')] * k
        if it.known is not None and len(it.known) >= k - 1:
            xs = list(it.known)
            m = len(xs) - (k - 1)
            return xs[:i] + [self.mklist(xs[i:i + m], st)] + xs[i + m:]
        w = self.val(v, st)
        if type(w) is PList:
            w = self.lcontent(w, st)
        if type(w) is not Arr or w.rank != 1:
            self.gap('starred target', n)
            return [unk('starred')] * k
        m = sub(w.shape[0], num(k - 1))
        self.maybe_throw(self.compare('<', m, ZERO, n), 'ValueError', string('not enough values to unpack'), st, n)
        q = self.mklist([], st)
        fs = formals((m,))
        st.s[('g', 'pl', q.uid)] = Arr(1, (m,), ExprDef(fs, elem(w.d, [add(fs[0], num(i))])), newgen(), w.ety, False, True)
        head = [self.rd(w, (num(j),)) for j in range(i)]
        tail = [self.rd(w, (add(m, num(j)),)) for j in range(i, k - 1)]
        return head + [q] + tail

    def unpack(self, v, k, st, n):
        it = self.iterable(v, st, n)
        if it is None:
            return [unk('unpacking')] * k
        if it.known is not None:
            if len(it.known) == k:
                return list(it.known)
            self.gap('unpacking of %d values into %d' % (len(it.known), k), n)
            return [unk('unpacking')] * k
        self.maybe_throw(not_(eq(it.size, num(k))), 'ValueError', string('values to unpack'), st, n)
        return [it.at(num(i)) for i in range(k)]

    def x_PyAug(self, n, st):
        t = n['t']
        op = BIN[n['op']]
        if isinstance(t, ast.Name):
            cur = self.name(t.id, st, n)
            y = self.pv(n['v'], st)
            c = self.content(cur, st)
            if type(cur) in (LV, View) and type(c) is Arr:
                v = self.binop(op, c, self.val(y, st), st, n)
                v = self.fit(v, c.shape, st, n)
                self.write(cur, v, st, n)
            elif type(cur) is PList and op == '+':
                it = self.iterable(y, st, n)
                if it is not None and it.known is not None:
                    for x in it.known:
                        self.append(cur, x, st, n)
                else:
                    self.gap('list extension', n)
            else:
                self.bind(t.id, self.binop(op, self.val(cur, st), self.val(y, st), st, n), st, n)
            return True
        if isinstance(t, ast.Attribute):
            v = self.binop(op, self.val(self.pv(t, st), st), self.val(self.pv(n['v'], st), st), st, n)
            self.assign_to(t, v, st, n)
            return True
        if isinstance(t, ast.Subscript):
            v = self.binop(op, self.val(self.pv(t, st), st), self.val(self.pv(n['v'], st), st), st, n)
            self.store_sub(t, v, st, n)
            return True
        self.gap('augmented assignment', n)
        return True

    def fit(self, v, shape, st, n):
        """broadcast a value to a given shape"""
        if type(v) is T:
            return Arr(len(shape), shape, ExprDef(formals(shape), v), newgen(), 'real')
        if type(v) is Arr:
            if v.rank == len(shape) and all(x is y for x, y in zip(v.shape, shape)):
                return v
            fs = formals(shape)
            off = len(shape) - v.rank
            if off < 0:
                self.gap('broadcast', n)
                return v
            idx = []
            for i in range(v.rank):
                if v.shape[i] is ONE and shape[off + i] is not ONE:
                    idx.append(ZERO)
                else:
                    if v.shape[i] is not shape[off + i]:
                        self.emit('shape', n, st, a=v.shape[i], b=shape[off + i])
                    idx.append(fs[off + i])
            return Arr(len(shape), shape, ExprDef(fs, self.rd(v, tuple(idx))), newgen(), v.ety)
        self.gap('array value', n)
        return Arr(len(shape), shape, UnkDef(len(shape), 'array value'), newgen(), 'real')

    def x_PyReturn(self, n, st):
        v = self.pv(n['v'], st) if n['v'] is not None else PNONE
        v = self.escape(v, st)
        self.sink.append(Exit('return', v, st.fork()))
        return False

    def escape(self, v, st):
        u = self.frame.uid
        if type(v) is LV and v.key[0] == 'v' and v.key[1] == u:
            return self.read(v, st) if v.idx is None or True else v
        if type(v) is View and v.base.key[0] == 'v' and v.base.key[1] == u:
            return self.read(v, st)
        if type(v) is Vec:
            return Vec([self.escape(x, st) for x in v.v], v.ety, v.gen)
        if type(v) is Choice:
            return Choice(v.c, self.escape(v.a, st), self.escape(v.b, st))
        return v

    def x_PyAssert(self, n, st):
        c = self.truth_(self.pv(n['v'], st), st, n)
        self.maybe_throw(not_(c), 'AssertionError', string(''), st, n)
        return True

    def maybe_throw(self, c, ty, msg, st, n):
        d = self.decide(c, st)
        if d is False:
            return
        s2 = st.fork(c) if d is None else st.fork()
        self.sink.append(Exit('throw', msg, s2, ty, self.site(n)))
        if d is True:
            raise Dead()
        st.pc = st.pc + (not_(c),)

    def x_PyRaise(self, n, st):
        ty, msg = 'Exception', string('')
        if n['v'] is None:
            ty = self.handling[-1] if self.handling else 'RuntimeError'
        else:
            v = self.pv(n['v'], st)
            if type(v) is PMod:
                ty = v.path.split('.')[-1]
            elif type(v) is Handle and getattr(v, 'exc', None):
                ty = v.exc
                msg = v.args[0] if v.args and type(v.args[0]) is T else msg
        self.emit('throw', n, st, ty=ty, msg=msg)
        self.sink.append(Exit('throw', msg, st.fork(), ty, self.site(n)))
        return False

    def x_PyTry(self, n, st):
        old = self.sink
        self.sink = []
        alive = self.exec(n['body'], st)
        mine = self.sink
        self.sink = []
        outs = []
        if alive:
            s0 = St(st.s, st.pc)
            if n['orelse'] is None or self.exec(n['orelse'], s0):
                outs.append(s0)
        for e in mine:
            if e.kind != 'throw':
                self.sink.append(e)
                continue
            hit = False
            for ht, nm, body in n['handlers']:
                if self.py_catches(ht, e.ty, st):
                    s = e.st
                    if nm:
                        h = Handle('exception')
                        h.exc, h.args = e.ty, [e.val]
                        self.bind(nm, h, s, n)
                    self.emit('catch', n, s, ty=e.ty, site2=e.site)
                    self.handling.append(e.ty)
                    try:
                        if self.exec(body, s):
                            outs.append(s)
                    finally:
                        self.handling.pop()
                    hit = True
                    break
            if not hit:
                self.sink.append(e)
        ex = self.sink
        self.sink = old
        if n['final'] is not None:
            keep = []
            for e in ex:
                if self.exec(n['final'], e.st):
                    keep.append(e)
            ex = keep
            outs = [s for s in outs if self.exec(n['final'], s)]
        self.sink += ex
        if not outs:
            return False
        s = outs[-1]
        for o in reversed(outs[:-1]):
            s, _ = self.merge(o, s)
        st.become(s)
        return True

    def py_catches(self, ht, ty, st):
        if ht is None:
            return True
        ts = ht.elts if isinstance(ht, ast.Tuple) else [ht]
        for t in ts:
            nm = t.id if isinstance(t, ast.Name) else t.attr if isinstance(t, ast.Attribute) else '?'
            if nm == ty or nm == 'BaseException' or nm == 'Exception' and ty != 'SystemExit' or nm in PARENTS.get(ty, ()):
                return True
        return False

    def x_PyWith(self, n, st):
        for e, var in n['items']:
            v = self.pv(e, st)
            if var is not None:
                self.assign_to(var, v, st, n)
        return self.exec(n['body'], st)

    def x_PyFor(self, n, st):
        v = self.pv(n['iter'], st)
        it = self.iterable(v, st, n)
        if it is None:
            self.gap('iteration', n)
            raise Dead()
        if n.get('orelse'):
            self.gap('for-else', n)
        fr = self.frame
        for nm in n['kill']:
            key = fr.ids.get(nm)
            if key in st.s:
                if type(st.s[key]) is Arr:
                    self.migrate(key, st)
                st.s.pop(key, None)
        self.tmp += 1
        cid = '$i%d' % self.tmp
        ck = ('v', fr.uid, cid)
        fr.ids[cid] = ck
        st.s[ck] = ZERO
        rvl = {'k': 'PyVal', 'key': ck, 'l': n['l']}
        cond = {'k': 'BinaryOperator', 'op': '<', 't': 'bool', 'c': [rvl, {'k': 'Value', 'v': it.size, 't': 'int32'}], 'l': n['l']}
        inc = {'k': 'PyInc', 'key': ck, 'l': n['l']}
        body = {'k': 'PyForBody', 'it': it, 'key': ck, 'target': n['target'], 'body': n['body'], 'kill': n['kill'], 'l': n['l']}
        ok = self.loop(n, st, cond, body, inc, False, None)
        st.s.pop(ck, None)
        return ok

    def e_PyVal(self, n, st):
        return st.s[n['key']]

    def e_PyInc(self, n, st):
        st.s[n['key']] = add(st.s[n['key']], ONE)
        return NONE

    def x_PyForBody(self, n, st):
        k = st.s[n['key']]
        fr = self.frame
        old = self.sink
        self.sink = []
        try:
            self.assign_to(n['target'], n['it'].at(k), st, n)
            ok = self.exec(n['body'], st)
        except Dead:
            ok = False
        mine = self.sink
        self.sink = old
        self.sink += mine
        return ok

    def cond(self, n, st):
        if n['k'] == 'PyExpr':
            return self.truth_(self.pv(n['e'], st), st, n)
        return Engine.cond(self, n, st)

    def e_PyExpr(self, n, st):
        return self.pv(n['e'], st)

    # ---------------------------------------------------------------- loops
    def placeholder(self, L, k, it, v, arrshape, solved):
        if type(v) in (LV, View, PList, PDict, PD, Handle, Opq, PMod, PFn, Choice, Obj):
            return Opq('changed in a loop')
        return Engine.placeholder(self, L, k, it, v, arrshape, solved)

    def changed(self, s0, s1):
        w = Engine.changed(self, s0, s1)
        return {k for k in w if not (k[:2] == ('g', 'pl') and k[2] in self.plogs) and s0[k] != s1[k]}

    def finish(self, res, n, st, entry, W, solved, arrshape, par):
        r = Engine.finish(self, res, n, st, entry, W, solved, arrshape, par)
        nb = res['basepc']
        cs = [and_(*e.st.pc[nb:]) for e in res['brk'] + res['ret'] + res['thr']]
        if cs:
            it, hi = res['it'], res.get('tc')
            v = bv('k', ZERO, hi)
            K = first(v, ZERO, hi if hi is not None else NONE, subst(or_(*cs), {it: v}))
            res['lc'].n = add(K, ONE) if hi is None else fn('min', add(K, ONE), hi)
        return r

    # ================================================================ values
    def content(self, v, st):
        """value stored behind a reference (without copying)"""
        if type(v) in (LV, View):
            return self.read(v, st)
        return v

    def val(self, v, st):
        if type(v) in (LV, View):
            v = self.read(v, st)
        while type(v) is Choice:
            d = self.decide(v.c, st)
            if d is None:
                break
            v = v.a if d else v.b
        return v

    def rd_obj(self, v, st):
        if type(v) is LV:
            v = st.s.get(v.key)
        return v

    def truth_(self, v, st, n):
        v = self.val(v, st)
        if v is PNONE or v is NONE:
            return FALSE
        if type(v) is T:
            if is_str(v):
                return FALSE if v is string('') else TRUE if v.op == 'str' else not_(eq(fn('strlen', v), ZERO))
            return truth(v)
        if type(v) is PList:
            c = self.lcontent(v, st)
            if type(c) is Vec:
                return TRUE if c.v else FALSE
            if type(c) is Arr:
                return not_(eq(c.shape[0], ZERO))
            self.gap('truth of a list', n)
            return unkbool('list')
        if type(v) is Vec:
            return TRUE if v.v else FALSE
        if type(v) is PDict:
            return TRUE if self.dcontent(v, st).items else FALSE
        if type(v) is Choice:
            return ite_bool(v.c, self.truth_(v.a, st, n), self.truth_(v.b, st, n))
        if type(v) in (Obj, Handle, PFn, PMod):
            return TRUE
        if type(v) is Arr:
            if v.rank == 1 and v.shape[0] is ONE:
                return truth(self.rd(v, (ZERO,)))
            # ambiguous for more than one element
            self.gap('truth of an array', n)
        return unkbool('truth')

    def mklist(self, vals, st):
        self.npy += 1
        p = PList(self.npy)
        st.s[('g', 'pl', p.uid)] = Vec(vals, None, p.uid)
        return p

    def mkdict(self, items, st):
        self.npy += 1
        p = PDict(self.npy)
        st.s[('g', 'pd', p.uid)] = PD(items)
        return p

    def lcontent(self, p, st):
        if p.uid in self.plogs:
            return PLog(p.uid)
        v = st.s.get(('g', 'pl', p.uid), unk('list'))
        k = self.ltype.get(p.uid)
        if type(v) is Arr and k in ('string', 'int', 'bool') and v.ety != k:
            v = v.w(ety=k)
        return v

    def typed(self, p, kind):
        old = self.ltype.get(p.uid)
        self.ltype[p.uid] = kind if old in (None, kind) else 'real' if {old, kind} == {'int', 'real'} else 'any'

    def dcontent(self, p, st):
        return st.s.get(('g', 'pd', p.uid)) or PD(())

    def append(self, p, x, st, n):
        key = ('g', 'pl', p.uid)
        c = st.s.get(key)
        w = self.val(x, st)
        self.emit('lappend', n, st, list=p.uid, val=self.freeze(x, st))
        if p.uid in self.plogs:
            return
        if type(w) is T and type(c) in (Vec, Arr):
            self.typed(p, 'string' if is_str(w) else 'bool' if is_bool(w) else w.kind or ('int' if w.op == 'num' and isinstance(w.a[0], int) else 'real'))
            if type(c) is Vec and not self.lstack:
                st.s[key] = Vec(c.v + (w,), None, c.gen)
                return
            a = self.vec2arr(c) if type(c) is Vec else c
            if a is not None:
                m = add(a.shape[0], ONE)
                fs = formals((m,))
                st.s[key] = Arr(1, (m,), UpdDef(a.d, fs, eq(fs[0], a.shape[0]), w, (self.site(n),)), newgen(), w.kind or a.ety, False, True)
                return
        if type(c) is Vec and not self.lstack:
            st.s[key] = Vec(c.v + (x,), None, c.gen)
            return
        self.plogs.add(p.uid)

    def freeze(self, v, st, depth=0):
        if depth > 6:
            return v
        v = self.val(v, st)
        if type(v) is PList:
            c = self.lcontent(v, st)
            if type(c) is PLog:
                h = Opq('log')
                h.uid = v.uid
                return h
            return self.freeze(c, st, depth + 1)
        if type(v) is PDict:
            return {a: self.freeze(b, st, depth + 1) for a, b in self.dcontent(v, st).items}
        if type(v) is Vec:
            return Vec([self.freeze(x, st, depth + 1) for x in v.v], v.ety, v.gen)
        if type(v) is Choice:
            return Choice(v.c, self.freeze(v.a, st, depth + 1), self.freeze(v.b, st, depth + 1))
        return v

    def to_arr(self, v, st, n=None):
        v = self.val(v, st)
        if type(v) is PList:
            v = self.lcontent(v, st)
        if type(v) is PIter:
            if v.known is not None:
                v = Vec(v.known)
            else:
                i = bv('k', ZERO, v.size)
                x = self.val(v.at(i), st)
                if type(x) is T:
                    return Arr(1, (v.size,), ExprDef((i,), x), newgen(), x.kind or 'real')
        if type(v) is Vec:
            vals = [self.val(x, st) for x in v.v]
            if all(type(x) is T for x in vals):
                a = self.vec2arr(Vec(vals, 'real', newgen()))
                return a.w(std=False)
            rows = [self.to_arr(x, st, n) for x in vals]
            if rows and all(type(x) is Arr and x.rank == rows[0].rank for x in rows):
                sh = (num(len(rows)),) + rows[0].shape
                fs = formals(sh)
                b = self.rd(rows[-1], fs[1:])
                for i in range(len(rows) - 2, -1, -1):
                    b = ite(eq(fs[0], num(i)), self.rd(rows[i], fs[1:]), b)
                return Arr(len(sh), sh, ExprDef(fs, b), newgen(), 'real')
        if type(v) is Choice:
            a, b = self.to_arr(v.a, st, n), self.to_arr(v.b, st, n)
            if type(a) is Arr and type(b) is Arr:
                return self.merge_val(v.c, a, b)
        return v

    def iterable(self, v, st, n):
        if type(v) is PIter:
            return v
        ref = v
        v = self.val(v, st)
        if type(v) is PList:
            v = self.lcontent(v, st)
            ref = v
        if type(v) is Vec:
            vals = v.v

            def at(k):
                if k.op == 'num':
                    return vals[k.a[0]] if 0 <= k.a[0] < len(vals) else unk('index')
                return self.pick(vals, k, st, n)
            return PIter(num(len(vals)), at, list(vals))
        if type(v) is Arr:
            if v.rank == 1:
                return PIter(v.shape[0], lambda k: self.kindit2(self.rd(v, (k,)), v))
            return PIter(v.shape[0], lambda k: self.basic(ref, v, [('i', k)] + [('s', ZERO, ONE, x) for x in v.shape[1:]], st, n))
        if type(v) is Opq and getattr(v, 'kind_', '') == 'file' and not getattr(v, 'text', False):
            ls = self.lines(v, st)
            return PIter(num(3), lambda k: ls[k.a[0]] if k.op == 'num' else unk('line'), list(ls))
        if type(v) is PDict:
            ks = [string(a) for a, _ in self.dcontent(v, st).items]
            return PIter(num(len(ks)), lambda k: ks[k.a[0]] if k.op == 'num' else unk('key'), ks)
        return None

    def pick(self, vals, k, st, n):
        """element of a concrete sequence at a symbolic position"""
        r = None
        for i in range(len(vals) - 1, -1, -1):
            x = vals[i]
            r = x if r is None else self.pick2(eq(k, num(i)), x, r, st, n)
        return r if r is not None else unk('empty sequence')

    def pick2(self, c, a, b, st, n):
        if type(a) is Vec and type(b) is Vec and len(a.v) == len(b.v):
            return Vec([self.pick2(c, x, y, st, n) for x, y in zip(a.v, b.v)], 'tuple', newgen())
        return self.merge_val(c, self.val(a, st), self.val(b, st))

    # ================================================================ expressions
    def pv(self, e, st):
        m = getattr(self, 'p_' + type(e).__name__, None)
        n = {'l': getattr(e, 'lineno', 0)}
        if m is None:
            self.gap('expression ' + type(e).__name__, n)
            return unk('expression ' + type(e).__name__)
        return m(e, st, n)

    def p_Constant(self, e, st, n):
        v = e.value
        if v is None:
            return PNONE
        if v is True:
            return TRUE
        if v is False:
            return FALSE
        if v is Ellipsis:
            return Opq('Ellipsis')
        if isinstance(v, int):
            return num(v)
        if isinstance(v, float):
            import math
            if v == math.pi:
                return PI
            if v == 2 * math.pi:
                return mul(num(2), PI)
            return num(Fraction(repr(v))) if v == v and abs(v) != float('inf') else unk('constant')
        if isinstance(v, str):
            return string(v)
        return unk('constant')

    def p_Name(self, e, st, n):
        return self.name(e.id, st, n)

    def p_NamedExpr(self, e, st, n):
        v = self.pv(e.value, st)
        self.bind(e.target.id, v, st, n)
        return v

    def p_Attribute(self, e, st, n):
        o = self.pv(e.value, st)
        return self.attr(o, e.attr, st, n)

    def attr(self, o, a, st, n):
        if type(o) is PMod:
            if o.path.startswith('package:'):
                return self.mod_name(o.path[8:], a, st, n)
            p = o.path + '.' + a
            if p in ('numpy.pi', 'math.pi'):
                return PI
            if p == 'numpy.newaxis':
                return PNONE
            if p == 'math.tau':
                return mul(num(2), PI)
            if p == 'sys.argv':
                k = ('g', 'argv')
                return st.s[k] if k in st.s else unk('sys.argv')
            return PMod(p)
        v = self.val(o, st) if type(o) is not Obj else o
        if type(v) is Obj:
            key = ('o', v.oid, a)
            if key in st.s:
                x = st.s[key]
                self.share(key, None, 'r', n, st)
                return LV(key) if type(x) in (Arr, Vec) else x
            return Bound(v, a)
        if type(v) is Arr:
            if a == 'shape':
                return Vec(v.shape, 'tuple', newgen())
            if a == 'T':
                return self.transpose(o if type(o) in (LV, View) else v, v)
            if a == 'size':
                return self.size_of(v)
            if a == 'ndim':
                return num(v.rank)
            return Bound(o, a)
        return Bound(o, a)

    def transpose(self, o, v):
        r = v.rank
        return self.subview(o, v, r, tuple(reversed(v.shape)), lambda i: tuple(reversed(i)), lambda b: (TRUE, tuple(reversed(b))))

    def p_Tuple(self, e, st, n):
        return Vec(self.elems(e.elts, st, n), 'tuple', newgen())

    def p_List(self, e, st, n):
        return self.mklist(self.elems(e.elts, st, n), st)

    def p_Set(self, e, st, n):
        return self.call_lib('builtins.set', [self.mklist(self.elems(e.elts, st, n), st)], {}, st, n)

    def elems(self, es, st, n):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                it = self.iterable(self.pv(x.value, st), st, n)
                if it is not None and it.known is not None:
                    out += it.known
                else:
                    self.gap('starred', n)
                    out.append(unk('starred'))
            else:
                out.append(self.pv(x, st))
        return out

    def p_Dict(self, e, st, n):
        items = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.pv(v, st)
                if type(d) is PDict:
                    for a, b in self.dcontent(d, st).items:
                        items = [(x, y) for x, y in items if x != a] + [(a, b)]
                else:
                    self.gap('dict spread', n)
                continue
            kk = self.dkey(self.val(self.pv(k, st), st))
            items = [(x, y) for x, y in items if x != kk] + [(kk, self.pv(v, st))]
        return self.mkdict(items, st)

    def dkey(self, k):
        if type(k) is T and k.op == 'str':
            return k.a[0]
        if type(k) is T and k.op == 'num':
            return k.a[0]
        return k if type(k) is T else repr(k)

    def p_JoinedStr(self, e, st, n):
        fmt, vals = '', []
        for x in e.values:
            if isinstance(x, ast.Constant):
                fmt += str(x.value).replace('{', '{{').replace('}', '}}')
            else:
                spec = ''
                if x.format_spec is not None:
                    if all(isinstance(y, ast.Constant) for y in x.format_spec.values):
                        spec = ':' + ''.join(y.value for y in x.format_spec.values)
                    else:
                        return unkstr('format')
                conv = {115: '!s', 114: '!r', 97: '!a'}.get(x.conversion, '')
                fmt += '{%s%s}' % (conv, spec)
                vals.append(self.val(self.pv(x.value, st), st))
        return self.pyfmt(fmt, vals, n)

    def pyfmt(self, fmt, vals, n):
        vals = [v if type(v) is not Choice else v for v in vals]
        if not all(type(v) is T for v in vals):
            return unkstr('format')
        if not vals and '{' not in fmt and '}' not in fmt:
            return string(fmt)
        if fmt.replace('{}', '') .find('{') < 0 and fmt.find('}}') < 0 and vals and all(is_str(v) for v in vals):
            parts = fmt.split('{}')
            out = [string(parts[0])]
            for v, p in zip(vals, parts[1:]):
                out += [v, string(p)]
            return cat(*[x for x in out if x is not string('')]) if len(out) > 1 else out[0]
        r = fn('pyfmt', string(fmt), *vals)
        r.kind = 'string'
        return r

    def p_IfExp(self, e, st, n):
        c = self.truth_(self.pv(e.test, st), st, n)
        d = self.decide(c, st)
        if d is True:
            return self.pv(e.body, st)
        if d is False:
            return self.pv(e.orelse, st)
        s1, s2 = st.fork(c), st.fork(not_(c))
        r1 = r2 = None
        try:
            r1 = self.pv(e.body, s1)
        except Dead:
            pass
        try:
            r2 = self.pv(e.orelse, s2)
        except Dead:
            pass
        if r1 is None and r2 is None:
            raise Dead()
        if r1 is None or r2 is None:
            st.become(s2 if r1 is None else s1)
            return r2 if r1 is None else r1
        if type(r1) in (LV, View) and type(r2) in (LV, View) and r1 is not r2:
            r1, r2 = self.val(r1, s1), self.val(r2, s2)
        m, _ = self.merge(s1, s2)
        st.become(m)
        return self.merge_val(c, r1, r2)

    def p_BoolOp(self, e, st, n):
        isand = isinstance(e.op, ast.And)
        v = self.pv(e.values[0], st)
        for x in e.values[1:]:
            c = self.truth_(v, st, n)
            d = self.decide(c, st)
            if d is not None:
                if d is not isand:
                    return v
                v = self.pv(x, st)
                continue
            s1 = st.fork(c if isand else not_(c))
            s2 = st.fork(not_(c) if isand else c)
            try:
                w = self.pv(x, s1)
            except Dead:
                st.become(s2)
                v = FALSE if isand else TRUE
                continue
            cw = self.truth_(w, s1, n)
            same = s1.s.keys() == s2.s.keys() and all(s1.s[k] is s2.s[k] for k in s1.s)
            if not same or len(s1.pc) != len(s2.pc):
                m, _ = self.merge(s1, s2)
                st.become(m)
            tv = type(v) is T and is_bool(v)
            v = (and_(c, cw) if isand else or_(c, cw)) if tv or type(w) is T and is_bool(w) else (self.merge_val(c, w, v) if isand else self.merge_val(c, v, w))
        return v

    def p_UnaryOp(self, e, st, n):
        v = self.val(self.pv(e.operand, st), st)
        if isinstance(e.op, ast.Not):
            return not_(self.truth_(v, st, n))
        if isinstance(e.op, ast.USub):
            return self.bc(lambda x: neg(self.num_(x)), [v], st, n)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert) and (type(v) is Arr and v.ety == 'bool'):
            return self.bc(lambda x: not_(truth(x)), [v], st, n)
        self.gap('unary operator', n)
        return unk('unary operator')

    def p_BinOp(self, e, st, n):
        a = self.val(self.pv(e.left, st), st)
        b = self.val(self.pv(e.right, st), st)
        return self.binop(BIN.get(type(e.op).__name__, '?'), a, b, st, n)

    def binop(self, op, a, b, st, n):
        if type(a) is Choice and type(b) is not Arr:
            return self.merge_val(a.c, self.binop(op, self.val(a.a, st), b, st, n), self.binop(op, self.val(a.b, st), b, st, n))
        if op == '%' and is_str(a):
            vs = [self.val(x, st) for x in b.v] if type(b) is Vec else [b]
            if all(type(v) is T for v in vs):
                r = fn('pypct', a, *vs)
                r.kind = 'string'
                return r
            return unkstr('format')
        if op == '+' and (is_str(a) or is_str(b)):
            if type(a) is T and type(b) is T:
                return cat(a, b)
            return unkstr('concatenation')
        if type(a) is PList and type(b) is PList and op == '+':
            x, y = self.lcontent(a, st), self.lcontent(b, st)
            if type(x) is Vec and type(y) is Vec:
                return self.mklist(x.v + y.v, st)
        if type(a) is Vec and type(b) is Vec and op == '+':
            return Vec(a.v + b.v, 'tuple', newgen())
        if type(a) is PList and op == '*' and type(b) is T:
            x = self.lcontent(a, st)
            if type(x) is Vec and b.op == 'num':
                return self.mklist(x.v * int(b.a[0]), st)
        if op == '@':
            return self.pymatmul(a, b, st, n)
        if type(a) in (PList, Vec) and type(b) is Arr:
            a = self.to_arr(a, st, n)
        if type(b) in (PList, Vec) and type(a) is Arr:
            b = self.to_arr(b, st, n)
        if type(a) not in (T, Arr) or type(b) not in (T, Arr):
            self.gap('operator %s on %s and %s' % (op, type(a).__name__, type(b).__name__), n)
            return unk('operator')

        def f(x, y):
            return self.scalar_op(op, x, y, st, n)
        return self.bc(f, [a, b], st, n, op)

    def scalar_op(self, op, x, y, st, n):
        if op in ('&', '|', '^') and is_bool(x) and is_bool(y):
            return and_(x, y) if op == '&' else or_(x, y) if op == '|' else or_(and_(x, not_(y)), and_(y, not_(x)))
        x, y = self.num_(x), self.num_(y)
        if op == '+':
            return add(x, y)
        if op == '-':
            return sub(x, y)
        if op == '*':
            return mul(x, y)
        if op == '/':
            self.emit('fdiv', n, st, den=y)
            return div(x, y)
        if op in ('%', '//'):
            if y.op == 'num' and isinstance(y.a[0], int) and y.a[0] > 0 or True:
                m = self.pymod(x, y, st)
                return m if op == '%' else idiv(sub(x, m), y)
        if op == '**':
            if y.op == 'num' and isinstance(y.a[0], int) and 0 <= y.a[0] <= 8:
                r = ONE
                for _ in range(y.a[0]):
                    r = mul(r, x)
                return r
            if y.op == 'num' and y.a[0] == Fraction(1, 2):
                return fn('sqrt', x)
            return fn('pow', x, y)
        r = fn('bits' + op, x, y)
        r.kind = 'int'
        return r

    def pymod(self, x, y, st):
        if self.decide(le(ZERO, x), st) is True:
            return imod(x, y)
        return imod(add(imod(x, y), y), y)

    def bc(self, f, xs, st, n, op=None):
        """elementwise application with broadcasting"""
        if any(type(x) is Choice for x in xs):
            i = next(i for i, x in enumerate(xs) if type(x) is Choice)
            c = xs[i]
            return self.merge_val(c.c, self.bc(f, xs[:i] + [self.val(c.a, st)] + xs[i + 1:], st, n, op), self.bc(f, xs[:i] + [self.val(c.b, st)] + xs[i + 1:], st, n, op))
        arrs = [x for x in xs if type(x) is Arr]
        if not arrs:
            if all(type(x) is T for x in xs):
                return f(*xs)
            self.gap('elementwise operation', n)
            return unk('elementwise operation')
        if not all(type(x) in (T, Arr) for x in xs):
            self.gap('elementwise operation', n)
            return unk('elementwise operation')
        r = max(a.rank for a in arrs)
        shape = []
        for ax in range(r):
            d = ONE
            for a in arrs:
                j = ax - (r - a.rank)
                if j < 0:
                    continue
                s = a.shape[j]
                if s is ONE:
                    continue
                if d is ONE:
                    d = s
                elif d is not s:
                    self.emit('shape', n, st, a=d, b=s)
            shape.append(d)
        shape = tuple(shape)
        fs = formals(shape)
        vals = []
        for x in xs:
            if type(x) is T:
                vals.append(x)
            else:
                off = r - x.rank
                vals.append(self.rd(x, tuple(ZERO if x.shape[j] is ONE and shape[off + j] is not ONE else fs[off + j] for j in range(x.rank))))
        body = f(*vals)
        ety = 'bool' if is_bool(body) else 'int' if op not in ('/', None) and all(a.ety in ('int', 'bool') for a in arrs) and all(
            x.kind == 'int' or x.op == 'num' and isinstance(x.a[0], int) for x in xs if type(x) is T) else 'real'
        return Arr(r, shape, ExprDef(fs, body), newgen(), ety)

    def p_Compare(self, e, st, n):
        a = self.pv(e.left, st)
        out = None
        for op, x in zip(e.ops, e.comparators):
            b = self.pv(x, st)
            c = self.cmp1(op, a, b, st, n)
            out = c if out is None else (self.bc(lambda p, q: and_(truth(p), truth(q)), [out, c], st, n) if type(out) is Arr or type(c) is Arr else and_(out, c))
            a = b
        return out

    def cmp1(self, op, a, b, st, n):
        o = type(op).__name__
        if o in ('Is', 'IsNot'):
            r = self.same_obj(a, b, st)
            return r if o == 'Is' else not_(r)
        if o in ('In', 'NotIn'):
            r = self.contains(a, b, st, n)
            return r if o == 'In' else not_(r)
        a, b = self.val(a, st), self.val(b, st)
        if o in ('Eq', 'NotEq') and (a is PNONE or b is PNONE or type(a) in (Obj, Handle, PMod) or type(b) in (Obj, Handle, PMod)):
            r = self.same_obj(a, b, st)
            return r if o == 'Eq' else not_(r)
        if type(a) is PList:
            a = self.lcontent(a, st)
        if type(b) is PList:
            b = self.lcontent(b, st)
        if type(a) is Vec and type(b) is Vec and o in ('Eq', 'NotEq'):
            if len(a.v) != len(b.v):
                r = FALSE
            else:
                r = and_(*[self.cmp1(ast.Eq(), x, y, st, n) for x, y in zip(a.v, b.v)])
            return r if o == 'Eq' else not_(r)
        if type(a) is Vec and type(b) is Arr:
            a = self.to_arr(a, st)
        if type(b) is Vec and type(a) is Arr:
            b = self.to_arr(b, st)
        if type(a) is Arr and type(b) is Vec and not b.v:
            r = eq(a.shape[0], ZERO)
            return r if o == 'Eq' else not_(r)

        def f(x, y):
            if is_str(x) or is_str(y):
                if x.op == 'str' and y.op == 'str':
                    r = TRUE if {'Eq': x.a[0] == y.a[0], 'NotEq': x.a[0] != y.a[0]}.get(o, False) else FALSE
                    return r
                return fn_bool('str' + CMP[o], x, y)
            if is_str(x) != is_str(y) and o in ('Eq', 'NotEq'):
                return FALSE if o == 'Eq' else TRUE
            return self.compare(CMP[o], x, y, n)
        if type(a) in (T, Arr, Choice) and type(b) in (T, Arr, Choice):
            return self.bc(f, [a, b], st, n)
        self.gap('comparison', n)
        return unkbool('comparison')

    def same_obj(self, a, b, st):
        if type(a) is Choice:
            return ite_bool(a.c, self.same_obj(a.a, b, st), self.same_obj(a.b, b, st))
        if type(b) is Choice:
            return self.same_obj(b, a, st)
        if a is PNONE or b is PNONE:
            return TRUE if a is b else FALSE
        if type(a) is T and type(b) is T:
            if is_bool(a) and is_bool(b):
                return or_(and_(a, b), and_(not_(a), not_(b)))
            return eq(a, b)
        if type(a) is type(b) and type(a) in (Obj, PList, PDict, LV, PMod):
            return TRUE if (a == b if type(a) is not Obj else a.oid == b.oid) else FALSE
        return FALSE if type(a) is not type(b) else TRUE if a is b else FALSE

    def contains(self, a, b, st, n):
        it = self.iterable(b, st, n)
        if it is not None:
            if it.known is not None:
                return or_(*[truth(self.cmp1(ast.Eq(), a, x, st, n)) for x in it.known])
            v = bv('k', ZERO, it.size)
            return exists(v, ZERO, it.size, self.cmp1(ast.Eq(), a, it.at(v), st, n))
        return unkbool('membership')

    # ---------------------------------------------------------------- comprehension
    def p_ListComp(self, e, st, n):
        p = self.mklist([], st)
        names = set()
        for g in e.generators:
            from .pyfe import names_of
            names |= names_of(g.target)

        def build(i):
            if i == len(e.generators):
                return {'k': 'PyAppend', 'list': p, 'v': e.elt, 'l': n['l']}
            g = e.generators[i]
            b = build(i + 1)
            for c in reversed(g.ifs):
                b = {'k': 'IfStmt', 'cond': {'k': 'PyExpr', 'e': c, 'l': n['l']}, 'then': b, 'else': None, 'l': n['l']}
            from .pyfe import names_of
            return {'k': 'PyFor', 'target': g.target, 'iter': g.iter, 'body': b, 'orelse': None, 'kill': names_of(g.target), 'l': n['l']}
        fr = self.pyframe(self.frame.fn['qn'], self.frame.mod, self.frame)
        self.frames.append(fr)
        try:
            ok = self.exec(build(0), st)
        finally:
            self.frames.pop()
            self.drop_frame(st, fr)
        if not ok:
            raise Dead()
        return p

    p_GeneratorExp = p_ListComp

    def x_PyAppend(self, n, st):
        self.append(n['list'], self.pv(n['v'], st), st, n)
        return True

    def p_SetComp(self, e, st, n):
        return self.call_lib('builtins.set', [self.p_ListComp(e, st, n)], {}, st, n)

    def p_Lambda(self, e, st, n):
        return PFn(e, self.frame.mod, self.frame, '<lambda>')

    def p_Starred(self, e, st, n):
        self.gap('starred', n)
        return unk('starred')

    # ---------------------------------------------------------------- subscripts
    def p_Slice(self, e, st, n):
        return PSlice(*[None if x is None else self.val(self.pv(x, st), st) for x in (e.lower, e.upper, e.step)])

    def p_Subscript(self, e, st, n):
        o = self.pv(e.value, st)
        ix = self.pv(e.slice, st)
        return self.getitem(o, ix, st, n)

    def getitem(self, o, ix, st, n):
        v = self.val(o, st)
        if type(v) is PDict:
            k = self.dkey(self.val(ix, st))
            r = self.dcontent(v, st).get(k)
            if r is None:
                self.gap('missing key', n)
                return unk('missing key')
            return r
        if type(v) is Choice:
            return self.merge_val(v.c, self.val(self.getitem(v.a, ix, st, n), st), self.val(self.getitem(v.b, ix, st, n), st))
        if is_str(v):
            return self.substr(v, ix, st, n)
        if type(v) is PList:
            c = self.lcontent(v, st)
            if type(c) is Arr:
                return self.list_item(c, ix, st, n)
            v = c
        if type(v) is Vec:
            if type(ix) is PSlice:
                sl = []
                for x in (ix.lo, ix.hi, ix.step):
                    if x is None or x is PNONE:
                        sl.append(None)
                    elif type(x) is T and x.op == 'num':
                        sl.append(int(x.a[0]))
                    else:
                        self.gap('slice of a list', n)
                        return unk('slice')
                vals = v.v[slice(*sl)]
                return Vec(vals, 'tuple', newgen()) if v.ety == 'tuple' else self.mklist(vals, st)
            k = self.val(ix, st)
            if type(k) is T and k.op == 'num':
                i = k.a[0]
                if -len(v.v) <= i < len(v.v):
                    return v.v[i]
                self.maybe_throw(TRUE, 'IndexError', string(''), st, n)
            if type(k) is T:
                return self.pick(list(v.v), k, st, n)
            self.gap('list index', n)
            return unk('list index')
        if type(v) is not Arr:
            self.gap('subscript of %s' % type(v).__name__, n)
            return unk('subscript')
        if v.std:
            return self.list_item(v, ix, st, n)
        return self.array_item(o, v, ix, st, n)

    def list_item(self, v, ix, st, n):
        m = v.shape[0]
        if type(ix) is PSlice:
            spec = self.slice_spec(ix, m, st, n)
            if spec is None:
                return unk('slice')
            lo, step, cnt = spec
            fs = formals((cnt,))
            return Arr(1, (cnt,), ExprDef(fs, self.kindit2(self.rd(v, (add(lo, mul(step, fs[0])),)), v)), newgen(), v.ety, False, True)
        k = self.val(ix, st)
        if type(k) is not T:
            self.gap('list index', n)
            return unk('list index')
        k = self.pos(k, m, st)
        self.maybe_throw(not_(and_(le(ZERO, k), lt(k, m))), 'IndexError', string('list index out of range'), st, n)
        return self.kindit2(self.rd(v, (k,)), v)

    def kindit2(self, t, v):
        if t.kind is None and v.ety in ('string', 'int', 'bool') and t.op in ('elem', 'rec', 'fn'):
            t.kind = v.ety
        return t

    def pos(self, k, m, st):
        if k.op == 'num':
            return k if k.a[0] >= 0 else add(m, k)
        if self.decide(le(ZERO, k), st) is True or k.op == 'bv':
            return k
        if self.decide(lt(k, ZERO), st) is True:
            return add(m, k)
        return ite(lt(k, ZERO), add(k, m), k)

    def slice_spec(self, s, m, st, n):
        step = ONE if s.step is None or s.step is PNONE else s.step
        lo = None if s.lo is None or s.lo is PNONE else s.lo
        hi = None if s.hi is None or s.hi is PNONE else s.hi
        if type(step) is T and step.op == 'num' and step.a[0] == -1 and lo is None and hi is None:
            return sub(m, ONE), num(-1), m
        for x in (lo, hi, step):
            if x is not None and type(x) is not T:
                self.gap('slice bounds', n)
                return None
        if step.op == 'num' and step.a[0] <= 0:
            self.gap('slice step', n)
            return None

        def clip(k):
            k = self.pos(k, m, st)
            if k is ZERO or k is m:
                return k
            if self.decide(le(k, m), st) is not True:
                k = fn('min', k, m)
                k.kind = 'int'
            if self.decide(le(ZERO, k), st) is not True:
                k = fn('max', ZERO, k)
                k.kind = 'int'
            return k
        lo = ZERO if lo is None else clip(lo)
        hi = m if hi is None else clip(hi)
        cnt = sub(hi, lo)
        if lo is not ZERO and self.decide(le(lo, hi), st) is not True:
            cnt = fn('max', ZERO, cnt)
            cnt.kind = 'int'
        if step is not ONE:
            cnt = idiv(add(cnt, sub(step, ONE)), step)
        return lo, step, cnt

    def index_spec(self, v, ix, st, n):
        items = list(ix.v) if type(ix) is Vec and ix.ety == 'tuple' else [ix]
        items = [x if type(x) is PSlice else self.val(x, st) for x in items]
        nreal = sum(1 for x in items if x is not PNONE and not (type(x) is Opq and x.why == 'Ellipsis'))
        out = []
        ax = 0
        for x in items:
            if x is PNONE:
                out.append(('n',))
                continue
            if type(x) is Opq and x.why == 'Ellipsis':
                for _ in range(v.rank - nreal):
                    out.append(('s', ZERO, ONE, v.shape[ax]))
                    ax += 1
                continue
            if ax >= v.rank:
                return None
            if type(x) is PSlice:
                sp = self.slice_spec(x, v.shape[ax], st, n)
                if sp is None:
                    return None
                out.append(('s',) + sp)
                ax += 1
            elif type(x) is T and not is_str(x):
                out.append(('i', self.pos(x, v.shape[ax], st)))
                ax += 1
            else:
                a = self.to_arr(x, st, n)
                if type(a) is not Arr:
                    return None
                if a.ety == 'bool':
                    out.append(('m', a))
                    ax += a.rank
                else:
                    out.append(('f', a))
                    ax += 1
        while ax < v.rank:
            out.append(('s', ZERO, ONE, v.shape[ax]))
            ax += 1
        return out

    def array_item(self, o, v, ix, st, n):
        sp = self.index_spec(v, ix, st, n)
        if sp is None:
            self.gap('array index', n)
            return unk('array index')
        kinds = {x[0] for x in sp}
        if 'm' in kinds:
            self.gap('mask selection', n)
            return Arr(v.rank, tuple(sym('mask.n%d' % newgen()) for _ in v.shape), UnkDef(v.rank, 'mask selection'), newgen(), v.ety)
        if 'f' in kinds:
            fa = [x[1] for x in sp if x[0] == 'f']
            r = max(a.rank for a in fa)
            pos = next(i for i, x in enumerate(sp) if x[0] == 'f')
            if any(x[0] == 'n' for x in sp) or r != min(a.rank for a in fa):
                self.gap('fancy index', n)
                return unk('fancy index')
            shape = []
            for i, x in enumerate(sp):
                if i == pos:
                    shape += list(fa[0].shape)
                elif x[0] == 's':
                    shape.append(x[3])
            fs = formals(tuple(shape))
            idx = []
            j = 0
            ff = None
            for i, x in enumerate(sp):
                if i == pos:
                    ff = fs[j:j + r]
                    j += r
                if x[0] == 'f':
                    idx.append(x[1])
                elif x[0] == 'i':
                    idx.append(x[1])
                else:
                    idx.append(add(x[1], mul(x[2], fs[j])))
                    j += 1
            idx = [self.rd(x, ff) if type(x) is Arr else x for x in idx]
            return Arr(len(fs), tuple(shape), ExprDef(fs, self.rd(v, tuple(idx))), newgen(), v.ety)
        for x, s in zip([y for y in sp if y[0] != 'n'], v.shape):
            if x[0] == 'i':
                self.emit('acc', n, st, rw='r', key=o.key if type(o) is LV else None, idx=(x[1],), shape=(s,), d=v.d, std=False)
        if all(x[0] == 'i' for x in sp):
            return self.kindit2(self.rd(v, tuple(x[1] for x in sp)), v)
        return self.basic(o, v, sp, st, n)

    def basic(self, o, v, sp, st, n):
        shape = tuple(x[3] if x[0] == 's' else ONE for x in sp if x[0] != 'i')

        def fwd(i):
            out = []
            j = 0
            for x in sp:
                if x[0] == 'i':
                    out.append(x[1])
                elif x[0] == 's':
                    out.append(add(x[1], mul(x[2], i[j])) if x[1] is not ZERO or x[2] is not ONE else i[j])
                    j += 1
                else:
                    j += 1
            return tuple(out)

        def inv(b):
            cs, out = [], []
            j = 0
            for x in sp:
                if x[0] == 'i':
                    cs.append(eq(b[j], x[1]))
                    j += 1
                elif x[0] == 's':
                    k = sub(b[j], x[1])
                    if x[2] is ONE:
                        cs += [le(x[1], b[j]), lt(k, x[3])] if x[1] is not ZERO or x[3] is not v.shape[j] else []
                        out.append(k)
                    elif x[2].op == 'num' and x[2].a[0] == -1:
                        out.append(sub(x[1], b[j]))
                    else:
                        cs += [le(x[1], b[j]), eq(imod(k, x[2]), ZERO), lt(idiv(k, x[2]), x[3])]
                        out.append(idiv(k, x[2]))
                    j += 1
                else:
                    out.append(ZERO)
            return and_(*cs), tuple(out)
        return self.subview(o if type(o) in (LV, View) else v, v, len(shape), shape, fwd, inv)

    def store_sub(self, t, v, st, n):
        o = self.pv(t.value, st)
        ix = self.pv(t.slice, st)
        b = self.val(o, st)
        if type(b) is PDict:
            st.s[('g', 'pd', b.uid)] = self.dcontent(b, st).put(self.dkey(self.val(ix, st)), v)
            return
        if type(b) is PList:
            c = self.lcontent(b, st)
            k = self.val(ix, st)
            if type(c) is Vec and type(k) is T and k.op == 'num' and -len(c.v) <= k.a[0] < len(c.v):
                xs = list(c.v)
                xs[k.a[0]] = v
                st.s[('g', 'pl', b.uid)] = Vec(xs, None, c.gen)
            else:
                self.gap('list store', n)
                st.s[('g', 'pl', b.uid)] = Opq('list')
            return
        if type(b) is not Arr or type(o) not in (LV, View):
            self.gap('store into %s' % type(b).__name__, n)
            return
        sp = self.index_spec(b, ix, st, n)
        w = self.val(v, st)
        if type(w) in (PList, Vec):
            w = self.to_arr(w, st, n)
        if sp is None or any(x[0] == 'f' for x in sp):
            self.gap('indexed store', n)
            self.write_def(o, UnkDef(b.rank, 'indexed store'), st, n)
            return
        if any(x[0] == 'm' for x in sp):
            if len([x for x in sp if x[0] == 'm']) == 1 and sp[0][0] == 'm' and all(x[0] == 's' and x[1] is ZERO and x[2] is ONE for x in sp[1:]) and type(w) is T:
                mask = sp[0][1]
                base_lv = LV(o.key) if type(o) is LV else o.base
                base = st.s[base_lv.key]
                fs = formals(base.shape)
                if type(o) is LV:
                    c, vi = TRUE, fs
                else:
                    c, vi = o.inv(fs)
                for x, y in zip(mask.shape, b.shape):
                    if x is not y:
                        self.emit('shape', n, st, a=x, b=y)
                self.share(base_lv.key, None, 'w', n, st)
                st.s[base_lv.key] = base.w(d=UpdDef(base.d, fs, and_(c, truth(self.rd(mask, vi[:mask.rank]))), self.num_(w), (self.site(n),)))
                self.touch(base_lv.key, n, st)
                return
            self.gap('masked store', n)
            self.write_def(o, UnkDef(b.rank, 'masked store'), st, n)
            return
        view = self.basic(o, b, sp, st, n)
        if type(view) is View and view.rank and type(w) is Arr:
            w = self.fit(w, view.shape, st, n)
        if type(view) is View and not view.rank and type(w) is Arr and w.rank == 0:
            w = self.rd(w, ())
        self.write(view, w, st, n)

    def write_def(self, o, d, st, n):
        key = o.key if type(o) is LV else o.base.key
        st.s[key] = st.s[key].w(d=d if d.rank == st.s[key].rank else UnkDef(st.s[key].rank, 'store'))
        self.touch(key, n, st)

    # ================================================================ calls
    def p_Call(self, e, st, n):
        fv = self.pv(e.func, st)
        args = self.elems(e.args, st, n)
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.pv(k.value, st)
                if type(d) is PDict:
                    for a, b in self.dcontent(d, st).items:
                        kw[a] = b
                else:
                    self.gap('keyword spread', n)
                    kw['**'] = unk('keyword spread')
            else:
                kw[k.arg] = self.pv(k.value, st)
        return self.call(fv, args, kw, st, n)

    def call(self, fv, args, kw, st, n):
        if type(fv) is PFn:
            return self.call_py(fv, args, kw, st, n)
        if type(fv) is PMod:
            return self.call_lib(fv.path, args, kw, st, n)
        if type(fv) is Bound:
            return self.call_method(fv.obj, fv.name, args, kw, st, n)
        if type(fv) is Choice:
            self.gap('conditional callee', n)
        else:
            self.gap('call of %s' % type(fv).__name__, n)
        return unk('call')

    def call_py(self, f, args, kw, st, n):
        if self.depth > 20 or sum(1 for fr in self.frames if getattr(fr, 'node', None) is f.node) > 1:
            self.gap('recursion', n)
            return unk('recursion')
        fr = self.pyframe('%s.%s' % (f.mod, f.name), f.mod, f.parent)
        fr.node = f.node
        self.fnseen.add('%s.%s' % (f.mod, f.name))
        a = f.node.args
        pos = list(a.posonlyargs) + list(a.args)
        vals = {}
        if len(args) > len(pos) and a.vararg is None:
            self.maybe_throw(TRUE, 'TypeError', string('arguments'), st, n)
        for p, v in zip(pos, args):
            vals[p.arg] = v
        if a.vararg is not None:
            vals[a.vararg.arg] = Vec(args[len(pos):], 'tuple', newgen())
        extra = []
        names = [p.arg for p in pos + list(a.kwonlyargs)]
        for k, v in kw.items():
            if k in names:
                vals[k] = v
            else:
                extra.append((k, v))
        defs = {}
        for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            defs[p.arg] = d
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defs[p.arg] = d
        if a.kwarg is not None:
            vals[a.kwarg.arg] = self.mkdict(extra, st)
        elif extra:
            self.maybe_throw(TRUE, 'TypeError', string('unexpected keyword argument'), st, n)
        self.depth += 1
        old = self.sink
        self.sink = []
        try:
            self.frames.append(fr)
            try:
                for nm in names:
                    if nm not in vals:
                        if nm not in defs:
                            self.maybe_throw(TRUE, 'TypeError', string('missing argument'), st, n)
                        vals[nm] = self.pv(defs[nm], st)
                for nm, v in vals.items():
                    key = ('v', fr.uid, nm)
                    fr.ids[nm] = key
                    st.s[key] = v if v is not NONE else PNONE
                if isinstance(f.node, ast.Lambda):
                    v = self.escape(self.pv(f.node.body, st), st)
                    self.sink.append(Exit('return', v, st.fork()))
                    alive = False
                else:
                    for x in f.node.decorator_list:
                        self.gap('decorator', n)
                    # every assigned name is local
                    alive = self.exec(self.low.block(f.node.body), st)
            except Dead:
                alive = False
        finally:
            self.frames.pop()
            self.depth -= 1
            exits = self.sink
            self.sink = old
        rets = [x for x in exits if x.kind == 'return']
        for x in exits:
            if x.kind == 'throw':
                self.drop_frame(x.st, fr)
                self.sink.append(x)
        if alive:
            rets.append(Exit('return', PNONE, st.fork()))
        if not rets:
            raise Dead()
        v, s = rets[-1].val, rets[-1].st
        for x in reversed(rets[:-1]):
            a_, b_ = x.val, v
            s, c = self.merge(x.st, s)
            v = a_ if a_ is b_ else self.merge_val(c, a_, b_)
        self.drop_frame(s, fr)
        st.become(s)
        return v

    # ---------------------------------------------------------------- methods
    def call_method(self, o, name, args, kw, st, n):
        if type(o) is PMod:
            return self.call_lib(o.path + '.' + name, args, kw, st, n)
        v = self.val(o, st) if type(o) is not Obj else o
        if type(v) is Choice:
            self.gap('method of a conditional value', n)
            return unk('method')
        if type(v) is Obj:
            m = self.methods.get((v.cls, name)) or self.methods.get((v.cls, '*'))
            if m is not None:
                return m(self, v, name, args, kw, st, n)
            self.gap('method ' + name, n)
            return unk('method ' + name)
        if is_str(v):
            return self.str_method(v, name, args, kw, st, n)
        if type(v) is PList:
            return self.list_method(v, name, args, kw, st, n)
        if type(v) is PDict:
            return self.dict_method(v, name, args, kw, st, n)
        if type(v) is Arr:
            if v.std:
                self.gap('list method ' + name, n)
                return unk('list method')
            if name == 'copy' or name == 'astype' or name in ('view', '__array__'):
                ety = v.ety
                if name == 'astype':
                    ty = self.val(args[0], st)
                    tn = ty.path.split('.')[-1] if type(ty) is PMod else ty.a[0] if type(ty) is T and ty.op == 'str' else ''
                    if 'int' in tn and v.ety == 'real':
                        return self.bc(lambda x: self.trunc(x), [v], st, n, '+').w(ety='int')
                    ety = 'real' if 'float' in tn else 'int' if 'int' in tn else ety
                    if v.ety == 'bool' and ety != 'bool':
                        return self.bc(lambda x: b2i(truth(x)), [v], st, n).w(ety=ety)
                return v.w(gen=newgen(), ety=ety)
            if name == 'tolist':
                return v.w(gen=newgen(), std=True)
            if name == 'fill':
                self.write(o, self.fit(self.val(args[0], st), v.shape, st, n), st, n)
                return PNONE
            if name == 'sort':
                if v.rank == 1:
                    self.write(o, v.w(d=SortDef(v.d, ZERO, v.shape[0])), st, n)
                    return PNONE
            if name in ('max', 'min', 'sum', 'mean', 'argmax', 'argmin', 'argsort', 'any', 'all', 'transpose', 'dot', 'flatten', 'ravel', 'reshape', 'prod', 'nonzero',
                        'std', 'squeeze', 'repeat', 'round', 'conj', 'item'):
                return self.call_lib('numpy.' + name, [o] + args, kw, st, n)
            self.gap('array method ' + name, n)
            return unk('array method')
        if type(v) is Handle or type(v) is Opq:
            if getattr(v, 'kind_', '') == 'file':
                return self.file_method(v, name, args, st, n)
            return self.external(self.hname(v) + '.' + name, args, kw, st, n, recv=v)
        if type(v) is T:
            return v if name in ('item', 'copy', 'conjugate', 'astype') else unk('method')
        if type(v) is Vec:
            self.gap('tuple method', n)
            return unk('tuple method')
        self.gap('method %s of %s' % (name, type(v).__name__), n)
        return unk('method ' + name)

    def hname(self, v):
        return getattr(v, 'name', None) or v.why

    def external(self, path, args, kw, st, n, recv=None):
        """a call that leaves the package: recorded with the values passed"""
        fa = [self.freeze(x, st) for x in args]
        fk = {k: self.freeze(v, st) for k, v in kw.items()}
        e = self.emit('call', n, st, fn=path, args=fa, kw=fk, recv=recv)
        h = Handle('result')
        h.name = path
        h.args, h.kw, h.ev = fa, fk, e
        return h

    def substr(self, v, ix, st, n):
        none = string('')
        if type(ix) is PSlice:
            def b(x):
                x = self.val(x, st) if x is not None else None
                return none if x is None or x is PNONE else x
            p = [b(ix.lo), b(ix.hi), b(ix.step)]
            if not all(type(x) is T for x in p):
                return unkstr('substring')
            r = fn('py.slice', v, *p)
        else:
            k = self.val(ix, st)
            if type(k) is not T:
                return unkstr('substring')
            L = fn('strlen', v)
            self.maybe_throw(not_(and_(le(neg(L), k), lt(k, L))), 'IndexError', string('string index out of range'), st, n)
            r = fn('py.__getitem__', v, k)
        r.kind = 'string'
        return r

    def str_method(self, v, name, args, kw, st, n):
        vals = [self.val(a, st) for a in args]
        if name == 'format' and v.op == 'str' and not kw:
            return self.pyfmt(v.a[0], vals, n)
        if name == 'format' and v.op == 'str':
            import string as S
            fmt, out = '', []
            auto = 0
            for lit, field, spec, conv in S.Formatter().parse(v.a[0]):
                fmt += lit.replace('{', '{{').replace('}', '}}')
                if field is None:
                    continue
                if field == '':
                    x, auto = vals[auto] if auto < len(vals) else unk('format'), auto + 1
                elif field.isdigit():
                    x = vals[int(field)] if int(field) < len(vals) else unk('format')
                else:
                    x = self.val(kw[field], st) if field in kw else unk('format')
                fmt += '{' + ('!' + conv if conv else '') + (':' + spec if spec else '') + '}'
                out.append(x)
            return self.pyfmt(fmt, out, n)
        if name == 'join':
            it = self.iterable(args[0], st, n)
            if it is not None and it.known is not None:
                xs = [self.val(x, st) for x in it.known]
                if all(type(x) is T for x in xs):
                    out = []
                    for i, x in enumerate(xs):
                        out += ([v] if i else []) + [x]
                    return cat(*out) if out else string('')
            return unkstr('join')
        if name in ('strip', 'rstrip', 'lstrip', 'lower', 'upper', 'title') and v.op == 'str' and not vals:
            return string(getattr(v.a[0], name)())
        if name in ('strip', 'rstrip', 'lstrip') and not vals and v.op == 'elem':
            return v        # a whitespace-delimited word
        if name in ('split', 'rsplit', 'partition', 'rpartition', 'splitlines') and not kw and all(type(x) is T for x in vals):
            d = StrSplitDef(name, v, vals)
            arr = Arr(1, (d.length(),), d, newgen(), 'string', False, True)
            if name in ('partition', 'rpartition'):
                return Vec([self.kindit2(elem(d, [num(i)]), arr) for i in range(3)], 'tuple', newgen())
            q = self.mklist([], st)
            st.s[('g', 'pl', q.uid)] = arr
            return q
        if name in ('find', 'count', 'rfind') and all(type(x) is T for x in vals):
            r = fn('py.' + name, v, *vals)
            r.kind = 'int'
            return r
        if name in ('strip', 'lower', 'upper', 'rstrip', 'lstrip', 'replace', 'title', 'capitalize', 'removesuffix', 'removeprefix', 'zfill', 'rjust', 'ljust', 'center',
                    'casefold', 'swapcase', 'expandtabs'):
            r = fn('py.' + name, v, *[x for x in vals if type(x) is T])
            r.kind = 'string'
            return r
        if name in ('startswith', 'endswith', 'isdigit', 'isspace', 'isnumeric', 'isdecimal', 'isalpha', 'isalnum', 'isupper', 'islower'):
            return fn_bool('py.' + name, v, *[x for x in vals if type(x) is T])
        self.gap('string method ' + name, n)
        return unkstr('string method')

    def list_method(self, p, name, args, kw, st, n):
        key = ('g', 'pl', p.uid)
        c = self.lcontent(p, st)
        if name == 'append':
            self.append(p, args[0], st, n)
            return PNONE
        if name == 'extend':
            it = self.iterable(args[0], st, n)
            if it is not None and it.known is not None:
                for x in it.known:
                    self.append(p, x, st, n)
                return PNONE
            b = self.to_arr(args[0], st, n) if type(c) in (Vec, Arr) else None
            a = self.vec2arr(c) if type(c) is Vec and all(type(x) is T for x in c.v) else c
            if type(b) is Arr and b.rank == 1 and type(a) is Arr and a.rank == 1:
                self.emit('lappend', n, st, list=p.uid, val=b)
                self.typed(p, b.ety)
                m = add(a.shape[0], b.shape[0])
                fs = formals((m,))
                st.s[key] = Arr(1, (m,), UpdDef(a.d, fs, le(a.shape[0], fs[0]), elem(b.d, [sub(fs[0], a.shape[0])]), (self.site(n),)), newgen(), b.ety, False, True)
                return PNONE
            if it is not None:
                body = {'k': 'PyExtend', 'list': p, 'l': n['l']}
                self.frames.append(self.pyframe(self.frame.fn['qn'], self.frame.mod, self.frame))
                fr = self.frame
                try:
                    t = ast.Name(id='$x', ctx=ast.Store(), lineno=n['l'])
                    node = {'k': 'PyFor', 'target': t, 'iter': PreVal(it), 'body': {'k': 'PyAppend', 'list': p, 'v': ast.Name(id='$x', ctx=ast.Load(), lineno=n['l']), 'l': n['l']},
                            'orelse': None, 'kill': {'$x'}, 'l': n['l']}
                    self.exec(node, st)
                finally:
                    self.frames.pop()
                    self.drop_frame(st, fr)
                return PNONE
        if name == 'sort' and not args:
            if 'reverse' not in kw and 'key' not in kw:
                a = self.to_arr(c, st, n)
                if type(a) is Arr:
                    st.s[key] = a.w(d=SortDef(a.d, ZERO, a.shape[0]), std=True)
                    return PNONE
        if name == 'copy':
            if type(c) in (Vec, Arr):
                q = self.mklist([], st)
                st.s[('g', 'pl', q.uid)] = c
                return q
        if name == 'pop' and type(c) is Vec and c.v and (not args or (type(args[0]) is T and args[0].op == 'num')):
            i = args[0].a[0] if args else -1
            xs = list(c.v)
            r = xs.pop(i)
            st.s[key] = Vec(xs, None, c.gen)
            return r
        if name == 'insert' and type(c) is Vec and type(args[0]) is T and args[0].op == 'num' and not self.lstack:
            xs = list(c.v)
            xs.insert(args[0].a[0], args[1])
            st.s[key] = Vec(xs, None, c.gen)
            return PNONE
        self.gap('list method ' + name, n)
        if name not in ('index', 'count'):
            st.s[key] = Opq('list')
        return unk('list method')

    def dict_method(self, p, name, args, kw, st, n):
        key = ('g', 'pd', p.uid)
        d = self.dcontent(p, st)
        ks = self.dkey(self.val(args[0], st)) if args and type(args[0]) is T else None
        if name == 'get':
            r = d.get(ks)
            return r if r is not None else (args[1] if len(args) > 1 else PNONE)
        if name == 'setdefault':
            r = d.get(ks)
            if r is None:
                r = args[1] if len(args) > 1 else PNONE
                st.s[key] = d.put(ks, r)
            return r
        if name == 'pop':
            r = d.get(ks)
            st.s[key] = PD([(a, b) for a, b in d.items if a != ks])
            return r if r is not None else (args[1] if len(args) > 1 else PNONE)
        if name == 'update':
            if args and type(args[0]) is PDict:
                for a, b in self.dcontent(args[0], st).items:
                    d = d.put(a, b)
            for a, b in kw.items():
                d = d.put(a, b)
            st.s[key] = d
            return PNONE
        if name == 'copy':
            return self.mkdict(d.items, st)
        if name in ('items', 'keys', 'values'):
            xs = [Vec([string(a) if isinstance(a, str) else a, b], 'tuple', newgen()) if name == 'items' else (string(a) if name == 'keys' else b) for a, b in d.items]
            return PIter(num(len(xs)), lambda k: xs[k.a[0]] if k.op == 'num' else unk('dict'), xs)
        self.gap('dict method ' + name, n)
        return unk('dict method')

    def lines(self, v, st):
        """the documented layout: two or three lines, split at unknown positions"""
        ls = getattr(v, 'lines_', None)
        if ls is None:
            a, b, m = sym('nline1', 'int'), sym('nline2', 'int'), sym('ntok', 'int')
            ends = [ZERO, a, add(a, b), m]
            ls = []
            for i in range(3):
                h = Opq('line')
                h.kind_ = 'file'
                h.text = True
                h.span = (ends[i], ends[i + 1])
                ls.append(h)
            v.lines_ = ls
        return ls

    def file_method(self, v, name, args, st, n):
        if name == 'readlines' or name == 'splitlines' and getattr(v, 'text', False) and not getattr(v, 'span', None):
            return self.mklist(self.lines(v, st), st)
        if name == 'readline':
            if self.lstack:
                self.gap('readline in a loop', n)
                return unk('line')
            key = ('g', 'fpos', id(v))
            i = st.s.get(key, ZERO)
            if type(i) is not T or i.op != 'num' or i.a[0] > 2:
                self.gap('readline', n)
                return unk('line')
            st.s[key] = add(i, ONE)
            return self.lines(v, st)[i.a[0]]
        if name == 'read':
            h = Opq('text')
            h.kind_ = 'file'
            h.text = True
            return h
        if name == 'split' and getattr(v, 'text', False) and not args:
            q = self.tokens(st)
            if getattr(v, 'span', None):
                lo, hi = v.span
                m = sub(hi, lo)
                fs = formals((m,))
                st.s[('g', 'pl', q.uid)] = Arr(1, (m,), ExprDef(fs, elem(self.tokdef(), [add(lo, fs[0])])), newgen(), 'string', False, True)
            return q
        if name in ('close', '__enter__', '__exit__'):
            return PNONE
        if name in ('strip', 'rstrip', 'lstrip') and getattr(v, 'text', False):
            return v
        self.gap('file method ' + name, n)
        return unk('file method')

    def tokens(self, st):
        m = sym('ntok', 'int')
        N.C.facts.lo[m] = [N.p_const(0)]
        self.npy += 1
        p = PList(self.npy)
        st.s[('g', 'pl', p.uid)] = Arr(1, (m,), self.tokdef(), newgen(), 'string', False, True)
        return p

    def tokdef(self):
        if not hasattr(self, '_tok'):
            self._tok = InputDef('tokens', 1, 'string')
        return self._tok

    # ---------------------------------------------------------------- library
    def call_lib(self, path, args, kw, st, n):
        p = path.split('.')
        h = None
        if p[0] in ('numpy', 'math', 'np') and len(p) >= 2:
            h = getattr(self, 'np_' + p[-1], None)
            if p[0] == 'math' and h is None:
                h = getattr(self, 'np_' + p[-1], None)
        elif p[0] == 'builtins':
            h = getattr(self, 'b_' + p[1], None)
            if h is None and (p[1].endswith('Error') or p[1] in ('Exception', 'SystemExit', 'KeyboardInterrupt', 'Warning', 'UserWarning')):
                r = Handle('exception')
                r.exc, r.args = p[1], [self.val(a, st) for a in args]
                return r
        elif path == 'sys.exit':
            v = self.val(args[0], st) if args else ZERO
            self.sink.append(Exit('throw', v, st.fork(), 'SystemExit', self.site(n)))
            raise Dead()
        elif path in ('copy.copy', 'copy.deepcopy'):
            v = self.val(args[0], st)
            return v.w(gen=newgen()) if type(v) is Arr else args[0]
        elif path == 'booz_xform.Booz_xform':
            return self.make_obj(st, n)
        elif path == 'os.path.join' or path.startswith('os.'):
            vs = [self.val(a, st) for a in args]
            if path == 'os.path.join' and all(type(v) is T for v in vs):
                return cat(*sum([[x] if not i else [string('/'), x] for i, x in enumerate(vs)], []))
            return unkstr(path)
        if h is not None and p[0] in ('numpy', 'np') and h.__name__ in UFUNC and (kw or len(args) > UFUNC[h.__name__]):
            if len(args) == UFUNC[h.__name__] + 1 and 'out' not in kw:
                args, kw = args[:-1], dict(kw, out=args[-1])
            # out= stores the result in the given array; other keyword arguments of these functions are not modelled
            o = kw.get('out', PNONE)
            if set(kw) - {'out'}:
                self.gap('keyword argument of ' + path, n)
                if o is not PNONE and type(o) in (LV, View):
                    self.write_def(o, UnkDef(self.val(o, st).rank, 'out='), st, n)
                return unk(path)
            if type(o) is Vec and len(o.v) == 1:
                o = o.v[0]
            if o is PNONE or self.val(o, st) is PNONE:
                return self.call_lib(path, args, {}, st, n)
            v = self.val(o, st)
            if type(o) not in (LV, View) or type(v) is not Arr:
                self.gap('out= of ' + path, n)
                return unk(path)
            r = self.fit(self.val(self.call_lib(path, args, {}, st, n), st), v.shape, st, n)
            self.write(o, r, st, n)
            return o
        if h is not None:
            try:
                r = h(args, kw, st, n)
            except (IndexError, AttributeError, TypeError, ValueError, KeyError) as e:
                self.gap('%s: %s' % (path, e), n)
                return unk(path)
            if r is not NotImplemented:
                return r
            self.gap('call of ' + path, n)
            return unk(path)
        if p[0] in ('numpy', 'math', 'builtins'):
            self.gap('call of ' + path, n)
            return unk(path)
        return self.external(path, args, kw, st, n)

    def make_obj(self, st, n):
        self.gap('new object', n)
        return unk('object')

    # builtins
    def b_len(self, a, kw, st, n):
        v = self.val(a[0], st)
        if type(v) is PDict:
            return num(len(self.dcontent(v, st).items))
        if type(v) is Choice:
            return ite(v.c, self.b_len([v.a], kw, st, n), self.b_len([v.b], kw, st, n))
        if is_str(v):
            return fn('strlen', v)
        it = self.iterable(a[0], st, n)
        return it.size if it is not None else NotImplemented

    def b_range(self, a, kw, st, n):
        xs = [self.val(x, st) for x in a]
        lo, hi, step = (ZERO, xs[0], ONE) if len(xs) == 1 else (xs[0], xs[1], xs[2] if len(xs) > 2 else ONE)
        if not all(type(x) is T for x in (lo, hi, step)):
            return NotImplemented
        if step is ONE:
            size = sub(hi, lo)
        elif step.op == 'num' and step.a[0] > 0 or step.op != 'num':
            size = idiv(add(sub(hi, lo), sub(step, ONE)), step)
        else:
            m = num(-step.a[0])
            size = idiv(add(sub(lo, hi), sub(m, ONE)), m)
        known = None
        if size.op == 'num' and size.a[0] <= 64:
            known = [add(lo, mul(step, num(i))) for i in range(max(0, int(size.a[0])))]
        return PIter(size, lambda k: add(lo, mul(step, k)) if step is not ONE else add(lo, k), known)

    def b_enumerate(self, a, kw, st, n):
        it = self.iterable(a[0], st, n)
        s = self.val(a[1] if len(a) > 1 else kw.get('start', ZERO), st)
        if it is None:
            return NotImplemented
        known = [Vec([add(s, num(i)), x], 'tuple', newgen()) for i, x in enumerate(it.known)] if it.known is not None else None
        return PIter(it.size, lambda k: Vec([add(s, k), it.at(k)], 'tuple', newgen()), known)

    def b_zip(self, a, kw, st, n):
        its = [self.iterable(x, st, n) for x in a]
        if any(i is None for i in its) or not its:
            return NotImplemented
        size = its[0].size
        for i in its[1:]:
            if i.size is not size:
                d = self.decide(le(size, i.size), st)
                if d is True:
                    continue
                size = i.size if self.decide(le(i.size, size), st) is True else fn('min', size, i.size)
                size.kind = 'int'
        known = [Vec(list(x), 'tuple', newgen()) for x in zip(*[i.known for i in its])] if all(i.known is not None for i in its) else None
        return PIter(size, lambda k: Vec([i.at(k) for i in its], 'tuple', newgen()), known)

    def b_map(self, a, kw, st, n):
        its = [self.iterable(x, st, n) for x in a[1:]]
        if any(i is None for i in its):
            return NotImplemented
        f = a[0]
        known = [self.call(f, list(x), {}, st, n) for x in zip(*[i.known for i in its])] if all(i.known is not None for i in its) else None
        return PIter(its[0].size, lambda k: self.call(f, [i.at(k) for i in its], {}, st, n), known)

    def b_reversed(self, a, kw, st, n):
        it = self.iterable(a[0], st, n)
        if it is None:
            return NotImplemented
        return PIter(it.size, lambda k: it.at(sub(sub(it.size, ONE), k)), list(reversed(it.known)) if it.known is not None else None)

    def b_list(self, a, kw, st, n):
        if not a:
            return self.mklist([], st)
        it = self.iterable(a[0], st, n)
        if it is None:
            return NotImplemented
        if it.known is not None:
            return self.mklist(it.known, st)
        i = bv('k', ZERO, it.size)
        x = self.val(it.at(i), st)
        if type(x) is T:
            p = self.mklist([], st)
            v = self.val(a[0], st)
            if type(v) is PList:
                v = self.lcontent(v, st)
            ety = v.ety if type(v) is Arr else x.kind or 'real'
            st.s[('g', 'pl', p.uid)] = v.w(std=True, gen=newgen()) if type(v) is Arr else Arr(1, (it.size,), ExprDef((i,), x), newgen(), ety, False, True)
            return p
        return NotImplemented

    def b_tuple(self, a, kw, st, n):
        if not a:
            return Vec([], 'tuple', newgen())
        it = self.iterable(a[0], st, n)
        if it is not None and it.known is not None:
            return Vec(it.known, 'tuple', newgen())
        return self.b_list(a, kw, st, n)

    def b_dict(self, a, kw, st, n):
        items = []
        if a:
            if type(a[0]) is not PDict:
                return NotImplemented
            items = list(self.dcontent(a[0], st).items)
        d = PD(items)
        for k, v in kw.items():
            d = d.put(k, v)
        return self.mkdict(d.items, st)

    def b_set(self, a, kw, st, n):
        if not a:
            return NotImplemented
        x = self.to_arr(a[0], st, n)
        if type(x) is not Arr or x.rank != 1:
            return NotImplemented
        m = x.shape[0]
        v, w = bv('k', ZERO, m), bv('w', ZERO, m)
        dup = exists(w, ZERO, m, and_(lt(w, v), eq(self.rd(x, (w,)), self.rd(x, (v,)))))
        size = sum_(v, ZERO, m, b2i(not_(dup)))
        return Arr(1, (size,), UniqDef(x.d, m), newgen(), x.ety, False, True)

    b_frozenset = b_set

    def b_sorted(self, a, kw, st, n):
        if 'key' in kw:
            return NotImplemented
        x = self.to_arr(a[0], st, n)
        if type(x) is not Arr or x.rank != 1:
            return NotImplemented
        d = SortDef(x.d, ZERO, x.shape[0])
        if 'reverse' in kw:
            c = self.truth_(kw['reverse'], st, n)
            if c is TRUE:
                fs = formals(x.shape)
                d = ExprDef(fs, elem(d, (sub(sub(x.shape[0], ONE), fs[0]),)))
            elif c is not FALSE:
                return NotImplemented
        p = self.mklist([], st)
        st.s[('g', 'pl', p.uid)] = Arr(1, x.shape, d, newgen(), x.ety, False, True)
        return p

    def b_isinstance(self, a, kw, st, n):
        v = self.val(a[0], st) if type(a[0]) is not Obj else a[0]
        ts = list(a[1].v) if type(a[1]) is Vec else [a[1]]
        r = FALSE
        for t in ts:
            nm = t.path.split('.')[-1] if type(t) is PMod else '?'
            if nm == '?':
                return NotImplemented
            if type(v) is Choice:
                return NotImplemented
            if nm == 'str':
                ok = is_str(v)
            elif nm == 'Booz_xform':
                ok = type(v) is Obj
            elif nm in ('int', 'integer', 'float', 'floating', 'Integral', 'Number'):
                ok = type(v) is T and not is_str(v)
                if ok and nm in ('int', 'integer', 'Integral') and v.kind not in ('int', 'bool') and v.op not in ('num', 'bv'):
                    return NotImplemented
            elif nm == 'list':
                ok = type(v) is PList
            elif nm == 'tuple':
                ok = type(v) is Vec
            elif nm == 'dict':
                ok = type(v) is PDict
            elif nm == 'ndarray':
                ok = type(v) is Arr and not v.std
            elif nm == 'bool':
                ok = type(v) is T and is_bool(v)
            elif nm in ('Path', 'PathLike', 'bytes', 'NoneType'):
                ok = False
            else:
                return NotImplemented
            if ok:
                r = TRUE
        return r

    def b_int(self, a, kw, st, n):
        v = self.val(a[0], st)
        if is_str(v):
            if v.op == 'str':
                try:
                    return num(int(v.a[0]))
                except ValueError:
                    self.maybe_throw(TRUE, 'ValueError', string(''), st, n)
            self.maybe_throw(not_(fn_bool('pyisint', v)), 'ValueError', string(''), st, n)
            r = fn('pyint', v)
            r.kind = 'int'
            return r
        if type(v) is not T:
            return NotImplemented
        if is_bool(v):
            return b2i(v)
        if v.kind == 'int' or v.op in ('bv', 'imod', 'idiv') or v.op == 'num' and isinstance(v.a[0], int):
            return v
        return self.trunc(v)

    def b_float(self, a, kw, st, n):
        v = self.val(a[0], st)
        if is_str(v):
            self.maybe_throw(not_(fn_bool('pyisfloat', v)), 'ValueError', string(''), st, n)
            return fn('pyfloat', v)
        return self.num_(v) if type(v) is T else NotImplemented

    def b_str(self, a, kw, st, n):
        v = self.val(a[0], st)
        if is_str(v):
            return v
        return self.pyfmt('{}', [v], n) if type(v) is T else unkstr('str')

    b_repr = b_str

    def b_bool(self, a, kw, st, n):
        return self.truth_(a[0], st, n)

    def b_print(self, a, kw, st, n):
        self.emit('print', n, st, vals=[self.freeze(x, st) for x in a])
        return PNONE

    def b_open(self, a, kw, st, n):
        v = self.val(a[0], st)
        self.emit('fopen', n, st, name=v, mode=self.val(a[1], st) if len(a) > 1 else string('r'))
        self.maybe_throw(fn_bool('openfail', v if type(v) is T else string('?')), 'FileNotFoundError', string(''), st, n)
        h = Opq('file')
        h.kind_ = 'file'
        return h

    def b_type(self, a, kw, st, n):
        v = self.val(a[0], st) if type(a[0]) is not Obj else a[0]
        if type(v) is Obj:
            return PMod('booz_xform.Booz_xform')
        if is_str(v):
            return PMod('builtins.str')
        return NotImplemented

    def b_any(self, a, kw, st, n):
        it = self.iterable(a[0], st, n)
        if it is None:
            return NotImplemented
        if it.known is not None:
            return or_(*[self.truth_(x, st, n) for x in it.known])
        v = bv('k', ZERO, it.size)
        return exists(v, ZERO, it.size, self.truth_(it.at(v), st, n))

    def b_all(self, a, kw, st, n):
        it = self.iterable(a[0], st, n)
        if it is None:
            return NotImplemented
        if it.known is not None:
            return and_(*[self.truth_(x, st, n) for x in it.known])
        v = bv('k', ZERO, it.size)
        return not_(exists(v, ZERO, it.size, not_(self.truth_(it.at(v), st, n))))

    def b_next(self, a, kw, st, n):
        x = a[0]
        if type(x) is PList:
            c = self.lcontent(x, st)
            if type(c) is Vec:
                if c.v:
                    return c.v[0]
                return a[1] if len(a) > 1 else unk('StopIteration')
            if type(c) is Arr:
                f = self.kindit2(self.rd(c, (ZERO,)), c)
                if len(a) > 1:
                    return self.merge_val(lt(ZERO, c.shape[0]), f, a[1])
                return f
        return NotImplemented

    def b_iter(self, a, kw, st, n):
        return a[0]

    def b_getattr(self, a, kw, st, n):
        nm = self.val(a[1], st)
        if type(nm) is T and nm.op == 'str':
            return self.attr(a[0], nm.a[0], st, n)
        return NotImplemented

    def b_hasattr(self, a, kw, st, n):
        nm = self.val(a[1], st)
        o = self.val(a[0], st) if type(a[0]) is not Obj else a[0]
        if type(o) is Obj and type(nm) is T and nm.op == 'str':
            return TRUE if ('o', o.oid, nm.a[0]) in st.s else FALSE
        return NotImplemented

    def ext2(self, a, kw, st, n, op):
        if len(a) == 1:
            it = self.iterable(a[0], st, n)
            if it is not None and it.known is not None:
                a = it.known
            else:
                return self.reduce_minmax(self.to_arr(a[0], st, n), op)
        vs = [self.val(x, st) for x in a]
        if all(type(x) is T for x in vs):
            r = vs[0]
            for x in vs[1:]:
                k = 'int' if r.kind == 'int' and (x.kind == 'int' or x.op == 'num') else None
                r = fn(op, r, x)
                if k:
                    r.kind = k
            return r
        return NotImplemented

    def b_max(self, a, kw, st, n):
        return self.ext2(a, kw, st, n, 'max') if not kw else NotImplemented

    def b_min(self, a, kw, st, n):
        return self.ext2(a, kw, st, n, 'min') if not kw else NotImplemented

    def b_abs(self, a, kw, st, n):
        return self.np_abs(a, kw, st, n)

    def b_sum(self, a, kw, st, n):
        it = self.iterable(a[0], st, n)
        if it is None:
            return NotImplemented
        s = self.val(a[1], st) if len(a) > 1 else ZERO
        if it.known is not None:
            r = s
            for x in it.known:
                r = self.binop('+', r, self.val(x, st), st, n)
            return r
        v = bv('k', ZERO, it.size)
        x = self.val(it.at(v), st)
        if type(x) is T:
            return add(s, sum_(v, ZERO, it.size, self.num_(x)))
        if type(x) is Arr:
            fs = formals(x.shape)
            return Arr(x.rank, x.shape, ExprDef(fs, sum_(v, ZERO, it.size, self.rd(x, fs))), newgen(), x.ety)
        return NotImplemented

    def b_round(self, a, kw, st, n):
        v = self.val(a[0], st)
        return fn('round', v) if len(a) == 1 and type(v) is T else NotImplemented

    def b_divmod(self, a, kw, st, n):
        x, y = self.val(a[0], st), self.val(a[1], st)
        return Vec([self.binop('//', x, y, st, n), self.binop('%', x, y, st, n)], 'tuple', newgen())

    # numpy
    def un(self, f, a, st, n):
        v = self.val(a[0], st)
        if type(v) in (PList, Vec):
            v = self.to_arr(v, st, n)
        return self.bc(lambda x: f(self.num_(x)), [v], st, n)

    def np_cos(self, a, kw, st, n):
        return self.un(lambda x: fn('cos', x), a, st, n)

    def np_sin(self, a, kw, st, n):
        return self.un(lambda x: fn('sin', x), a, st, n)

    def np_sqrt(self, a, kw, st, n):
        return self.un(lambda x: fn('sqrt', x), a, st, n)

    def np_exp(self, a, kw, st, n):
        return self.un(lambda x: fn('exp', x), a, st, n)

    def np_log(self, a, kw, st, n):
        return self.un(lambda x: fn('log', x), a, st, n)

    def np_log10(self, a, kw, st, n):
        return self.un(lambda x: fn('log10', x), a, st, n)

    def np_abs(self, a, kw, st, n):
        v = self.val(a[0], st)
        if type(v) in (PList, Vec):
            v = self.to_arr(v, st, n)
        r = self.bc(lambda x: self.kabs(self.num_(x)), [v], st, n, '+')
        return r

    def kabs(self, x):
        r = fn('abs', x)
        if x.kind == 'int' and r.kind is None:
            r.kind = 'int'
        return r

    np_absolute = np_fabs = np_abs

    def np_negative(self, a, kw, st, n):
        return self.un(neg, a, st, n)

    def np_square(self, a, kw, st, n):
        return self.un(lambda x: mul(x, x), a, st, n)

    def np_floor(self, a, kw, st, n):
        return self.un(lambda x: fn('floor', x), a, st, n)

    def np_ceil(self, a, kw, st, n):
        return self.un(lambda x: fn('ceil', x), a, st, n)

    def np_rint(self, a, kw, st, n):
        return self.un(lambda x: fn('round', x), a, st, n)

    def np_int64(self, a, kw, st, n):
        return self.b_int(a, kw, st, n)

    np_int32 = np_int_ = np_int64

    def np_float64(self, a, kw, st, n):
        return self.val(a[0], st)

    def bi(self, op, a, st, n):
        x, y = [self.val(v, st) for v in a[:2]]
        if type(x) in (PList, Vec):
            x = self.to_arr(x, st, n)
        if type(y) in (PList, Vec):
            y = self.to_arr(y, st, n)
        return self.binop(op, x, y, st, n)

    def np_add(self, a, kw, st, n):
        return self.bi('+', a, st, n)

    def np_subtract(self, a, kw, st, n):
        return self.bi('-', a, st, n)

    def np_multiply(self, a, kw, st, n):
        return self.bi('*', a, st, n)

    def np_divide(self, a, kw, st, n):
        return self.bi('/', a, st, n)

    np_true_divide = np_divide

    def np_mod(self, a, kw, st, n):
        return self.bi('%', a, st, n)

    np_remainder = np_mod

    def np_floor_divide(self, a, kw, st, n):
        return self.bi('//', a, st, n)

    def np_power(self, a, kw, st, n):
        return self.bi('**', a, st, n)

    def np_maximum(self, a, kw, st, n):
        return self.bc(lambda x, y: fn('max', x, y), [self.val(v, st) for v in a[:2]], st, n)

    def np_minimum(self, a, kw, st, n):
        return self.bc(lambda x, y: fn('min', x, y), [self.val(v, st) for v in a[:2]], st, n)

    def np_hypot(self, a, kw, st, n):
        return self.bc(lambda x, y: fn('sqrt', add(mul(x, x), mul(y, y))), [self.val(v, st) for v in a[:2]], st, n)

    def np_arctan2(self, a, kw, st, n):
        return self.bc(lambda x, y: fn('atan2', x, y), [self.val(v, st) for v in a[:2]], st, n)

    def lg(self, f, a, st, n):
        return self.bc(lambda *x: f(*[truth(y) for y in x]), [self.val(v, st) for v in a], st, n)

    def np_logical_and(self, a, kw, st, n):
        return self.lg(and_, a, st, n)

    def np_logical_or(self, a, kw, st, n):
        return self.lg(or_, a, st, n)

    def np_logical_not(self, a, kw, st, n):
        return self.lg(not_, a, st, n)

    def cmpf(self, o, a, st, n):
        return self.cmp1(o, a[0], a[1], st, n)

    def np_equal(self, a, kw, st, n):
        return self.cmpf(ast.Eq(), a, st, n)

    def np_not_equal(self, a, kw, st, n):
        return self.cmpf(ast.NotEq(), a, st, n)

    def np_less(self, a, kw, st, n):
        return self.cmpf(ast.Lt(), a, st, n)

    def np_less_equal(self, a, kw, st, n):
        return self.cmpf(ast.LtE(), a, st, n)

    def np_greater(self, a, kw, st, n):
        return self.cmpf(ast.Gt(), a, st, n)

    def np_greater_equal(self, a, kw, st, n):
        return self.cmpf(ast.GtE(), a, st, n)

    def np_copyto(self, a, kw, st, n):
        o, v = a[0], self.val(a[0], st)
        if kw or len(a) != 2 or type(o) not in (LV, View) or type(v) is not Arr:
            if type(o) in (LV, View) and type(v) is Arr:
                self.write_def(o, UnkDef(v.rank, 'copyto'), st, n)
            return NotImplemented
        self.write(o, self.fit(self.val(a[1], st), v.shape, st, n), st, n)
        return PNONE

    def np_where(self, a, kw, st, n):
        if len(a) != 3:
            return NotImplemented
        c, x, y = [self.val(v, st) for v in a]
        return self.bc(lambda p, q, r: ite(truth(p), q, r), [c, x, y], st, n)

    def arg(self, a, kw, i, name, default=None):
        return a[i] if len(a) > i else kw.get(name, default)

    def np_linspace(self, a, kw, st, n):
        lo, hi = self.val(a[0], st), self.val(a[1], st)
        m = self.val(self.arg(a, kw, 2, 'num', num(50)), st)
        ep = self.truth_(self.arg(a, kw, 3, 'endpoint', TRUE), st, n)
        if not all(type(x) is T for x in (lo, hi, m)) or self.arg(a, kw, 4, 'retstep') is not None:
            return NotImplemented
        den = ite(ep, sub(m, ONE), m) if ep not in (TRUE, FALSE) else (sub(m, ONE) if ep is TRUE else m)
        fs = formals((m,))
        x = add(lo, div(mul(fs[0], sub(hi, lo)), den))
        if self.decide(eq(den, ZERO), st) is not False:
            x = ite(eq(den, ZERO), lo, x)
        return Arr(1, (m,), ExprDef(fs, x), newgen(), 'real')

    def np_arange(self, a, kw, st, n):
        it = self.b_range(a, kw, st, n)
        if it is NotImplemented:
            return it
        fs = formals((it.size,))
        return Arr(1, (it.size,), ExprDef(fs, it.at(fs[0])), newgen(), 'int')

    def np_meshgrid(self, a, kw, st, n):
        if len(a) != 2:
            return NotImplemented
        x, y = self.to_arr(a[0], st, n), self.to_arr(a[1], st, n)
        ind = kw.get('indexing')
        ij = ind is not None and ind is string('ij')
        sh = (x.shape[0], y.shape[0]) if ij else (y.shape[0], x.shape[0])
        f1, f2 = formals(sh), formals(sh)
        X = Arr(2, sh, ExprDef(f1, self.rd(x, (f1[0] if ij else f1[1],))), newgen(), 'real')
        Y = Arr(2, sh, ExprDef(f2, self.rd(y, (f2[1] if ij else f2[0],))), newgen(), 'real')
        return Vec([X, Y], 'tuple', newgen())

    def const_like(self, a, st, n, c):
        v = self.to_arr(a[0], st, n)
        if type(v) is not Arr:
            return ZERO if type(v) is T and c is ZERO else NotImplemented
        return Arr(v.rank, v.shape, ExprDef(formals(v.shape), c), newgen(), v.ety if v.ety != 'bool' else 'real')

    def np_zeros_like(self, a, kw, st, n):
        return self.const_like(a, st, n, ZERO)

    def np_ones_like(self, a, kw, st, n):
        return self.const_like(a, st, n, ONE)

    def np_empty_like(self, a, kw, st, n):
        v = self.to_arr(a[0], st, n)
        return Arr(v.rank, v.shape, UninitDef(v.rank, 'np.empty'), newgen(), v.ety)

    def np_full_like(self, a, kw, st, n):
        return self.const_like(a, st, n, self.val(a[1], st))

    def shape_arg(self, v, st, n):
        v = self.val(v, st)
        if type(v) is T:
            return (v,)
        it = self.iterable(v, st, n)
        return tuple(self.val(x, st) for x in it.known)

    def np_zeros(self, a, kw, st, n):
        sh = self.shape_arg(self.arg(a, kw, 0, 'shape'), st, n)
        return Arr(len(sh), sh, ExprDef(formals(sh), ZERO), newgen(), 'real')

    def np_ones(self, a, kw, st, n):
        sh = self.shape_arg(self.arg(a, kw, 0, 'shape'), st, n)
        return Arr(len(sh), sh, ExprDef(formals(sh), ONE), newgen(), 'real')

    def np_full(self, a, kw, st, n):
        sh = self.shape_arg(self.arg(a, kw, 0, 'shape'), st, n)
        return Arr(len(sh), sh, ExprDef(formals(sh), self.val(a[1], st)), newgen(), 'real')

    def np_empty(self, a, kw, st, n):
        sh = self.shape_arg(self.arg(a, kw, 0, 'shape'), st, n)
        return Arr(len(sh), sh, UninitDef(len(sh), 'np.empty'), newgen(), 'real')

    def np_array(self, a, kw, st, n):
        v = self.to_arr(a[0], st, n)
        if type(v) is T:
            return v
        return v.w(gen=newgen(), std=False) if type(v) is Arr else NotImplemented

    def np_asarray(self, a, kw, st, n):
        if type(a[0]) in (LV, View):
            return a[0]
        return self.np_array(a, kw, st, n)

    np_asanyarray = np_asarray

    def np_copy(self, a, kw, st, n):
        return self.np_array(a, kw, st, n)

    def np_transpose(self, a, kw, st, n):
        v = self.val(a[0], st)
        return self.transpose(a[0] if type(a[0]) in (LV, View) else v, v) if type(v) is Arr and len(a) == 1 else NotImplemented

    def np_outer(self, a, kw, st, n):
        x, y = self.to_arr(a[0], st, n), self.to_arr(a[1], st, n)
        sh = (x.shape[0], y.shape[0])
        fs = formals(sh)
        return Arr(2, sh, ExprDef(fs, mul(self.rd(x, (fs[0],)), self.rd(y, (fs[1],)))), newgen(), 'real')

    def pymatmul(self, x, y, st, n):
        if type(x) is not Arr or type(y) is not Arr or x.rank > 2 or y.rank > 2:
            self.gap('matrix product', n)
            return unk('matrix product')
        m = x.shape[-1]
        if m is not y.shape[0]:
            self.emit('shape', n, st, a=m, b=y.shape[0])
        v = bv('k', ZERO, m)
        sh = x.shape[:-1] + y.shape[1:]
        fs = formals(sh)
        k = x.rank - 1
        t = sum_(v, ZERO, m, mul(self.rd(x, tuple(fs[:k]) + (v,)), self.rd(y, (v,) + tuple(fs[k:]))))
        return Arr(len(sh), sh, ExprDef(fs, t), newgen(), 'real') if sh else t

    def np_dot(self, a, kw, st, n):
        x, y = self.val(a[0], st), self.val(a[1], st)
        if type(x) is T or type(y) is T:
            return self.binop('*', x, y, st, n)
        return self.pymatmul(x, y, st, n)

    np_matmul = np_dot

    def np_einsum(self, a, kw, st, n):
        s = self.val(a[0], st)
        if s.op != 'str':
            return NotImplemented
        ins, out = s.a[0].replace(' ', '').split('->') if '->' in s.a[0] else (None, None)
        if ins is None or '.' in ins:
            return NotImplemented
        ins = ins.split(',')
        xs = [self.to_arr(v, st, n) for v in a[1:]]
        ext = {}
        for l, x in zip(ins, xs):
            for c, d in zip(l, x.shape):
                if c in ext and ext[c] is not d:
                    self.emit('shape', n, st, a=ext[c], b=d)
                ext.setdefault(c, d)
        sh = tuple(ext[c] for c in out)
        fs = formals(sh)
        m = dict(zip(out, fs))
        red = [c for c in ext if c not in out]
        for c in red:
            m[c] = bv(c, ZERO, ext[c])
        t = mul(*[self.rd(x, tuple(m[c] for c in l)) for l, x in zip(ins, xs)])
        for c in red:
            t = sum_(m[c], ZERO, ext[c], t)
        return Arr(len(sh), sh, ExprDef(fs, t), newgen(), 'real') if sh else t

    def axis(self, a, kw, st, v):
        ax = self.arg(a, kw, 1, 'axis')
        if ax is None or ax is PNONE:
            return None
        ax = self.val(ax, st)
        if ax.op != 'num':
            raise ValueError('axis')
        return ax.a[0] % v.rank

    def np_sum(self, a, kw, st, n):
        v = self.to_arr(a[0], st, n)
        if type(v) is T:
            return v
        ax = self.axis(a, kw, st, v)
        if ax is None:
            return self.asum(v)
        k = bv('k', ZERO, v.shape[ax])
        sh = v.shape[:ax] + v.shape[ax + 1:]
        fs = formals(sh)
        t = self.rd(v, fs[:ax] + (k,) + fs[ax:])
        t = sum_(k, ZERO, v.shape[ax], self.num_(t))
        return Arr(len(sh), sh, ExprDef(fs, t), newgen(), v.ety) if sh else t

    def np_mean(self, a, kw, st, n):
        v = self.to_arr(a[0], st, n)
        if self.axis(a, kw, st, v) is not None:
            return NotImplemented
        return div(self.asum(v), self.size_of(v))

    def reduce_minmax(self, v, op):
        if type(v) is not Arr:
            return NotImplemented
        size, f = self.flat(v) if v.rank <= 2 else (None, None)
        if size is None:
            return NotImplemented
        return self.reduce_loop(size, f(ZERO), lambda i, r: fn(op, r, self.num_(f(i))))

    def along(self, v, ax, f):
        """reduce a matrix along one axis: f(size, element at k) for formal remaining index"""
        if v.rank != 2:
            return NotImplemented
        m = v.shape[ax]
        fs = formals((v.shape[1 - ax],))
        at = (lambda k: self.num_(self.rd(v, (k, fs[0])))) if ax == 0 else (lambda k: self.num_(self.rd(v, (fs[0], k))))
        b = f(m, at)
        return Arr(1, (v.shape[1 - ax],), ExprDef(fs, b), newgen(), 'int' if b.kind == 'int' else v.ety)

    def extreme(self, m, at, less):
        k, w = bv('k', ZERO, m), bv('w', ZERO, m)
        r = first(k, ZERO, m, not_(exists(w, ZERO, m, lt(at(w), at(k)) if less else lt(at(k), at(w)))))
        r.kind = 'int'
        return r

    def np_max(self, a, kw, st, n):
        v = self.to_arr(a[0], st, n)
        ax = self.axis(a, kw, st, v) if type(v) is Arr else None
        if ax is not None:
            return self.along(v, ax, lambda m, at: at(self.extreme(m, at, False)))
        return self.reduce_minmax(v, 'max')

    np_amax = np_nanmax = np_max

    def np_min(self, a, kw, st, n):
        v = self.to_arr(a[0], st, n)
        ax = self.axis(a, kw, st, v) if type(v) is Arr else None
        if ax is not None:
            return self.along(v, ax, lambda m, at: at(self.extreme(m, at, True)))
        return self.reduce_minmax(v, 'min')

    np_amin = np_nanmin = np_min

    def argm(self, a, kw, st, n, less):
        v = self.to_arr(a[0], st, n)
        ax = self.axis(a, kw, st, v) if type(v) is Arr else None
        if ax is not None and v.rank == 2:
            return self.along(v, ax, lambda m, at: self.extreme(m, at, less))
        if type(v) is not Arr or v.rank != 1:
            return NotImplemented
        m = v.shape[0]
        k, w = bv('k', ZERO, m), bv('w', ZERO, m)
        x, y = self.num_(self.rd(v, (k,))), self.num_(self.rd(v, (w,)))
        r = first(k, ZERO, m, not_(exists(w, ZERO, m, lt(x, y) if not less else lt(y, x))))
        r.kind = 'int'
        return r

    def np_argmax(self, a, kw, st, n):
        return self.argm(a, kw, st, n, False)

    def np_argmin(self, a, kw, st, n):
        return self.argm(a, kw, st, n, True)

    def np_argsort(self, a, kw, st, n):
        v = self.to_arr(a[0], st, n)
        if type(v) is not Arr or v.rank != 1:
            return NotImplemented
        return Arr(1, v.shape, ArgsortDef(v.d, v.shape[0]), newgen(), 'int')

    def np_sort(self, a, kw, st, n):
        v = self.to_arr(a[0], st, n)
        if type(v) is not Arr or v.rank != 1:
            return NotImplemented
        return v.w(d=SortDef(v.d, ZERO, v.shape[0]), gen=newgen())

    def np_unique(self, a, kw, st, n):
        if kw or len(a) > 1:
            return NotImplemented
        r = self.b_set(a, kw, st, n)
        return r.w(std=False) if r is not NotImplemented else r

    def np_flip(self, a, kw, st, n):
        v = self.to_arr(a[0], st, n)
        if v.rank != 1:
            return NotImplemented
        fs = formals(v.shape)
        return Arr(1, v.shape, ExprDef(fs, self.rd(v, (sub(sub(v.shape[0], ONE), fs[0]),))), newgen(), v.ety)

    def np_any(self, a, kw, st, n):
        v = self.to_arr(a[0], st, n)
        if type(v) is not Arr or v.rank != 1:
            return NotImplemented
        k = bv('k', ZERO, v.shape[0])
        return exists(k, ZERO, v.shape[0], truth(self.rd(v, (k,))))

    def np_all(self, a, kw, st, n):
        v = self.to_arr(a[0], st, n)
        if type(v) is not Arr or v.rank != 1:
            return NotImplemented
        k = bv('k', ZERO, v.shape[0])
        return not_(exists(k, ZERO, v.shape[0], not_(truth(self.rd(v, (k,))))))

    def np_flatten(self, a, kw, st, n):
        v = self.to_arr(a[0], st, n)
        if v.rank == 1:
            return v
        if v.rank != 2:
            return NotImplemented
        r, c = v.shape
        sh = (mul(r, c),)
        fs = formals(sh)
        return Arr(1, sh, ExprDef(fs, self.rd(v, (idiv(fs[0], c), imod(fs[0], c)))), newgen(), v.ety)

    np_ravel = np_flatten

    def np_size(self, a, kw, st, n):
        v = self.to_arr(a[0], st, n)
        return self.size_of(v) if type(v) is Arr else NotImplemented

    def np_shape(self, a, kw, st, n):
        v = self.to_arr(a[0], st, n)
        return Vec(v.shape, 'tuple', newgen())


class PreVal(ast.AST):
    """an already evaluated iterable inside a synthetic node"""
    _fields = ()

    def __init__(self, v):
        self.v = v
        self.lineno = 0


PyEngine.p_PreVal = lambda self, e, st, n: e.v


def unkbool(why):
    t = unk('bool ' + why)
    t.kind = 'bool'
    return t


def unkstr(why):
    t = unk('str ' + why)
    t.kind = 'string'
    return t


# ------------------------------------------------------------------ values under a valuation
def value(V, v, env, cap=40000):
    """numbers, strings, nested lists and dicts denoted by a recorded value"""
    if v is PNONE or v is NONE or v is None:
        return None
    if type(v) is T:
        return V.ev(v, env)
    if type(v) is Choice:
        return value(V, v.a if V.ev(v.c, env) else v.b, env, cap)
    if type(v) is Arr:
        sh = [int(V.ev(x, env)) for x in v.shape]
        tot = 1
        for x in sh:
            tot *= max(x, 0)
        if tot > cap:
            raise Undecided('large array')

        def go(i, idx):
            if i == len(sh):
                return V.ev(elem(v.d, [num(k) for k in idx]), env) if isinstance(v.d, InputDef) and v.d.expand is not None else V.evdef(v.d, tuple(idx), env)
            return [go(i + 1, idx + (k,)) for k in range(sh[i])]
        return go(0, ())
    if type(v) is Vec:
        return [value(V, x, env, cap) for x in v.v]
    if isinstance(v, dict):
        return {k: value(V, x, env, cap) for k, x in v.items()}
    return v
