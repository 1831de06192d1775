"""Models of the library calls (Eigen, libstdc++, libm, netCDF, OpenMP)."""
from fractions import Fraction
from .terms import *
from . import terms as tm
from . import nf as N
from .interp import *
from .ev import Exit, fn_bool

UNARY = {'abs': 'abs', 'cwiseAbs': 'abs', 'sin': 'sin', 'cos': 'cos', 'tan': 'tan', 'sqrt': 'sqrt', 'cwiseSqrt': 'sqrt',
         'exp': 'exp', 'log': 'log', 'floor': 'floor', 'ceil': 'ceil', 'round': 'round'}
CMATH = {'sin', 'cos', 'tan', 'sqrt', 'exp', 'log', 'floor', 'ceil', 'round', 'lround', 'atan2', 'fmod', 'pow', 'hypot',
         'abs', 'fabs', 'labs', 'trunc', 'fmax', 'fmin', 'max', 'min', 'copysign', 'tanh', 'cosh', 'sinh', 'atan', 'asin',
         'acos', 'cbrt', 'isnan', 'isfinite', 'isinf', 'fma', 'rint', 'nearbyint', 'llround', 'lrint', 'signbit'}


class LibMixin:
    # ------------------------------------------------------------ small helpers
    def amap(self, f, *xs):
        """elementwise application; scalars broadcast"""
        a = next(x for x in xs if type(x) is Arr)
        fs = formals(a.shape)
        body = f(*[self.rd(x, fs) if type(x) is Arr else x for x in xs])
        ety = 'bool' if is_bool(body) else a.ety
        return Arr(a.rank, a.shape, ExprDef(fs, body), newgen(), ety, a.mat, False)

    def shapes_agree(self, x, y, st, n):
        if type(x) is Arr and type(y) is Arr:
            if x.rank == y.rank:
                for p, q in zip(x.shape, y.shape):
                    if p is not q:
                        self.emit('shape', n, st, a=p, b=q)

    def reduce_loop(self, size, init, f, kind='real'):
        it = bv('i', ZERO, size)
        probe = f(it, sym('probe$', kind))
        ofv = frozenset((probe.fv | init.fv | size.fv) - {it})
        L = Loop(it, ZERO, ofv)
        L.hi = size
        L.init['r'] = init
        r = rec(L, 'r', it)
        r.kind = kind
        L.next['r'] = f(it, r)
        out = rec(L, 'r', size)
        out.kind = kind
        return out

    def flat(self, a):
        """(size, function of flat index)"""
        if a.rank == 1:
            return a.shape[0], lambda i: self.rd(a, (i,))
        r, c = a.shape
        return mul(r, c), lambda i: self.rd(a, (imod(i, r), idiv(i, r)))

    def asum(self, a):
        vs = [bv('k', ZERO, s) for s in a.shape]
        t = self.rd(a, tuple(vs))
        if is_bool(t):
            t = b2i(t)
        for v, s in zip(vs, a.shape):
            t = sum_(v, ZERO, s, t)
        return t

    def size_of(self, a):
        if type(a) is Vec:
            return num(len(a.v))
        return mul(*a.shape) if len(a.shape) > 1 else a.shape[0]

    def range_obl(self, lo, cnt, size, st, n):
        """a block [lo, lo+cnt) of an extent `size`"""
        self.emit('blk', n, st, lo=lo, cnt=cnt, size=size)

    # ------------------------------------------------------------ views
    def subview(self, o, a, rank, shape, fwd, inv):
        """o: LV/View/Arr denoting array a; fwd: new idx -> a idx"""
        if type(o) is LV and o.idx is None:
            return View(o, rank, shape, fwd, inv, a.mat)
        if type(o) is View:
            f0, i0 = o.fwd, o.inv

            def inv2(b):
                c, x = i0(b)
                c2, y = inv(x)
                return and_(c, c2), y
            return View(o.base, rank, shape, lambda i: f0(fwd(i)), inv2, o.mat)
        fs = formals(shape)
        return Arr(rank, shape, ExprDef(fs, self.rd(a, fwd(fs))), newgen(), a.ety, a.mat, False)

    def block(self, o, a, r0, c0, nr, nc, st, n):
        for lo, cnt, s in ((r0, nr, a.shape[0]), (c0, nc, a.shape[1])):
            self.range_obl(lo, cnt, s, st, n)
        return self.subview(o, a, 2, (nr, nc), lambda i: (add(i[0], r0), add(i[1], c0)),
                            lambda b: (and_(le(r0, b[0]), lt(b[0], add(r0, nr)), le(c0, b[1]), lt(b[1], add(c0, nc))),
                                       (sub(b[0], r0), sub(b[1], c0))))

    def segment(self, o, a, lo, cnt, st, n):
        self.range_obl(lo, cnt, a.shape[0], st, n)
        return self.subview(o, a, 1, (cnt,), lambda i: (add(i[0], lo),),
                            lambda b: (and_(le(lo, b[0]), lt(b[0], add(lo, cnt))), (sub(b[0], lo),)))

    # ------------------------------------------------------------ member functions
    def lib_method(self, n, st):
        name = short(n.get('fn'))
        cls = strip_t(n.get('cls') or (n.get('fn') or '').rsplit('::', 1)[0])
        argn = [a for a in (n.get('a') or []) if a['k'] != 'CXXDefaultArgExpr']
        if n.get('obj') is None:
            for a in argn:
                self.ev(a, st)
            self.gap('member call ' + str(n.get('fn')), n)
            return unk('member call')
        o = self.ev(n['obj'], st)
        if type(o) is LV and o.idx is not None:
            v = self.read(o, st, n)
        elif type(o) is LV:
            v = self.lookup(o.key, st, n)
            if type(v) is Ptr:
                o = self.deref(v, st, n)
                v = self.lookup(o.key, st, n) if type(o) is LV and o.idx is None else self.read(o, st, n)
        elif type(o) is Ptr:
            o = self.deref(o, st, n)
            v = self.lookup(o.key, st, n) if type(o) is LV and o.idx is None else self.read(o, st, n)
        else:
            v = self.read(o, st, n)
        if type(v) is Opq and v.why == 'stream':
            return self.stream_method(name, o, v, argn, st, n)
        if type(v) is T and (v.kind == 'string' or v.op in ('str', 'cat') or is_string_t((n.get('obj') or {}).get('t', ''))
                             or 'basic_string' in cls):
            return self.string_method(name, o, v, argn, st, n)
        if type(v) is Choice and type(o) is LV and o.idx is None:
            return self.choice_method(n, o, v, st)
        if type(v) in (Arr, Vec):
            return self.array_method(name, cls, o, v, argn, st, n)
        if type(v) is Opq and getattr(v, 'why', '') == 'comma':
            if name == 'finished':
                return v.target
        args = [self.rv(a, st) for a in argn]
        if type(v) is Opq and name == 'what':
            return v.msg if getattr(v, 'msg', None) is not None else unk('what')
        if type(v) is Opq and (name in ('lock', 'unlock')):
            return NONE
        if type(v) is Opq and getattr(v, 'mat', None) is not None:
            return self.array_method(name, cls, v.mat, v.mat, argn, st, n)
        if type(v) is Opq and v.why == 'partial':
            return self.partial_method(name, v, args, st, n)
        self.gap('method %s of %r' % (n.get('fn'), type(v).__name__), n)
        return unk('method ' + name)

    def choice_method(self, n, o, v, st):
        outs = []
        res = []
        for lit, x in ((v.c, v.a), (not_(v.c), v.b)):
            s = st.fork(lit)
            s.s[o.key] = x
            try:
                r = self.lib_method(n, s)
                res.append(r)
                outs.append(s)
            except Dead:
                pass
        if not outs:
            raise Dead()
        if len(outs) == 1:
            st.become(outs[0])
            return res[0]
        m, c = self.merge(outs[0], outs[1])
        st.become(m)
        if type(res[0]) in (LV, View):
            return res[0] if type(res[1]) is LV and res[0] == res[1] else Choice(c, res[0], res[1])
        if res[0] is NONE:
            return NONE
        return self.merge_val(c, res[0], res[1])

    def array_method(self, name, cls, o, v, argn, st, n):
        std = cls.startswith('std::')
        key = o.key if type(o) is LV and o.idx is None else None
        if key is not None and name not in ('size', 'rows', 'cols', 'resize', 'setZero', 'begin', 'end', 'data', 'col', 'row',
                                            'segment', 'head', 'tail', 'block', 'push_back', 'clear', 'operator='):
            self.share(key, None, 'r', n, st)
        if type(v) is Vec:
            r = self.vec_method(name, o, key, v, argn, st, n)
            if r is not NotImplemented:
                return r
            v2 = self.vec2arr(v)
            if v2 is None:
                for a in argn:
                    self.ev(a, st)
                self.gap('vector method ' + name, n)
                return unk('vector method')
            v = v2
        if type(v) is not Arr:
            self.gap('array method ' + name, n)
            return unk('array method')
        if name in ('size', 'length'):
            return self.size_of(v)
        if name == 'rows':
            return v.shape[0]
        if name in ('cols', 'outerSize'):
            return v.shape[1] if v.rank == 2 else ONE
        if name == 'innerSize':
            return v.shape[0]
        if name == 'empty':
            return eq(self.size_of(v), ZERO)
        # ---- mutators
        if name in ('resize', 'conservativeResize', 'setZero', 'setConstant', 'setOnes', 'fill', 'assign', 'clear', 'push_back',
                    'emplace_back', 'reserve', 'swap', 'setLinSpaced', 'reverseInPlace', 'shrink_to_fit', 'pop_back', 'conservativeResizeLike', 'resizeLike'):
            return self.array_mut(name, o, key, v, argn, st, n, std)
        if std and name in ('begin', 'cbegin', 'end', 'cend', 'rbegin', 'rend') or name in ('begin', 'end', 'cbegin', 'cend'):
            return Iter(o if type(o) is LV else None, ZERO if 'begin' in name else self.size_of(v), v)
        if name == 'data':
            if key is not None:
                return Ptr(LV(key, (ZERO,) * v.rank), v.gen)
            if type(o) is View:
                return Ptr(LV(o.base.key, o.fwd((ZERO,) * o.rank)), st.s[o.base.key].gen)
            self.gap('data() of temporary', n)
            return Opq('pointer')
        if name == 'at' and std:
            i = self.scal(argn[0], st)
            self.emit('acc', n, st, rw='r', key=key, idx=(i,), shape=v.shape, d=v.d, std=True, checked=True)
            return LV(key, (i,)) if key is not None else self.rd(v, (i,))
        if name in ('front', 'back') and std:
            i = ZERO if name == 'front' else sub(v.shape[0], ONE)
            return LV(key, (i,)) if key is not None else self.rd(v, (i,))
        # ---- views
        if name == 'col' and v.rank == 2:
            j = self.scal(argn[0], st)
            self.range_obl(j, ONE, v.shape[1], st, n)
            return self.subview(o, v, 1, (v.shape[0],), lambda i: (i[0], j), lambda b: (eq(b[1], j), (b[0],)))
        if name == 'row' and v.rank == 2:
            j = self.scal(argn[0], st)
            self.range_obl(j, ONE, v.shape[0], st, n)
            return self.subview(o, v, 1, (v.shape[1],), lambda i: (j, i[0]), lambda b: (eq(b[0], j), (b[1],)))
        if name in ('segment', 'head', 'tail') and v.rank == 1:
            xs = [self.scal(a, st) for a in argn]
            tn = self.tplnum(n)
            if name == 'segment':
                lo, cnt = (xs + tn)[:2]
            elif name == 'head':
                lo, cnt = ZERO, (xs + tn)[0]
            else:
                cnt = (xs + tn)[0]
                lo = sub(v.shape[0], cnt)
            return self.segment(o, v, lo, cnt, st, n)
        if name in ('block', 'topRows', 'bottomRows', 'leftCols', 'rightCols', 'middleCols', 'middleRows', 'topLeftCorner',
                    'topRightCorner', 'bottomLeftCorner', 'bottomRightCorner') and v.rank == 2:
            xs = [self.scal(a, st) for a in argn] + self.tplnum(n)
            R, Cc = v.shape
            sp = {'block': lambda: xs[:4],
                  'topRows': lambda: (ZERO, ZERO, xs[0], Cc), 'bottomRows': lambda: (sub(R, xs[0]), ZERO, xs[0], Cc),
                  'leftCols': lambda: (ZERO, ZERO, R, xs[0]), 'rightCols': lambda: (ZERO, sub(Cc, xs[0]), R, xs[0]),
                  'middleCols': lambda: (ZERO, xs[0], R, xs[1]), 'middleRows': lambda: (xs[0], ZERO, xs[1], Cc),
                  'topLeftCorner': lambda: (ZERO, ZERO, xs[0], xs[1]),
                  'topRightCorner': lambda: (ZERO, sub(Cc, xs[1]), xs[0], xs[1]),
                  'bottomLeftCorner': lambda: (sub(R, xs[0]), ZERO, xs[0], xs[1]),
                  'bottomRightCorner': lambda: (sub(R, xs[0]), sub(Cc, xs[1]), xs[0], xs[1])}[name]()
            return self.block(o, v, sp[0], sp[1], sp[2], sp[3], st, n)
        if name in ('array', 'matrix', 'noalias', 'derived', 'eval', 'const_cast_derived', 'self', 'real'):
            m = name == 'matrix'
            if type(o) is View:
                return View(o.base, o.rank, o.shape, o.fwd, o.inv, m if name in ('array', 'matrix') else o.mat)
            if name in ('noalias', 'derived') and type(o) is LV:
                return o
            if name in ('array', 'matrix') and type(o) is LV:
                return View(o, v.rank, v.shape, lambda i: i, lambda b: (TRUE, b), m)
            return v.w(gen=newgen(), mat=(m if name in ('array', 'matrix') else v.mat))
        if name in ('transpose', 'transposeInPlace'):
            if v.rank == 2 and name == 'transpose':
                return self.subview(o, v, 2, (v.shape[1], v.shape[0]), lambda i: (i[1], i[0]), lambda b: (TRUE, (b[1], b[0])))
            return v
        if name == 'reverse':
            S = v.shape
            return self.subview(o, v, v.rank, S, lambda i: tuple(sub(sub(s, ONE), x) for s, x in zip(S, i)),
                                lambda b: (TRUE, tuple(sub(sub(s, ONE), x) for s, x in zip(S, b))))
        # ---- reductions
        if name == 'sum':
            return self.asum(v)
        if name == 'mean':
            return div(self.asum(v), self.size_of(v))
        if name == 'squaredNorm':
            return self.asum(self.amap(lambda x: mul(x, x), v))
        if name in ('norm', 'stableNorm'):
            return fn('sqrt', self.asum(self.amap(lambda x: mul(x, x), v)))
        if name in ('maxCoeff', 'minCoeff'):
            s, f = self.flat(v)
            mm = 'max' if name == 'maxCoeff' else 'min'
            return self.reduce_loop(sub(s, ONE), f(ZERO), lambda i, r: fn(mm, r, f(add(i, ONE))),
                                    'int' if v.ety == 'int' else 'real')
        if name == 'prod':
            s, f = self.flat(v)
            return self.reduce_loop(s, ONE, lambda i, r: mul(r, f(i)))
        if name in ('any', 'all', 'count'):
            if name == 'count':
                return self.asum(self.amap(lambda x: b2i(truth(x)), v))
            s, f = self.flat(v)
            k = bv('k', ZERO, s)
            b = truth(f(k))
            return exists(k, ZERO, s, b) if name == 'any' else not_(exists(k, ZERO, s, not_(b)))
        if name in ('allFinite', 'hasNaN', 'isFinite', 'isNaN'):
            self.gap(name, n)
            return unk(name)
        if name == 'dot':
            w = self.arr(self.rv(argn[0], st), st, n)
            self.shapes_agree(v, w, st, n)
            return self.asum(self.amap(mul, v, w))
        if name == 'value':
            return self.rd(v, (ZERO,) * v.rank)
        if name in ('colwise', 'rowwise'):
            return Opq('partial', which=name, arr=v, src=o)
        # ---- elementwise
        args = [self.rv(a, st) for a in argn]
        args = [self.arr(a, st, n) if type(a) in (Vec, View) else a for a in args]
        for a in args:
            self.shapes_agree(v, a, st, n)
        if name in UNARY and not args:
            return self.amap(lambda x: fn(UNARY[name], x), v)
        if name in ('square', 'abs2', 'cwiseAbs2'):
            return self.amap(lambda x: mul(x, x), v)
        if name == 'cube':
            return self.amap(lambda x: mul(x, x, x), v)
        if name in ('inverse', 'cwiseInverse'):
            if not v.mat or name == 'cwiseInverse':
                return self.amap(lambda x: div(ONE, x), v)
        if name == 'pow':
            return self.amap(lambda x, y: fn('pow', x, y), v, args[0])
        if name == 'cast':
            t = parse_tpl(base_t(n.get('t', '')))
            toint = 'int' in str(n.get('t', '')).split('Eigen::Array<')[0] and 'scalar_cast_op<double, int>' in str(n.get('t', ''))
            if v.ety == 'bool':
                return self.amap(lambda x: b2i(truth(x)), v)
            if toint:
                return self.amap(lambda x: self.trunc(x), v).w(ety='int')
            return v.w(gen=newgen(), ety='real')
        if name in ('min', 'cwiseMin', 'max', 'cwiseMax'):
            return self.amap(lambda x, y: fn('min' if 'in' in name.lower() and 'max' not in name.lower() else 'max', x, y), v, args[0])
        if name == 'cwiseProduct':
            return self.amap(mul, v, args[0])
        if name == 'cwiseQuotient':
            return self.amap(div, v, args[0])
        if name == 'select':
            x, y = args
            return self.amap(lambda c, p, q: ite(truth(c), p, q), v, x, y)
        if name == 'replicate':
            xs = [self.as_scalar(a, n) for a in args] + self.tplnum(n)
            r, c = xs[:2]
            if v.rank == 1:
                s = v.shape[0]
                sh = (mul(s, r), c)
                fs = formals(sh)
                return Arr(2, sh, ExprDef(fs, self.rd(v, (fs[0] if r is ONE else imod(fs[0], s),))), newgen(), v.ety, v.mat)
            sh = (mul(v.shape[0], r), mul(v.shape[1], c))
            fs = formals(sh)
            return Arr(2, sh, ExprDef(fs, self.rd(v, (imod(fs[0], v.shape[0]), imod(fs[1], v.shape[1])))), newgen(), v.ety, v.mat)
        if name in ('coeff', 'coeffRef'):
            ix = tuple(self.as_scalar(a, n) for a in args)
            if key is not None:
                return LV(key, ix)
            return self.rd(v, ix)
        if name == 'count' or name == 'isApprox':
            pass
        self.gap('array method ' + name, n)
        if is_eigen_expr_t(n.get('t', '')):
            return Arr(v.rank, v.shape, UnkDef(v.rank, 'array method ' + name), newgen(), v.ety)
        return unk('array method ' + name)

    def tplnum(self, n):
        """explicit integer template arguments of a call, e.g. head<3>()"""
        import re
        f = n.get('fn') or ''
        m = re.search(r'<([-0-9, ]+)>$', f)
        if not m:
            return []
        return [num(int(x)) for x in m.group(1).split(',') if x.strip().lstrip('-').isdigit()]

    def partial_method(self, name, v, args, st, n):
        a = v.arr
        if name in ('sum', 'mean'):
            k = bv('k', ZERO, a.shape[0] if v.which == 'colwise' else a.shape[1])
            sh = (a.shape[1] if v.which == 'colwise' else a.shape[0],)
            fs = formals(sh)
            ix = (k, fs[0]) if v.which == 'colwise' else (fs[0], k)
            body = sum_(k, ZERO, BV.info[k][1], self.rd(a, ix))
            if name == 'mean':
                body = div(body, BV.info[k][1])
            return Arr(1, sh, ExprDef(fs, body), newgen(), a.ety, a.mat)
        self.gap('partial reduction ' + name, n)
        return unk('partial')

    def lincombine(self):
        pass

    def array_mut(self, name, o, key, v, argn, st, n, std):
        vals = [self.rv(a, st) for a in argn]
        if key is None and type(o) is View and name in ('setZero', 'setConstant', 'setOnes', 'fill'):
            x = ZERO if name == 'setZero' else ONE if name == 'setOnes' else self.as_scalar(vals[0], n)
            self.write(o, x, st, n)
            return o
        if key is None:
            self.gap('mutating %s on a temporary' % name, n)
            return NONE
        if name in ('reserve', 'shrink_to_fit'):
            st.s[key] = v.w(gen=newgen())
            self.touch(key, n, st)
            return NONE
        self.share(key, None, 'w', n, st)
        old = v

        def put(a):
            st.s[key] = a
            self.touch(key, n, st)
            self.emit('resize', n, st, key=key, old=old.shape, new=a.shape)
            return LV(key)

        def newshape(vals):
            sh = tuple(self.as_scalar(x, n) for x in vals)
            if len(sh) == 1 and v.rank == 2:
                sh = (sh[0], v.shape[1])
            if len(sh) == 2 and v.rank == 1:
                sh = (sh[0] if sh[1] is ONE else sh[1],)
            return sh
        if name in ('setZero', 'setOnes', 'setConstant', 'fill') and not (std and name == 'fill'):
            if name in ('setZero', 'setOnes'):
                x = ZERO if name == 'setZero' else ONE
                sh = newshape(vals) if vals else v.shape
            else:
                x = self.as_scalar(vals[-1], n)
                sh = newshape(vals[:-1]) if len(vals) > 1 else v.shape
            if v.ety == 'bool':
                x = truth(x)
            if vals and name != 'fill' and (len(vals) > 1 or name in ('setZero', 'setOnes')):
                self.emit('alloc', n, st, shape=sh)
            same = all(a is b for a, b in zip(sh, v.shape))
            return put(Arr(v.rank, sh, ExprDef(formals(sh), x), v.gen if same else newgen(), v.ety, v.mat, v.std))
        if name == 'fill':
            return put(v.w(d=ExprDef(formals(v.shape), self.as_scalar(vals[0], n))))
        if name in ('resizeLike', 'conservativeResizeLike'):
            w = self.arr(vals[0], st, n)
            vals = list(w.shape)
            name = name[:-4]
        if name in ('resize', 'conservativeResize'):
            if std:
                m = self.as_scalar(vals[0], n)
                x = self.as_scalar(vals[1], n) if len(vals) > 1 else (FALSE if v.ety == 'bool' else ZERO)
                fs = formals((m,))
                d = v.d
                if v.shape[0] is not ZERO:
                    d = UpdDef(d, fs, le(v.shape[0], fs[0]), x)
                else:
                    d = ExprDef(fs, x)
                return put(Arr(1, (m,), d, newgen(), v.ety, v.mat, True))
            sh = newshape(vals)
            self.emit('alloc', n, st, shape=sh)
            if name == 'conservativeResize':
                fs = formals(sh)
                inside = and_(*[lt(f, s) for f, s in zip(fs, v.shape)])
                why = 'conservativeResize at line %s' % n.get('l')
                d = UpdDef(UninitDef(v.rank, why), fs, inside, self.rd(v, fs))
                return put(Arr(v.rank, sh, d, newgen(), v.ety, v.mat, v.std))
            same = and_(*[eq(a, b) for a, b in zip(sh, v.shape)])
            why = 'storage resized at line %s and not assigned' % n.get('l')
            if same is TRUE:
                return LV(key)
            if any(s.op in ('unk', 'uninit') for s in v.shape):
                same = unk('same size')
            prev = v.d
            d = UninitDef(v.rank, why) if isinstance(prev, UninitDef) or same is FALSE else IteDef(same, prev, UninitDef(v.rank, why))
            return put(Arr(v.rank, sh, d, newgen(), v.ety, v.mat, v.std))
        if name == 'assign' and std:
            if type(vals[0]) is Iter:
                return put(self.iter_range(vals[0], vals[1], st, n).w(std=True, gen=newgen()))
            if type(vals[0]) in (Vec, Arr):
                return put(self.arr(vals[0], st, n).w(std=True, gen=newgen()))
            m = self.as_scalar(vals[0], n)
            return put(Arr(1, (m,), ExprDef(formals((m,)), self.as_scalar(vals[1], n)), newgen(), v.ety, False, True))
        if name == 'clear':
            st.s[key] = Vec([], v.ety, newgen())
            self.touch(key, n, st)
            return NONE
        if name in ('push_back', 'emplace_back'):
            x = self.as_scalar(vals[0], n) if type(vals[0]) is not T else vals[0]
            m = add(v.shape[0], ONE)
            fs = formals((m,))
            d = UpdDef(v.d, fs, eq(fs[0], v.shape[0]), x, (self.site(n),))
            return put(Arr(1, (m,), d, newgen(), v.ety, v.mat, True))
        if name == 'pop_back':
            return put(v.w(shape=(sub(v.shape[0], ONE),)))
        if name == 'reverseInPlace':
            S = v.shape
            fs = formals(S)
            return put(v.w(d=ExprDef(fs, self.rd(v, tuple(sub(sub(s, ONE), f) for s, f in zip(S, fs))))))
        if name == 'setLinSpaced':
            if len(vals) == 3:
                m, lo, hi = [self.as_scalar(x, n) for x in vals]
            else:
                m = v.shape[0]
                lo, hi = [self.as_scalar(x, n) for x in vals]
            return put(self.linspaced(m, lo, hi, v))
        if name == 'swap':
            o2 = self.ev(argn[0], st)
            if type(o2) is LV and o2.idx is None:
                w = st.s[o2.key]
                st.s[o2.key] = v
                st.s[key] = w
                self.touch(o2.key, n, st)
                self.touch(key, n, st)
                return NONE
        self.gap('array mutator ' + name, n)
        st.s[key] = Arr(v.rank, tuple(unk('size') for _ in v.shape), UnkDef(v.rank, name), newgen(), v.ety, v.mat, v.std)
        return NONE

    def linspaced(self, m, lo, hi, v=None):
        fs = formals((m,))
        e = add(lo, mul(fs[0], div(sub(hi, lo), fn('max', sub(m, ONE), ONE))))
        return Arr(1, (m,), ExprDef(fs, e), newgen(), v.ety if v else 'real', v.mat if v else False)

    def vec_method(self, name, o, key, v, argn, st, n):
        if name == 'size':
            return num(len(v.v))
        if name == 'empty':
            return TRUE if not v.v else FALSE
        if name in ('reserve', 'shrink_to_fit'):
            for a in argn:
                self.rv(a, st)
            if key is not None:
                st.s[key] = Vec(v.v, v.ety, newgen())
                self.touch(key, n, st)
            return NONE
        if name in ('push_back', 'emplace_back'):
            x = self.rv(argn[0], st)
            if type(x) in (LV, View):
                x = self.read(x, st, n)
            if len(argn) > 1:
                for a in argn[1:]:
                    self.rv(a, st)
                x = Opq('emplaced')
            if key is None:
                self.gap('push_back on temporary', n)
                return NONE
            self.share(key, None, 'w', n, st)
            st.s[key] = Vec(v.v + (self.copy_value(x, st),), v.ety, newgen())
            self.touch(key, n, st)
            return NONE
        if name == 'clear':
            st.s[key] = Vec([], v.ety, newgen())
            self.touch(key, n, st)
            return NONE
        if name == 'pop_back' and v.v:
            st.s[key] = Vec(v.v[:-1], v.ety, newgen())
            return NONE
        if name in ('back', 'front') and v.v:
            i = num(len(v.v) - 1) if name == 'back' else ZERO
            return LV(key, (i,)) if key is not None else v.v[i.a[0]]
        if name in ('begin', 'end', 'cbegin', 'cend'):
            return Iter(LV(key) if key is not None else None, ZERO if 'begin' in name else num(len(v.v)), v)
        if name == 'data' and key is not None:
            return Ptr(LV(key, (ZERO,)), v.gen)
        if name == 'at':
            i = self.scal(argn[0], st)
            return LV(key, (i,))
        if name == 'resize' and argn:
            m = self.scal(argn[0], st)
            if m.op == 'num' and 0 <= m.a[0] <= 64:
                x = self.rv(argn[1], st) if len(argn) > 1 else ZERO
                k = m.a[0]
                st.s[key] = Vec((v.v + (x,) * k)[:k], v.ety, newgen())
                self.touch(key, n, st)
                return NONE
        return NotImplemented

    # ------------------------------------------------------------ strings
    def string_method(self, name, o, v, argn, st, n):
        args = [self.rv(a, st) for a in argn]
        if name in ('size', 'length'):
            return self.strlen(v)
        if name == 'empty':
            return eq(self.strlen(v), ZERO)
        if name in ('c_str', 'data'):
            if name == 'data' and type(o) is LV:
                return Ptr(LV(o.key, (ZERO,)))
            return v
        if name in ('append', 'operator+=') and type(o) is LV and type(args[0]) is T:
            self.write(o, cat(v, args[0]), st, n)
            return o
        if name == 'append' and len(args) == 1 and type(args[0]) is T and type(v) is T:
            return cat(v, args[0])
        if name in ('assign', 'operator=') and type(o) is LV:
            self.write(o, args[0], st, n)
            return o
        if name == 'clear' and type(o) is LV:
            self.write(o, string(''), st, n)
            return NONE
        if name == 'compare' and len(args) == 1:
            if type(args[0]) is T:
                return b2i(ne(v, args[0]))
        if name in ('begin', 'end'):
            return Opq('string iterator')
        if name == 'at' and type(o) is LV:
            return LV(o.key, (args[0],))
        r = fn('str.' + name, v, *[a for a in args if type(a) is T])
        r.kind = 'string' if is_string_t(n.get('t', '')) else 'int'
        return r

    def strlen(self, v):
        if v.op == 'str':
            return num(len(v.a[0].encode('utf8')))
        if v.op == 'cat':
            return add(*[self.strlen(x) for x in v.a])
        r = fn('strlen', v)
        r.kind = 'int'
        return r

    def to_str(self, v):
        if type(v) is not T:
            return string('?')
        if v.op in ('str', 'cat') or v.kind == 'string':
            return v
        r = fn('fmt', v)
        r.kind = 'string'
        return r

    # ------------------------------------------------------------ streams
    def new_stream(self, cls, vals, st, n):
        self.tmp += 1
        sid = self.tmp
        k = cls.replace('std::basic_', '')
        o = Opq('stream', kind=k, sid=sid, name=k)
        st.s[('strm', sid, 'buf')] = string('')
        st.s[('strm', sid, 'pos')] = ZERO
        st.s[('strm', sid, 'fail')] = FALSE
        st.s[('strm', sid, 'name')] = string('')
        if vals:
            self.open_stream(o, vals[0], st, n)
        return o

    def open_stream(self, v, name, st, n):
        name = name if type(name) is T else string('?')
        self.emit('fopen', n, st, sid=v.sid, name=name, mode=v.kind)
        st.s[('strm', v.sid, 'name')] = name
        f = fn_bool('openfail', name)
        if v.kind == 'ifstream':
            st.s[('strm', v.sid, 'fail')] = f

    def stream_fail(self, v, st):
        if getattr(v, 'sid', None) is None:
            return FALSE
        return st.s.get(('strm', v.sid, 'fail'), FALSE)

    def stream_method(self, name, o, v, argn, st, n):
        args = [self.rv(a, st) for a in argn]
        sid = getattr(v, 'sid', None)
        if name == 'open':
            self.open_stream(v, args[0], st, n)
            return NONE
        if name == 'is_open':
            nm = st.s.get(('strm', sid, 'name'))
            return not_(fn_bool('openfail', nm))
        if name == 'close':
            self.emit('fclose', n, st, sid=sid)
            return NONE
        if name in ('fail', 'operator!', 'bad'):
            return self.stream_fail(v, st)
        if name in ('good', 'operator bool'):
            return not_(self.stream_fail(v, st))
        if name == 'eof':
            return fn_bool('eof', st.s.get(('strm', sid, 'pos'), ZERO))
        if name == 'str':
            if args:
                st.s[('strm', sid, 'buf')] = self.to_str(args[0])
                return NONE
            return st.s.get(('strm', sid, 'buf'), unk('buffer'))
        if name in ('precision', 'width', 'flags', 'setf', 'unsetf', 'fill', 'flush', 'rdbuf', 'clear', 'copyfmt', 'imbue'):
            return num(6) if name in ('precision', 'width') else Opq('fmtstate')
        if name in ('write', 'put'):
            self.emit('print', n, st, critical=self.critical, stream=v.name, sid=sid, val=args[0] if args else None)
            return o
        self.gap('stream method ' + name, n)
        return unk('stream ' + name)

    def stream_out(self, v, x, st, n):
        sid = getattr(v, 'sid', None)
        if type(x) is Opq and x.why in ('manip', 'function'):
            if sid is not None and x.why == 'manip':
                st.s[('strm', sid, x.what)] = x.val
            self.emit('manip', n, st, stream=v.name, sid=sid, what=getattr(x, 'what', getattr(x, 'fn', '')))
            if x.why == 'function' and 'endl' in (x.fn or ''):
                self.emit('print', n, st, critical=self.critical, stream=v.name, sid=sid, val=string('\n'), fmt=None)
            return
        if getattr(v, 'kind', '') in ('ostringstream', 'stringstream'):
            s = self.to_str(x)
            w = st.s.get(('strm', sid, 'setw'))
            if w is not None and w is not ZERO:
                s2 = fn('fmtw', s, w, st.s.get(('strm', sid, 'setfill')) or string(' '))
                s2.kind = 'string'
                s = s2
                st.s[('strm', sid, 'setw')] = ZERO
            st.s[('strm', sid, 'buf')] = cat(st.s.get(('strm', sid, 'buf'), string('')), s)
        self.emit('print', n, st, critical=self.critical, stream=v.name, sid=sid, val=x, fmt=(st.s.get(('strm', sid, 'setprecision')) if sid else None))

    # ------------------------------------------------------------ operators
    def lib_operator(self, n, st):
        op = n['op']
        a = [x for x in n['a']]
        fnm = n.get('fn') or ''
        if op in ('<<', '>>'):
            l = self.ev(a[0], st)
            lv = self.read(l, st, n) if type(l) in (LV, View) else l
            if type(lv) is LV:
                lv = self.read(lv, st, n)
            if type(lv) is Opq and lv.why == 'stream':
                if op == '<<':
                    x = self.rv(a[1], st)
                    self.stream_out(lv, x, st, n)
                else:
                    self.stream_in(lv, self.ev(a[1], st), a[1], st, n)
                return l
            if op == '<<' and type(lv) in (Arr, Vec):
                x = self.rv(a[1], st)
                return self.comma_start(l, lv, x, st, n)
            self.ev(a[1], st)
            self.gap('operator ' + op, n)
            return unk('operator ' + op)
        if op == ',':
            l = self.ev(a[0], st)
            if type(l) is Opq and l.why == 'comma':
                return self.comma_next(l, self.rv(a[1], st), st, n)
        if op == '()' and type(self.peek(a[0], st)) is Clos:
            return self.call_closure(self.rv(a[0], st), a[1:], st, n)
        if op in ('()', '[]'):
            o = self.ev(a[0], st)
            idx = tuple(self.scal(x, st) for x in a[1:])
            idx = tuple(b2i(i) if is_bool(i) else i for i in idx)
            if type(o) is Ptr:
                return self.deref(self.ptr_add(o, idx[0]), st, n)
            if type(o) is LV and o.idx is None:
                v = st.s.get(o.key)
                if type(v) is Iter:
                    return self.deref(Iter(v.lv, add(v.pos, idx[0]), v.arr), st, n)
                if type(v) is Arr and v.rank == 2 and len(idx) == 1:
                    return LV(o.key, self.reindex(v, idx))
                if type(v) is Opq:
                    self.gap('element of opaque value', n)
                    return unk('element')
                return LV(o.key, idx)
            if type(o) is View:
                self.emit('acc', n, st, rw='r', key=o.base.key, idx=idx, shape=o.shape, d=None, std=False)
                return LV(o.base.key, o.fwd(idx)) if len(idx) == o.rank else LV(o.base.key, o.fwd(self.reindex(o, idx)))
            if type(o) is LV:
                w = self.read(o, st, n)
                if type(w) is Vec and idx[0].op == 'num':
                    return w.v[idx[0].a[0]]
                if type(w) is Arr:
                    return self.rd(w, idx)
                self.gap('nested element', n)
                return unk('nested element')
            v = self.read(o, st, n)
            return self.read_elem(v, idx, st, n, None)
        if op == '=':
            v = self.rv(a[1], st)
            if type(v) in (LV, View):
                v = self.read(v, st, n)
            l = self.ev(a[0], st)
            return self.assign(l, v, st, n, a)
        if op in ('+=', '-=', '*=', '/='):
            y = self.rv(a[1], st)
            l = self.ev(a[0], st)
            x = self.read(l, st, n)
            if type(x) is Iter:
                self.write(l, self.arith(op[0], x, y, 'int', n), st, n)
                return l
            if type(x) is T and (x.kind == 'string' or x.op in ('str', 'cat')) and op == '+=':
                self.write(l, cat(x, y if type(y) is T and (y.kind == 'string' or y.op in ('str', 'cat')) else self.chr(y)), st, n)
                return l
            r = self.eig_arith(op[0], x, y, st, n)
            if type(l) is LV and l.idx is None and type(x) is Arr and type(r) is Arr:
                r = r.w(gen=x.gen)
            self.write(l, r, st, n)
            return l
        if len(a) == 2:
            x, y = self.rv(a[0], st), self.rv(a[1], st)
            if op in ('+', '-') and (type(x) in (Iter, Ptr)):
                return self.arith(op, x, y, 'int', n)
            strs = [is_string_t(z.get('t', '')) for z in a]
            if any(strs) or (type(x) is T and x.kind == 'string') or (type(y) is T and y.kind == 'string'):
                if type(x) is T and type(y) is T:
                    if op == '+':
                        return cat(x if not is_int_t(a[0].get('t', '')) else self.chr(x), y if not is_int_t(a[1].get('t', '')) else self.chr(y))
                    if op in ('==', '!='):
                        r = eq(x, y)
                        return r if op == '==' else not_(r)
                    if op in ('<', '>', '<=', '>='):
                        return fn_bool('str' + op, x, y)
            if type(x) is Opq and type(y) is Opq and op == '|':
                return Opq('flags')
            if type(x) in (Arr, Vec, View) or type(y) in (Arr, Vec, View):
                if op in '+-*/':
                    return self.eig_arith(op, x, y, st, n)
                if op in ('<', '>', '<=', '>=', '==', '!='):
                    x = self.arr(x, st, n) if type(x) is not T else x
                    y = self.arr(y, st, n) if type(y) is not T else y
                    if fnm.startswith('std::') and type(x) is Arr and type(y) is Arr:
                        k = bv('k', ZERO, x.shape[0])
                        r = and_(eq(x.shape[0], y.shape[0]),
                                 not_(exists(k, ZERO, x.shape[0], ne(self.rd(x, (k,)), self.rd(y, (k,))))))
                        return r if op == '==' else not_(r)
                    if type(x) in (Arr, T) and type(y) in (Arr, T):
                        return self.amap(lambda p, q: self.compare(op, p, q, n), x, y)
                if op in ('&&', '||') and type(x) is Arr and type(y) is Arr:
                    return self.amap(and_ if op == '&&' else or_, self.amap(truth, x), self.amap(truth, y))
            if type(x) is T and type(y) is T and op in ('==', '!=', '<', '>', '<=', '>='):
                return self.compare(op, x, y, n)
            if (type(x) is Iter and type(y) is Iter) and op in ('==', '!=', '<', '>', '<=', '>='):
                return self.compare(op, x, y, n)
            if type(x) is Opq and x.why == 'stream' or type(y) is Opq:
                self.gap('operator on opaque value', n)
                return unk('operator')
        if len(a) == 1 or op in ('++', '--'):
            l = self.ev(a[0], st)
            x = self.read(l, st, n)
            if op == '-' and type(x) in (Arr, Vec):
                return self.amap(neg, self.arr(x, st, n))
            if op == '!' and type(x) is Arr:
                return self.amap(lambda t: not_(truth(t)), x)
            if op == '!' and type(x) is Opq and x.why == 'stream':
                return self.stream_fail(x, st)
            if op == '*' and type(x) in (Iter, Ptr):
                return self.deref(x, st, n)
            if op == '->' and type(x) in (Iter, Ptr):
                return x
            if op in ('++', '--') and type(x) is Iter:
                v = Iter(x.lv, add(x.pos, ONE if op == '++' else num(-1)), x.arr)
                self.write(l, v, st, n)
                return x if len(a) == 2 else l
        for z in a:
            self.ev(z, st)
        self.gap('operator%s (%s)' % (op, fnm[:60]), n)
        return unk('operator ' + op)

    def chr(self, t):
        if type(t) is T and t.op == 'num':
            try:
                return string(chr(t.a[0]))
            except (ValueError, TypeError):
                pass
        r = fn('chr', t if type(t) is T else string('?'))
        r.kind = 'string'
        return r

    def peek(self, n, st):
        x = n
        while x['k'] in ('ImplicitCastExpr', 'ParenExpr', 'MaterializeTemporaryExpr'):
            x = x['c'][0]
        if x['k'] == 'DeclRefExpr' and x.get('dk') in ('Var', 'ParmVar'):
            key = self.frame.ids.get(x['d']) or self.key_of(x['d'])
            v = st.s.get(key)
            for _ in range(4):
                if type(v) is LV and v.idx is None:
                    v = st.s.get(v.key)
            return v
        return None

    def assign(self, l, v, st, n, a):
        """class-type assignment"""
        if type(l) is LV and l.idx is None:
            old = st.s.get(l.key)
            if type(v) is Vec and type(old) is Arr:
                w = self.vec2arr(v)
                if w is not None:
                    v = w
            if type(old) is Arr and type(v) is T:
                # array = scalar
                self.write(l, old.w(d=ExprDef(formals(old.shape), v)), st, n)
                return l
            if type(old) is Arr and type(v) is Arr and v.rank != old.rank:
                self.gap('assignment between different ranks', n)
            if type(old) is Vec and type(v) is Arr:
                self.share(l.key, None, 'w', n, st)
                st.s[l.key] = v.w(gen=newgen(), ety=old.ety or v.ety, std=True)
                self.touch(l.key, n, st)
                return l
            if type(old) is Obj and type(v) is Obj:
                for k in [k for k in st.s if k[0] == 'o' and k[1] == v.oid]:
                    st.s[('o', old.oid, k[2])] = self.copy_value(st.s[k], st)
                    self.touch(('o', old.oid, k[2]), n, st)
                return l
            self.write(l, self.copy_value(v, st) if type(v) in (Vec,) else v, st, n)
            return l
        if type(l) is View:
            if type(v) is Vec:
                v = self.vec2arr(v)
            self.write(l, v, st, n)
            return l
        if type(l) in (LV, Choice):
            self.write(l, v, st, n)
            return l
        if type(l) is Arr:
            self.gap('assignment to a temporary array', n)
            return l
        self.gap('assignment to %r' % (l,), n)
        return l

    def eig_arith(self, op, x, y, st, n):
        if type(x) is View:
            x = self.read(x, st, n)
        if type(y) is View:
            y = self.read(y, st, n)
        if type(x) is Choice:
            x = self.arr(x, st, n)
        if type(y) is Choice:
            y = self.arr(y, st, n)
        if type(x) is Vec:
            x = self.vec2arr(x)
        if type(y) is Vec:
            y = self.vec2arr(y)
        if type(x) is T and type(y) is T:
            return self.arith(op, x, y, 'double', n)
        if type(x) not in (Arr, T) or type(y) not in (Arr, T):
            self.gap('array arithmetic on %r' % type(x).__name__, n)
            return unk('array arithmetic')
        if op == '*' and type(x) is Arr and type(y) is Arr and (x.mat and y.mat) and (x.rank == 2 or y.rank == 2):
            return self.matmul(x, y, st, n)
        self.shapes_agree(x, y, st, n)
        isint = (type(x) is Arr and x.ety == 'int' or type(x) is T) and (type(y) is Arr and y.ety == 'int' or type(y) is T)

        def f(p, q):
            if is_bool(p):
                p = b2i(p)
            if is_bool(q):
                q = b2i(q)
            if op == '+':
                return add(p, q)
            if op == '-':
                return sub(p, q)
            if op == '*':
                return mul(p, q)
            if isint:
                return idiv(p, q)
            self.emit('fdiv', n, st, den=q)
            return div(p, q)
        return self.amap(f, x, y)

    def matmul(self, x, y, st, n):
        if x.rank == 2 and y.rank == 1:
            self.emit('shape', n, st, a=x.shape[1], b=y.shape[0])
            k = bv('k', ZERO, x.shape[1])
            fs = formals((x.shape[0],))
            return Arr(1, (x.shape[0],), ExprDef(fs, sum_(k, ZERO, x.shape[1], mul(self.rd(x, (fs[0], k)), self.rd(y, (k,))))),
                       newgen(), 'real', True)
        if x.rank == 2 and y.rank == 2:
            self.emit('shape', n, st, a=x.shape[1], b=y.shape[0])
            k = bv('k', ZERO, x.shape[1])
            sh = (x.shape[0], y.shape[1])
            fs = formals(sh)
            return Arr(2, sh, ExprDef(fs, sum_(k, ZERO, x.shape[1], mul(self.rd(x, (fs[0], k)), self.rd(y, (k, fs[1]))))),
                       newgen(), 'real', True)
        if x.rank == 1 and y.rank == 2:
            # row vector (transposed) times matrix
            k = bv('k', ZERO, x.shape[0])
            fs = formals((y.shape[1],))
            return Arr(1, (y.shape[1],), ExprDef(fs, sum_(k, ZERO, x.shape[0], mul(self.rd(x, (k,)), self.rd(y, (k, fs[0]))))),
                       newgen(), 'real', True)
        self.gap('matrix product', n)
        return unk('matrix product')

    # comma initialiser:  a << x, y, z;
    def comma_start(self, l, v, x, st, n):
        o = Opq('comma', target=l, pos=0)
        return self.comma_next(o, x, st, n)

    def comma_next(self, o, x, st, n):
        l = o.target
        base = self.read(l, st, n) if type(l) is not View else None
        rank = l.rank if type(l) is View else base.rank
        if type(x) is T and rank == 1:
            i = o.pos if type(o.pos) is T else num(o.pos)
            lv = LV(l.key, (i,)) if type(l) is LV else LV(l.base.key, l.fwd((i,)))
            self.write(lv, x, st, n)
            return Opq('comma', target=l, pos=add(i, ONE))
        if type(x) is Arr and rank == 1:
            i = o.pos if type(o.pos) is T else num(o.pos)
            arr = self.read(l, st, n)
            self.write(self.segment(l, arr, i, x.shape[0], st, n), x, st, n)
            return Opq('comma', target=l, pos=add(i, x.shape[0]))
        if type(x) is T and rank == 2:
            sh = l.shape if type(l) is View else base.shape
            if sh[1].op == 'num':
                p = o.pos if type(o.pos) is int else o.pos.a[0]
                i = (num(p // sh[1].a[0]), num(p % sh[1].a[0]))
                lv = LV(l.key, i) if type(l) is LV else LV(l.base.key, l.fwd(i))
                self.write(lv, x, st, n)
                return Opq('comma', target=l, pos=p + 1)
        self.gap('comma initialiser', n)
        return Opq('comma', target=l, pos=o.pos)

    # ------------------------------------------------------------ stream input (token model)
    def stream_in(self, v, l, an, st, n):
        sid = v.sid
        pos = st.s[('strm', sid, 'pos')]
        fail = st.s[('strm', sid, 'fail')]
        name = st.s[('strm', sid, 'name')]
        t = base_t(an.get('t', ''))
        if is_int_t(t):
            ok = fn_bool('isint', pos)
            val = fn('tokint', pos)
            val.kind = 'int'
        elif is_float_t(t):
            ok = fn_bool('isnum', pos)
            val = fn('toknum', pos)
        else:
            ok = fn_bool('istok', pos)
            val = fn('tokstr', pos)
            val.kind = 'string'
        self.emit('input', n, st, pos=pos, t=t)
        good = and_(not_(fail), ok)
        old = self.read(l, st, n)
        if type(old) is not T:
            old = unk('old')
        zero = ZERO if (is_int_t(t) or is_float_t(t)) else string('')
        nv = ite(good, val, ite(fail, old, zero))
        if nv.op == 'ite' and val.kind:
            nv.kind = val.kind
        self.write(l, nv, st, n)
        st.s[('strm', sid, 'pos')] = ite(good, add(pos, ONE), pos)
        st.s[('strm', sid, 'fail')] = or_(fail, not_(ok))

    # ------------------------------------------------------------ iterators
    def iter_range(self, a, b, st, n):
        if type(a) is Ptr and type(b) is Ptr:
            arr = st.s.get(a.lv.key)
            base = self.flat_index(arr, a.lv.idx)
            lo, hi = add(base, a.off), add(self.flat_index(arr, b.lv.idx), b.off)
            a = Iter(LV(a.lv.key), lo, arr)
            b = Iter(LV(b.lv.key), hi, arr)
        if type(a) is not Iter or type(b) is not Iter:
            self.gap('iterator range', n)
            return Arr(1, (unk('range'),), UnkDef(1, 'range'))
        arr = self.read(a.lv, st, n) if a.lv is not None else a.arr
        if type(arr) is Vec:
            arr = self.vec2arr(arr)
        if type(arr) is not Arr:
            return Arr(1, (unk('range'),), UnkDef(1, 'range'))
        m = sub(b.pos, a.pos)
        if a.pos is ZERO and arr.rank == 1:
            return arr.w(shape=(m,), gen=newgen())
        fs = formals((m,))
        i = add(fs[0], a.pos)
        return Arr(1, (m,), ExprDef(fs, self.rd(arr, (i,) if arr.rank == 1 else self.reindex(arr, (i,)))), newgen(), arr.ety)

    def flat_index(self, arr, idx):
        if idx is None:
            return ZERO
        if len(idx) == 2:
            return add(idx[0], mul(idx[1], arr.shape[0]))
        return idx[0]

    def as_iter(self, x, st, n):
        if type(x) is Ptr and x.lv.key in st.s and type(st.s[x.lv.key]) in (Arr, Vec):
            arr = st.s[x.lv.key]
            return Iter(LV(x.lv.key), add(self.flat_index(arr, x.lv.idx), x.off), arr)
        return x

    def seq_update(self, it, cnt, f, st, n):
        """write f(k) at positions it.pos+k, 0<=k<cnt"""
        arr = self.read(it.lv, st, n)
        if type(arr) is Vec:
            if cnt.op == 'num' and it.pos.op == 'num' and len(arr.v) <= 64:
                vv = list(arr.v)
                for k in range(cnt.a[0]):
                    if 0 <= it.pos.a[0] + k < len(vv):
                        vv[it.pos.a[0] + k] = f(num(k))
                    else:
                        self.range_obl(it.pos, cnt, num(len(vv)), st, n)
                self.write(it.lv, Vec(vv, arr.ety, arr.gen), st, n)
                return
            arr = self.vec2arr(arr)
        if type(arr) is not Arr:
            self.gap('algorithm over unknown sequence', n)
            return
        self.range_obl(it.pos, cnt, self.size_of(arr), st, n)
        fs = formals(arr.shape)
        q = fs[0] if arr.rank == 1 else add(fs[0], mul(fs[1], arr.shape[0]))
        c = and_(le(it.pos, q), lt(q, add(it.pos, cnt)))
        self.share(it.lv.key, None, 'w', n, st)
        st.s[it.lv.key] = arr.w(d=UpdDef(arr.d, fs, c, f(sub(q, it.pos)), (self.site(n),)))
        self.touch(it.lv.key, n, st)

    # ------------------------------------------------------------ free functions
    def lib_call(self, name, argn, st, n):
        argn = [a for a in argn if a['k'] != 'CXXDefaultArgExpr']
        full = strip_t(name)
        s = full.split('::')[-1]
        if s.startswith('nc_'):
            return self.nc_call(s, argn, st, n)
        if full.startswith('Eigen::') and s in ('Zero', 'Ones', 'Constant', 'LinSpaced', 'Identity', 'Map', 'NullaryExpr'):
            return self.eig_static(s, [self.rv(a, st) for a in argn], st, n)
        if s in ('begin', 'end', 'cbegin', 'cend') and len(argn) == 1:
            l = self.ev(argn[0], st)
            v = self.read(l, st, n)
            if type(v) in (Arr, Vec):
                return Iter(l if type(l) is LV else None, ZERO if 'begin' in s else self.size_of(v), v)
        if s in ('move', 'forward', 'ref', 'cref', 'as_const', 'addressof') and len(argn) == 1:
            v = self.ev(argn[0], st)
            if s == 'addressof' and type(v) is LV:
                return Ptr(v, getattr(st.s.get(v.key), 'gen', None) if v.idx else None)
            return v
        if s == 'swap' and len(argn) == 2:
            x, y = self.ev(argn[0], st), self.ev(argn[1], st)
            vx, vy = self.read(x, st, n), self.read(y, st, n)
            self.write(x, vy, st, n)
            self.write(y, vx, st, n)
            return NONE
        if s in ('max', 'min') and len(argn) == 2 and not full.startswith('Eigen'):
            x, y = self.rv(argn[0], st), self.rv(argn[1], st)
            if type(x) is T and type(y) is T:
                r = fn(s, self.num_(x), self.num_(y))
                if is_int_t(base_t(n.get('t', ''))) and r.op == 'fn':
                    r.kind = 'int'
                return r
            return self.amap(lambda p, q: fn(s, p, q), x, y)
        vals = [self.rv(a, st) for a in argn]
        if s in CMATH:
            return self.cmath(s, vals, argn, st, n)
        if s in ('omp_get_max_threads', 'omp_get_num_procs', 'omp_get_thread_limit', 'hardware_concurrency'):
            return sym('omp.max_threads', 'int')
        if s == 'omp_get_num_threads':
            return sym('omp.num_threads', 'int')
        if s == 'omp_get_thread_num':
            return self.nondet('omp.thread_num', n)
        if s in ('omp_get_wtime', 'clock', 'time', 'now', 'rand', 'random', 'drand48', 'getpid', 'getenv'):
            self.emit('nondet', n, st, what=s)
            return self.nondet('nondet.' + s, n)
        if s in ('omp_set_num_threads', 'omp_set_dynamic', 'omp_set_lock', 'omp_unset_lock', 'omp_init_lock', 'omp_destroy_lock',
                 'setlocale', 'fflush', 'free', '__builtin_expect', 'assert'):
            return vals[0] if s == '__builtin_expect' else NONE
        if s in ('setprecision', 'setw', 'setfill', 'setbase', 'setiosflags', 'resetiosflags'):
            v = vals[0] if type(vals[0]) is T else ZERO
            if s == 'setfill':
                v = self.chr(v)
            return Opq('manip', what=s, val=v)
        if s == 'to_string':
            return self.to_str(vals[0])
        if s in ('strlen',):
            return self.strlen(vals[0])
        if s in ('stoi', 'atoi', 'stol', 'strtol', 'atof', 'stod'):
            r = fn(s, vals[0])
            r.kind = 'int' if s in ('stoi', 'atoi', 'stol', 'strtol') else None
            return r
        if s in ('exit', 'abort', 'terminate', '_Exit', 'quick_exit'):
            self.emit('exit', n, st, code=vals[0] if vals else None)
            raise Dead()
        if s in ('printf', 'puts', 'putchar', 'fprintf', 'fputs'):
            for v in vals:
                self.emit('print', n, st, critical=self.critical, stream='std::cout', sid=None, val=v, fmt=None)
            return ZERO
        if s in ('make_pair', 'pair') and len(vals) == 2:
            self.tmp += 1
            o = Obj(('obj', 'pair', self.tmp), 'std::pair')
            st.s[('o', o.oid, 'first')], st.s[('o', o.oid, 'second')] = vals
            return o
        if full.startswith('std::') or full.startswith('__gnu'):
            r = self.std_algo(s, vals, argn, st, n)
            if r is not NotImplemented:
                return r
        if any(type(v) in (Arr, Vec) for v in vals) and (s in UNARY or s in ('square', 'pow', 'max', 'min')):
            v = self.arr(vals[0], st, n)
            if s in UNARY:
                return self.amap(lambda x: fn(UNARY[s], x), v)
            if s == 'square':
                return self.amap(lambda x: mul(x, x), v)
            if s == 'pow':
                return self.amap(lambda x, y: fn('pow', x, y), v, vals[1])
        self.gap('call to ' + (full or '?'), n)
        self.emit('extcall', n, st, fn=full)
        # unknown functions may write through their pointer arguments
        for v in vals:
            if type(v) is Ptr and v.lv.key in st.s:
                self.havoc(v.lv, st, n)
        t = base_t(n.get('t', ''))
        return unk('call to ' + s) if t != 'void' else NONE

    def havoc(self, lv, st, n):
        v = st.s.get(lv.key)
        if type(v) is Arr:
            st.s[lv.key] = v.w(d=UnkDef(v.rank, 'written by library call'))
        elif type(v) is T:
            st.s[lv.key] = unk('written by library call')
        self.touch(lv.key, n, st)

    def nondet(self, name, n):
        self.tmp += 1
        return sym('%s@%s' % (name, n.get('l')), 'int')

    def cmath(self, s, vals, argn, st, n):
        if any(type(v) in (Arr, Vec, View) for v in vals):
            v = self.arr(vals[0], st, n)
            if s in UNARY:
                return self.amap(lambda x: fn(UNARY[s], x), v)
            if s == 'pow':
                return self.amap(lambda x, y: fn('pow', x, y), v, vals[1])
            self.gap('array function ' + s, n)
            return Arr(v.rank, v.shape, UnkDef(v.rank, s), newgen(), v.ety)
        xs = [self.num_(self.as_scalar(v, n)) for v in vals]
        if s in ('fabs', 'labs', 'abs'):
            if s in ('abs', 'labs') and is_int_t(n.get('t', '')) and not is_int_t(argn[0].get('t', '')):
                xs = [self.trunc(xs[0])]
            r = fn('abs', xs[0])
            if is_int_t(n.get('t', '')) and r.op == 'fn':
                r.kind = 'int'
            return r
        if s in ('fmax', 'fmin', 'max', 'min'):
            return fn(s.lstrip('f'), *xs)
        if s == 'hypot':
            return fn('sqrt', add(mul(xs[0], xs[0]), mul(xs[1], xs[1])))
        if s == 'fma':
            return add(mul(xs[0], xs[1]), xs[2])
        if s in ('isnan', 'isfinite', 'isinf', 'signbit'):
            return fn_bool(s, *xs) if s != 'isnan' else fn_bool('isnan', *xs)
        if s in ('rint', 'nearbyint', 'lrint', 'llround'):
            s = 'round'
        if s == 'sqrt':
            self.emit('sqrt', n, st, arg=xs[0])
        if s == 'tan':
            return div(fn('sin', xs[0]), fn('cos', xs[0]))
        r = fn(s, *xs)
        if s in ('lround',) and r.op == 'fn':
            r.kind = 'int'
        return r

    def eig_static(self, s, vals, st, n):
        at = arr_type(n.get('t', ''))
        import re
        rank, mat, ety = 1, False, 'real'
        m = re.search(r'Eigen::(Array|Matrix)<([^,<>]+), *(-?\d+), *(-?\d+)', (n.get('t') or '') + ' ' + (n.get('fn') or ''))
        fixed = None
        if m:
            mat = m.group(1) == 'Matrix'
            ety = 'int' if m.group(2).strip() in INTT else 'bool' if m.group(2).strip() == 'bool' else 'real'
            r, c = int(m.group(3)), int(m.group(4))
            rank = 1 if c == 1 or r == 1 else 2
            if r > 0 and (c > 0):
                fixed = (num(r),) if rank == 1 else (num(r), num(c))
        xs = [v if type(v) is T else v for v in vals]
        if s in ('Zero', 'Ones'):
            sh = tuple(self.as_scalar(v, n) for v in xs) or fixed or (ZERO,) * rank
            x = ZERO if s == 'Zero' else ONE
        elif s == 'Constant':
            sh = tuple(self.as_scalar(v, n) for v in xs[:-1]) or fixed or (ZERO,) * rank
            x = self.as_scalar(xs[-1], n)
        elif s == 'LinSpaced':
            if len(xs) == 4:
                xs = xs[1:]
            return self.linspaced(*[self.as_scalar(v, n) for v in xs]).w(ety=ety, mat=mat)
        elif s == 'Identity':
            sh = tuple(self.as_scalar(v, n) for v in xs) or fixed or (ZERO,) * 2
            fs = formals(sh)
            return Arr(2, sh, ExprDef(fs, b2i(eq(*fs))), newgen(), ety, mat)
        else:
            self.gap('Eigen::' + s, n)
            return Arr(rank, (unk('size'),) * rank, UnkDef(rank, s), newgen(), ety, mat)
        if len(sh) == 2 and rank == 1:
            sh = (sh[0] if sh[1] is ONE else sh[1],)
        return Arr(len(sh), sh, ExprDef(formals(sh), x), newgen(), ety, mat)

    def construct_map(self, t, args, st, n):
        args = [a for a in args if a['k'] != 'CXXDefaultArgExpr']
        vals = [self.rv(a, st) for a in args]
        if 'Stride' in t:
            return Opq('stride')
        if 'Map' in t and vals and type(vals[0]) is Ptr:
            lv = vals[0].lv
            arr = st.s.get(lv.key)
            if type(arr) is Arr and all(i is ZERO for i in (lv.idx or ())) and vals[0].off is ZERO:
                if len(vals) == 2 and arr.rank == 1:
                    self.range_obl(ZERO, vals[1], arr.shape[0], st, n)
                    return self.segment(LV(lv.key), arr, ZERO, vals[1], st, n)
                if len(vals) == 3 and arr.rank == 2:
                    return self.block(LV(lv.key), arr, ZERO, ZERO, vals[1], vals[2], st, n)
        self.gap('construction of ' + t[:60], n)
        return Opq('map')

    def std_algo(self, s, vals, argn, st, n):
        its = [self.as_iter(v, st, n) for v in vals]
        if s in ('sort', 'stable_sort', 'reverse', 'fill', 'fill_n', 'copy', 'copy_n', 'iota', 'accumulate', 'transform', 'max_element',
                 'min_element', 'all_of', 'any_of', 'none_of', 'for_each', 'find', 'count', 'distance', 'advance', 'next', 'prev',
                 'is_sorted', 'unique', 'inner_product', 'swap_ranges', 'equal', 'generate') and its and type(its[0]) is Iter:
            a = its[0]
            if s in ('next', 'prev', 'distance', 'advance'):
                if s == 'distance':
                    return sub(its[1].pos, a.pos)
                k = vals[1] if len(vals) > 1 else ONE
                if s == 'advance':
                    l = self.ev(argn[0], st)
                    self.write(l, Iter(a.lv, add(a.pos, k), a.arr), st, n)
                    return NONE
                return Iter(a.lv, add(a.pos, k) if s == 'next' else sub(a.pos, k), a.arr)
            if s in ('fill_n', 'copy_n'):
                cnt = self.as_scalar(vals[1], n)
                b = None
            else:
                b = its[1]
                if type(b) is not Iter:
                    return NotImplemented
                cnt = sub(b.pos, a.pos)
            src = self.iter_range(a, Iter(a.lv, add(a.pos, cnt), a.arr), st, n)
            if s in ('fill', 'fill_n'):
                x = self.as_scalar(vals[2], n)
                self.seq_update(a, cnt, lambda k: x, st, n)
                return NONE
            if s in ('copy', 'copy_n'):
                d = its[2]
                if type(d) is not Iter:
                    return NotImplemented
                self.range_obl(a.pos, cnt, self.size_of(self.arrv(a, st, n)), st, n)
                self.seq_update(d, cnt, lambda k: self.rd(src, (k,)), st, n)
                return Iter(d.lv, add(d.pos, cnt), d.arr)
            if s == 'iota':
                x = self.as_scalar(vals[2], n)
                self.seq_update(a, cnt, lambda k: add(x, k), st, n)
                return NONE
            if s == 'reverse':
                v = self.read(a.lv, st, n)
                if type(v) is Vec and a.pos is ZERO and cnt.op == 'num' and cnt.a[0] == len(v.v):
                    self.write(a.lv, Vec(tuple(reversed(v.v)), v.ety, v.gen), st, n)
                    return NONE
                self.seq_update(a, cnt, lambda k: self.rd(src, (sub(sub(cnt, ONE), k),)), st, n)
                return NONE
            if s == 'generate' or s == 'unique' or s == 'swap_ranges':
                return NotImplemented
            if s in ('sort', 'stable_sort'):
                v = self.arrv(a, st, n)
                if a.lv is None or type(v) is not Arr or len(vals) > 2:
                    return NotImplemented
                self.share(a.lv.key, None, 'w', n, st)
                st.s[a.lv.key] = v.w(d=SortDef(v.d, a.pos, b.pos))
                self.touch(a.lv.key, n, st)
                return NONE
            if s == 'is_sorted' and len(vals) == 2:
                k = bv('k', ZERO, sub(cnt, ONE))
                return not_(exists(k, ZERO, sub(cnt, ONE), lt(self.rd(src, (add(k, ONE),)), self.rd(src, (k,)))))
            if s == 'accumulate' and len(vals) == 3:
                k = bv('k', ZERO, cnt)
                return add(self.as_scalar(vals[2], n), sum_(k, ZERO, cnt, self.rd(src, (k,))))
            if s == 'inner_product' and len(vals) == 4 and type(its[2]) is Iter:
                k = bv('k', ZERO, cnt)
                s2 = self.iter_range(its[2], Iter(its[2].lv, add(its[2].pos, cnt), its[2].arr), st, n)
                return add(self.as_scalar(vals[3], n), sum_(k, ZERO, cnt, mul(self.rd(src, (k,)), self.rd(s2, (k,)))))
            if s in ('max_element', 'min_element') and len(vals) == 2:
                # position of the first extreme element is left opaque; the value is the reduction
                mm = s[:3]
                val = self.reduce_loop(sub(cnt, ONE), self.rd(src, (ZERO,)), lambda i, r: fn(mm, r, self.rd(src, (add(i, ONE),))),
                                       'int' if src.ety == 'int' else 'real')
                return Iter(None, ZERO, Arr(1, (ONE,), ExprDef(formals((ONE,)), val)))
            if s in ('all_of', 'any_of', 'none_of'):
                k = bv('k', ZERO, cnt)
                p = vals[2]
                if type(p) is Clos:
                    s2 = St(dict(st.s), st.pc)
                    r = self.call_closure(p, [{'k': 'Value', 'v': self.rd(src, (k,)), 't': 'int32'}], s2, n)
                    r = truth(self.as_scalar(r, n))
                    if s == 'any_of':
                        return exists(k, ZERO, cnt, r)
                    if s == 'none_of':
                        return not_(exists(k, ZERO, cnt, r))
                    return not_(exists(k, ZERO, cnt, not_(r)))
            if s == 'find' and len(vals) == 3:
                k = bv('k', ZERO, cnt)
                pos = first(k, ZERO, cnt, eq(self.rd(src, (k,)), self.as_scalar(vals[2], n)))
                return Iter(a.lv, add(a.pos, pos), a.arr)
            if s == 'count' and len(vals) == 3:
                k = bv('k', ZERO, cnt)
                return sum_(k, ZERO, cnt, b2i(eq(self.rd(src, (k,)), self.as_scalar(vals[2], n))))
            if s == 'for_each' and type(vals[2]) is Clos:
                return NotImplemented
            if s == 'transform' and len(vals) == 4 and type(vals[3]) is Clos and type(its[2]) is Iter:
                d = its[2]
                s2 = St(dict(st.s), st.pc)
                k0 = bv('k', ZERO, cnt)
                r = self.call_closure(vals[3], [{'k': 'Value', 'v': self.rd(src, (k0,)), 't': 'double'}], s2, n)
                r = self.as_scalar(r, n)
                self.seq_update(d, cnt, lambda k: subst(r, {k0: k}), st, n)
                return NONE
        if s in ('make_unique', 'make_shared'):
            return NotImplemented
        if s == 'clamp' and len(vals) == 3:
            return fn('min', fn('max', vals[0], vals[1]), vals[2])
        if s in ('real',):
            return vals[0]
        return NotImplemented

    def arrv(self, it, st, n):
        v = self.read(it.lv, st, n) if it.lv is not None else it.arr
        if type(v) is Vec:
            v = self.vec2arr(v)
        return v

    # ------------------------------------------------------------ netCDF
    def nc_status(self, what, *key):
        """return code of a netCDF call in its calling context: 0 or an error"""
        ctx = '>'.join(str(f.callsite) for f in self.frames if getattr(f, 'callsite', None)) or '.'
        its = [L.it for L in self.lstack if not L.par]
        self.ncc = getattr(self, 'ncc', 0)
        t = fn('ncst', string(what), string(ctx), *([k for k in key if type(k) is T] + its))
        t.kind = 'int'
        return t

    def nc_call(self, s, argn, st, n):
        if s == 'nc_strerror':
            v = self.rv(argn[0], st)
            r = fn('strerror', v)
            r.kind = 'string'
            return r
        vals = [self.rv(a, st) for a in argn]
        if s in ('nc_open', 'nc_create'):
            h = sym('nc.handle%d' % (n.get('l', 0)), 'int')
            stt = self.nc_status(s, vals[0])
            self.emit('nc', n, st, f=s, args=vals, status=stt, handle=h)
            self.out_param(vals[2], h, stt, st, n)
            return stt
        h = vals[0] if type(vals[0]) is T else unk('handle')
        if s in ('nc_inq_varid', 'nc_inq_dimid'):
            kind = 'varid' if s == 'nc_inq_varid' else 'dimid'
            stt = self.nc_status(s, vals[1])
            have = self.fileimg if kind == 'varid' else self.filedims
            if have is not None and vals[1].op == 'str' and vals[1].a[0] not in have:
                stt = num(-49 if kind == 'varid' else -46)   # NC_ENOTVAR / NC_EBADDIM
            self.emit('nc', n, st, f=s, args=vals, status=stt, handle=h, name=vals[1])
            v = fn('nc.' + kind, h, vals[1])
            v.kind = 'int'
            self.out_param(vals[2], v, stt, st, n)
            return stt
        if s == 'nc_inq_dimlen':
            stt = self.nc_status(s, vals[1])
            nm = vals[1].a[2] if vals[1].op == 'fn' and vals[1].a[0] == 'nc.dimid' else None
            v = self.file_dim(nm) if nm is not None else unk('dimension length')
            self.emit('nc', n, st, f=s, args=vals, status=stt, handle=h, name=nm)
            self.out_param(vals[2], v, stt, st, n)
            return stt
        if s == 'nc_inq':
            stt = self.nc_status(s)
            self.emit('nc', n, st, f=s, args=vals, status=stt, handle=h)
            for i, p in enumerate(vals[1:]):
                if type(p) is Ptr:
                    self.out_param(p, sym('file.inq%d' % i, 'int'), stt, st, n)
            return stt
        if s.startswith('nc_get_var'):
            vid = vals[1]
            nm = vid.a[2] if vid.op == 'fn' and vid.a[0] == 'nc.varid' else None
            stt = self.nc_status(s, vid)
            self.emit('nc', n, st, f=s, args=vals, status=stt, handle=h, name=nm, target=vals[-1])
            self.file_read(s, nm, vals[-1], stt, st, n)
            return stt
        if s == 'nc_def_dim':
            did = fn('nc.dim', h, vals[1])
            did.kind = 'int'
            stt = self.nc_status(s, vals[1])
            self.emit('nc', n, st, f=s, args=vals, status=stt, handle=h, name=vals[1], length=vals[2], id=did)
            self.out_param(vals[3], did, stt, st, n)
            return stt
        if s == 'nc_def_var':
            vid = fn('nc.var', h, vals[1])
            vid.kind = 'int'
            stt = self.nc_status(s, vals[1])
            nd = vals[3]
            dims = []
            if nd.op == 'num' and nd.a[0] > 0 and type(vals[4]) is Ptr:
                for i in range(nd.a[0]):
                    p = vals[4]
                    lv = self.deref(self.ptr_add(p, num(i)) if i else p, st, n)
                    dims.append(self.read(lv, st, n))
            elif nd.op != 'num' or nd.a[0] > 0:
                self.gap('nc_def_var with symbolic rank', n)
            self.emit('nc', n, st, f=s, args=vals, status=stt, handle=h, name=vals[1], type=vals[2], ndims=nd, dims=dims, id=vid)
            self.out_param(vals[5], vid, stt, st, n)
            return stt
        if s in ('nc_enddef', 'nc_close', 'nc_redef', 'nc_sync', 'nc_abort'):
            stt = self.nc_status(s)
            self.emit('nc', n, st, f=s, args=vals, status=stt, handle=h)
            return stt
        if s.startswith('nc_put_att'):
            stt = self.nc_status(s, vals[1], vals[2])
            self.emit('nc', n, st, f=s, args=vals, status=stt, handle=h, var=vals[1], att=vals[2], length=vals[3] if len(vals) > 3 else None,
                      val=vals[4] if len(vals) > 4 else None)
            return stt
        if s.startswith('nc_put_var'):
            stt = self.nc_status(s, vals[1])
            puts = []

            def leaf(p, g):
                if type(p) is Choice:
                    leaf(p.a, g + (p.c,))
                    leaf(p.b, g + (not_(p.c),))
                    return
                content, ok = None, type(p) is Ptr
                if ok:
                    if p.lv.key not in st.s:
                        self.emit('dangling', n, St(st.s, st.pc + g), key=p.lv.key, f=s, var=vals[1])
                        ok = False
                    else:
                        content = st.s[p.lv.key]
                        if p.gen is not None and getattr(content, 'gen', None) != p.gen:
                            self.emit('stale', n, St(st.s, st.pc + g), key=p.lv.key, f=s, var=vals[1])
                            ok = False
                puts.append((g, p, content, ok))
            leaf(vals[-1], ())
            p, content = vals[-1], puts[0][2] if len(puts) == 1 else None
            self.emit('nc', n, st, f=s, args=vals, status=stt, handle=h, var=vals[1], ptr=p, content=content, puts=puts)
            return stt
        self.gap('netCDF call ' + s, n)
        stt = self.nc_status(s)
        self.emit('nc', n, st, f=s, args=vals, status=stt, handle=h)
        for v in vals[1:]:
            if type(v) is Ptr and s.startswith('nc_inq'):
                self.havoc(v.lv, st, n)
        return stt

    def out_param(self, p, v, stt, st, n):
        if type(p) is not Ptr:
            return
        lv = self.deref(p, st, n)
        if type(lv) is not LV:
            return
        self.write(lv, v, st, n)

    def file_dim(self, nm):
        if nm.op == 'str' and self.filedims is not None and nm.a[0] in self.filedims:
            return self.filedims[nm.a[0]]
        if nm.op == 'str':
            return sym('file.dim.' + nm.a[0], 'int')
        return fn('file.dim', nm)

    filedefs = None
    fileimg = None     # name -> scalar term | (extents, index -> term): contents of the file being read
    filefix = None     # name -> scalar term
    filedims = None    # dimension name -> term
    REALVARS = ('aspect', 'aspect_b')
    INTARRS = ()

    def file_read(self, s, nm, p, stt, st, n):
        if type(p) is not Ptr:
            return
        name = nm.a[0] if nm is not None and nm.op == 'str' else None
        if name is None:
            self.gap('file read with symbolic name', n)
            self.havoc(p.lv, st, n)
            return
        lv = self.deref(p, st, n)
        if type(lv) is not LV:
            return
        v = st.s.get(lv.key)
        isint = s.endswith('_int')
        if lv.idx is None or type(v) is T:
            val = None
            if self.fileimg is not None:
                val = self.fileimg.get(name)
                if type(val) is not T:
                    self.gap('file variable %s is not a scalar' % name, n)
                    val = unk('file.' + name)
            elif self.filefix is not None:
                val = self.filefix.get(name)
            if val is None:
                val = sym('file.' + name, 'int' if isint else 'real')
                if isint and name in self.REALVARS or name in self.INTARRS:
                    val = fn('trunc', sym('file.' + name, 'real'))
            self.emit('fileread', n, st, name=name, key=lv.key, shape=(), rank=0, idx=lv.idx)
            self.write(lv, val, st, n)
            return
        if type(v) is not Arr:
            self.gap('file read into %r' % type(v).__name__, n)
            return
        if self.filedefs is None:
            self.filedefs = {}
        img = self.fileimg.get(name) if self.fileimg is not None else None
        if not all(i is ZERO for i in lv.idx):
            self.gap('file read into the middle of an array', n)
        # the file stores slowest dimension first: column-major memory order of (mode, surface) arrays
        d = self.filedefs.get((name, v.rank))
        if self.fileimg is not None and not (type(img) is tuple and len(img[0]) == v.rank):
            self.gap('contents of file variable %s not known (or of another rank)' % name, n)
            self.emit('fileread', n, st, name=name, key=lv.key, shape=v.shape, rank=v.rank)
            st.s[lv.key] = v.w(d=UnkDef(v.rank, 'contents of file variable ' + name))
            self.touch(lv.key, n, st)
            return
        if img is not None:
            d = self.filedefs[(name, v.rank)] = InputDef('img.' + name, v.rank, 'int' if isint else 'real', v.shape, expand=img[1])
        if d is None:
            d = InputDef('file.' + name, v.rank, 'int' if isint else 'real', v.shape)
            self.filedefs[(name, v.rank)] = d
        self.share(lv.key, None, 'w', n, st)
        self.emit('fileread', n, st, name=name, key=lv.key, shape=v.shape, rank=v.rank)
        st.s[lv.key] = v.w(d=d)
        self.touch(lv.key, n, st)
        self.emit('set', n, st, key=lv.key, val=st.s[lv.key])
