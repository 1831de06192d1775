"""Loop summarisation: loops become closed forms where the recurrences can be
solved symbolically, and recurrence nodes (mu-terms) otherwise."""
from .terms import *
from . import terms as tm
from . import nf as N
from .interp import *
from .ev import Exit

INF = object()
DBG = 0


class LoopMixin:
    # ------------------------------------------------------------ statements
    def x_ForStmt(self, n, st, par=None):
        old = self.sink
        declared = []
        fr = self.frame
        osc = getattr(fr, 'scope', None)
        fr.scope = declared
        self.sink = []
        try:
            alive = True
            if n.get('init'):
                alive = self.exec(n['init'], st)
            if alive:
                alive = self.loop(n, st, n.get('cond'), n.get('body'), n.get('inc'), False, par)
        finally:
            fr.scope = osc
            mine = self.sink
            self.sink = old
        for e in mine:
            self.leave_scope(declared, e.st, n)
            self.sink.append(e)
        if alive:
            self.leave_scope(declared, st, n)
        return alive

    def x_WhileStmt(self, n, st):
        return self.loop(n, st, n['cond'], n['body'], None, False, None)

    def x_DoStmt(self, n, st):
        return self.loop(n, st, n['cond'], n['body'], None, True, None)

    def x_CXXForRangeStmt(self, n, st, par=None):
        r = self.ev(n['range'], st)
        if type(r) not in (LV, View):
            self.tmp += 1
            key = ('tmp', self.tmp)
            st.s[key] = r
            r = LV(key)
        v = self.read(r, st, n)
        if type(v) is Arr and v.rank == 1:
            size = v.shape[0]
        elif type(v) is Vec:
            size = num(len(v.v))
        else:
            self.gap('range-for over %r' % (v,), n)
            raise Dead()
        fr = self.frame
        self.tmp += 1
        ck = ('v', fr.uid, 'range%d' % self.tmp)
        st.s[ck] = ZERO
        var = n['var']

        class Syn:
            pass
        fr.ids['$range%d' % self.tmp] = ck
        cid = '$range%d' % self.tmp
        dref = {'k': 'DeclRefExpr', 'd': cid, 'n': cid, 'dk': 'Var', 'lv': True, 't': 'int32', 'l': n.get('l')}
        rvl = {'k': 'ImplicitCastExpr', 'ck': 'LValueToRValue', 'c': [dref], 't': 'int32', 'l': n.get('l')}
        cond = {'k': 'BinaryOperator', 'op': '<', 't': 'bool', 'c': [rvl, {'k': 'Value', 'v': size, 't': 'int32'}], 'l': n.get('l')}
        inc = {'k': 'UnaryOperator', 'op': '++', 'c': [dref], 't': 'int32', 'l': n.get('l')}
        body = {'k': 'RangeBody', 'var': var, 'src': r, 'cnt': rvl, 'body': n['body'], 'l': n.get('l')}
        ok = self.loop(n, st, cond, body, inc, False, par)
        st.s.pop(ck, None)
        return ok

    def e_Value(self, n, st):
        return n['v']

    def x_RangeBody(self, n, st):
        k = self.scal(n['cnt'], st)
        var = n['var']
        key = ('v', self.frame.uid, var['id'])
        self.frame.ids[var['id']] = key
        src = n['src']
        if type(src) is LV:
            el = LV(src.key, (k,))
        else:
            el = LV(src.base.key, src.fwd((k,)))
        if is_ref(var['t']):
            st.s[key] = el
        else:
            st.s[key] = self.read(el, st, n)
        old = self.sink
        self.sink = []
        ok = self.exec(n['body'], st)
        mine = self.sink
        self.sink = old
        for e in mine:
            e.st.s.pop(key, None)
            self.sink.append(e)
        st.s.pop(key, None)
        return ok

    # ------------------------------------------------------------ OpenMP
    def x_omp(self, n, st):
        k = n['k']
        body = n.get('body')
        if k in ('OMPCriticalDirective', 'OMPAtomicDirective', 'OMPOrderedDirective'):
            self.critical += 1
            try:
                return self.exec(body, st)
            finally:
                self.critical -= 1
        if k in ('OMPBarrierDirective', 'OMPFlushDirective', 'OMPTaskwaitDirective'):
            return True
        par = {'clauses': n.get('clauses') or [], 'private': set(), 'first': set(), 'reduction': set(), 'kind': k, 'last': set()}
        for c in par['clauses']:
            for v in c.get('vars') or []:
                key = self.key_of(v.get('id')) if v.get('id') else None
                if key is None:
                    continue
                if c['kind'] == 'private':
                    par['private'].add(key)
                elif c['kind'] == 'firstprivate':
                    par['private'].add(key)
                    par['first'].add(key)
                elif c['kind'] == 'lastprivate':
                    par['private'].add(key)
                    par['last'].add(key)
                elif c['kind'] == 'reduction':
                    par['reduction'].add(key)
        if body is None:
            return True
        par['site'] = self.site(n)
        if body['k'] == 'ForStmt' and 'For' in k and ('Parallel' in k or self.parregion() is not None):
            return self.x_ForStmt(body, st, par)
        if body['k'] == 'CXXForRangeStmt' and 'For' in k:
            return self.x_CXXForRangeStmt(body, st, par)
        if k == 'OMPParallelDirective':
            # every thread executes the body: treat as one symbolic thread
            L = LoopCtx(bv('thread', ZERO, sym('omp.num_threads')), sym('omp.num_threads'), n, self.site(n), par)
            par['region'] = True
            L.entry = set(st.s)
            self.lstack.append(L)
            try:
                return self.exec(body, st)
            finally:
                self.lstack.pop()
        if k in ('OMPSingleDirective', 'OMPMasterDirective', 'OMPMaskedDirective', 'OMPSectionDirective'):
            self.critical += 1
            try:
                return self.exec(body, st)
            finally:
                self.critical -= 1
        if body['k'] == 'ForStmt' and k in ('OMPSimdDirective',):
            return self.x_ForStmt(body, st)
        self.gap('OpenMP directive ' + k, n)
        return self.exec(body, st)

    def parregion(self):
        for L in self.lstack:
            if L.par and L.par.get('region'):
                return L
        return None

    # ------------------------------------------------------------ driver
    def loop(self, n, st, cond, body, inc, dowhile, par):
        if par is None:
            r = self.try_unroll(n, st, cond, body, inc, dowhile)
            if r is not None:
                self.stats['unrolled'] += 1
                return r
        return self.symbolic(n, st, cond, body, inc, dowhile, par)

    def snapshot(self):
        return (len(self.events), len(self.gaps), len(self.sink), self.seq)

    def rollback(self, s):
        del self.events[s[0]:]
        del self.gaps[s[1]:]
        del self.sink[s[2]:]
        self.seq = s[3]

    def try_unroll(self, n, st, cond, body, inc, dowhile):
        snap = self.snapshot()
        saved = St(dict(st.s), st.pc)
        old = self.sink
        breaks = []
        passed = []
        first = True
        count = 0
        try:
            while True:
                if not (dowhile and first):
                    if cond is not None:
                        c = self.cond(cond, st)
                        d = self.decide(c, st)
                        if d is None:
                            raise _Rollback()
                        if not d:
                            break
                    elif count == 0 and not self._has_break(body):
                        pass
                first = False
                count += 1
                if count > self.UNROLL:
                    raise _Rollback()
                self.sink = []
                alive = self.exec(body, st)
                mine = self.sink
                self.sink = old
                conts = []
                for e in mine:
                    if e.kind == 'break':
                        breaks.append(e.st)
                    elif e.kind == 'continue':
                        conts.append(e.st)
                    else:
                        passed.append(e)
                s = St(st.s, st.pc) if alive else None
                for c in reversed(conts):
                    s = c if s is None else self.merge(c, s)[0]
                if s is None:
                    alive = False
                    break
                st.become(s)
                if inc is not None:
                    self.ev(inc, st)
                alive = True
            else:
                alive = True
        except _Rollback:
            self.sink = old
            self.rollback(snap)
            st.become(saved)
            return None
        finally:
            self.sink = old
        out = St(st.s, st.pc) if (count == 0 or alive) else None
        for b in reversed(breaks):
            out = b if out is None else self.merge(b, out)[0]
        for e in passed:
            self.sink.append(e)
        if out is None:
            return False
        st.become(out)
        return True

    def _has_break(self, b):
        return True

    # ------------------------------------------------------------ symbolic loops
    def changed(self, s0, s1):
        w = set()
        for k, v in s0.items():
            if k in s1:
                u = s1[k]
                if u is not v:
                    if type(u) is Arr and type(v) is Arr and u.d is v.d and u.shape == v.shape:
                        if u.gen != v.gen:
                            w.add(k)
                        continue
                    w.add(k)
        return w

    def symbolic(self, n, st, cond, body, inc, dowhile, par):
        self.stats['loops'] += 1
        entry = St(dict(st.s), st.pc)
        if dowhile:
            # peel the first iteration: body; while(cond) body
            old = self.sink
            self.sink = []
            alive = self.exec(body, st)
            mine = self.sink
            self.sink = old
            brks = []
            conts = []
            for e in mine:
                (brks if e.kind == 'break' else conts if e.kind == 'continue' else self.sink).append(e)
            s = St(st.s, st.pc) if alive else None
            for c in conts:
                s = c.st if s is None else self.merge(c.st, s)[0]
            if s is None:
                if not brks:
                    return False
                s2 = brks[-1].st
                for b in brks[:-1]:
                    s2 = self.merge(b.st, s2)[0]
                st.become(s2)
                return True
            st.become(s)
            ok = self.loop(n, st, cond, body, inc, False, par)
            outs = [St(st.s, st.pc)] if ok else []
            outs += [b.st for b in brks]
            if not outs:
                return False
            s = outs[0]
            for b in outs[1:]:
                s = self.merge(b, s)[0]
            st.become(s)
            return True
        if par:
            for key in par['private']:
                if key not in par['first'] and key in entry.s:
                    v = entry.s[key]
                    if type(v) is T:
                        entry.s[key] = uninit('private copy')
        W = {}          # key -> kind info
        solved = {}     # key -> closed form at `it` (function of it)
        arrshape = set()  # keys whose shape varies
        L = None
        res = None
        for attempt in range(9):
            res = self.one_pass(n, entry, cond, body, inc, W, solved, arrshape, par, quiet=True)
            new = self.changed(res['head'].s, res['next'].s) if res['next'] is not None else set()
            # anything changed on exits counts only for the exit state itself
            grow = [k for k in new if k not in W]
            if grow:
                for k in grow:
                    W[k] = True
                solved = {k: v for k, v in solved.items() if False}
                continue
            if res['next'] is None:
                break
            # shapes
            more = False
            for k in list(W):
                a, b = res['head'].s.get(k), res['next'].s.get(k)
                if type(a) is Arr and type(b) is Arr and k not in arrshape:
                    if not all(self.same(x, y) for x, y in zip(a.shape, b.shape)):
                        arrshape.add(k)
                        more = True
            if more:
                continue
            if not self.solve(res, W, solved, arrshape, entry):
                break
        quiet_final = self.quiet
        res = self.one_pass(n, entry, cond, body, inc, W, solved, arrshape, par, quiet=False)
        return self.finish(res, n, st, entry, W, solved, arrshape, par)

    def same(self, a, b):
        if a is b:
            return True
        try:
            return N.equal(a, b)
        except (N.TooBig, RecursionError):
            return False

    def one_pass(self, n, entry, cond, body, inc, W, solved, arrshape, par, quiet):
        it = bv('i', ZERO, None)
        ofv = frozenset()
        for k in W:
            v = entry.s.get(k)
            if type(v) is T:
                ofv |= v.fv
            elif type(v) is Arr:
                ofv |= v.d.fv
                for x in v.shape:
                    ofv |= x.fv
        for Lc in self.lstack:
            if not (Lc.par and Lc.par.get('region')):
                ofv |= frozenset([Lc.it])
        L = Loop(it, ZERO, ofv)
        st = St(dict(entry.s), entry.pc)
        for k in W:
            v = entry.s.get(k)
            if k in solved:
                st.s[k] = self.inst(solved[k], it, v)
                continue
            st.s[k] = self.placeholder(L, k, it, v, arrshape, solved)
            # initial values for the recurrence
        for k in W:
            v = entry.s.get(k)
            if type(v) is Vec:
                v = self.vec2arr(v)
            if type(v) is T:
                L.init[k] = v
            elif type(v) is Arr:
                L.init[k] = v.d
                for i, x in enumerate(v.shape):
                    L.init[(k, 'shape', i)] = x
        head = St(dict(st.s), st.pc)
        lc = LoopCtx(it, None, n, self.site(n), par)
        lc.entry = set(entry.s)
        if par:
            lc.ckeys = self._indvars(n)
        if par:
            par['it'] = it
        if quiet:
            self.quiet += 1
        old = self.sink
        self.sink = []
        self.lstack.append(lc)
        out = {'it': it, 'L': L, 'head': head, 'next': None, 'brk': [], 'ret': [], 'thr': [], 'lc': lc}
        try:
            if cond is not None:
                # the loop condition may carry events; evaluated before the bound is known
                c = self.cond(cond, st)
            else:
                c = TRUE
            out['c'] = c
            tc = self.trip(c, it, st)
            out['tc'] = tc
            BV.info[it] = (ZERO, tc)
            lc.n = tc
            # c holds inside the body
            basepc = st.pc
            linear = tc is not None
            if not linear or not self.trip_exact:
                st.pc = st.pc + (c,) if c is not TRUE else st.pc
            out['basepc'] = len(basepc)
            if par:
                for key in par['private']:
                    if key in par['first']:
                        st.s[key] = entry.s.get(key, st.s.get(key))
                    elif type(st.s.get(key)) is T and key not in self._indvars(n):
                        st.s[key] = uninit('private variable')
            self.sink = []
            try:
                alive = self.exec(body, st)
            except Dead:
                alive = False
            mine = self.sink
            self.sink = []
            s = St(st.s, st.pc) if alive else None
            conts = []
            for e in mine:
                if e.kind == 'continue':
                    conts.append(e.st)
                elif e.kind == 'break':
                    out['brk'].append(e)
                elif e.kind == 'return':
                    out['ret'].append(e)
                else:
                    out['thr'].append(e)
            for x in reversed(conts):
                s = x if s is None else self.merge(x, s)[0]
            if s is not None:
                if inc is not None:
                    try:
                        self.ev(inc, s)
                    except Dead:
                        s = None
            if s is not None:
                self.simplify_bools(s, W)
                out['next'] = s
            for e in self.sink:
                if e.kind == 'throw':
                    out['thr'].append(e)
        finally:
            self.lstack.pop()
            self.sink = old
            if quiet:
                self.quiet -= 1
        if out['next'] is not None:
            for k in W:
                v = out['next'].s.get(k)
                if type(v) is Vec:
                    v = self.vec2arr(v)
                if type(v) is T:
                    L.next[k] = v
                elif type(v) is Arr:
                    L.next[k] = v.d
                    for i, x in enumerate(v.shape):
                        L.next[(k, 'shape', i)] = x
        L.hi = out.get('tc')
        return out

    def _indvars(self, n):
        out = set()
        inc = n.get('inc')
        st = [inc]
        while st:
            x = st.pop()
            if isinstance(x, dict):
                if x.get('k') == 'DeclRefExpr':
                    k = self.key_of(x['d'])
                    if k:
                        out.add(k)
                st.extend(v for v in x.values() if isinstance(v, (dict, list)))
            elif isinstance(x, list):
                st.extend(x)
        return out

    def simplify_bools(self, s, W):
        for k in W:
            v = s.s.get(k)
            if type(v) is T and is_bool(v) and v not in (TRUE, FALSE):
                d = self.decide_pc(v, s.pc)
                if d is not None:
                    s.s[k] = TRUE if d else FALSE

    def decide_pc(self, v, pc):
        lits = set()
        for p in pc:
            lits.add(p)
            if p.op == 'and':
                lits |= set(p.a)
            if p.op == 'not' and p.a[0].op == 'or':
                lits |= set(not_(x) for x in p.a[0].a)
        if v in lits:
            return True
        if not_(v) in lits:
            return False
        if v.op == 'or':
            ds = [self.decide_pc(x, pc) for x in v.a]
            if any(d is True for d in ds):
                return True
            if all(d is False for d in ds):
                return False
        if v.op == 'and':
            ds = [self.decide_pc(x, pc) for x in v.a]
            if any(d is False for d in ds):
                return False
            if all(d is True for d in ds):
                return True
        if v.op == 'not':
            d = self.decide_pc(v.a[0], pc)
            return None if d is None else not d
        return None

    def placeholder(self, L, k, it, v, arrshape, solved):
        if type(v) is Vec:
            a = self.vec2arr(v)
            if a is None:
                if v.v:
                    return Opq('vector modified in loop')
                return Opq('vector modified in loop')
            v = a
        if type(v) is T:
            kind = v.kind or ('bool' if is_bool(v) else 'int' if v.op == 'num' and isinstance(v.a[0], int) else None)
            nx = L
            t = rec(L, k, it)
            if t.kind is None:
                t.kind = self.kind_hint.get(k) or (kind if kind in ('bool', 'string') else self.kind_hint.get(k))
            return t
        if type(v) is Arr:
            sh = v.shape
            if k in arrshape:
                shs = []
                for i in range(v.rank):
                    kk = (k, 'shape', i)
                    if kk in solved:
                        shs.append(self.inst(solved[kk], it, None))
                    else:
                        t = rec(L, kk, it)
                        t.kind = 'int'
                        shs.append(t)
                sh = tuple(shs)
            return Arr(v.rank, sh, LoopDef(L, k, it, v.rank), v.gen if k not in arrshape else ('loop', L.uid, k), v.ety, v.mat, v.std)
        if type(v) is Ptr or type(v) is Choice:
            return Opq('pointer modified in loop')
        return v

    kind_hint = {}

    def inst(self, sol, it, v):
        """instantiate a solved value at iteration `it`"""
        kind, var, val = sol
        if kind == 'T':
            return subst(val, {var: it})
        if kind == 'A':
            return val.w(d=subst_def(val.d, {var: it}), shape=tuple(subst(x, {var: it}) for x in val.shape))
        return val

    # ------------------------------------------------------------ trip count
    def trip(self, c, it, st):
        """number of iterations for which condition c(it) holds from 0 on"""
        self.trip_exact = False
        if c is TRUE:
            return None
        if c is FALSE:
            self.trip_exact = True
            return ZERO
        try:
            t = self.lin_trip(c, it)
        except (N.TooBig, RecursionError):
            t = None
        if t is not None:
            self.trip_exact = True
            return t
        if c.op == 'and':
            lin = None
            rest = []
            for x in c.a:
                try:
                    t = self.lin_trip(x, it) if lin is None else None
                except (N.TooBig, RecursionError):
                    t = None
                if t is not None and lin is None:
                    lin = t
                else:
                    rest.append(x)
            if lin is not None:
                v = bv('k', ZERO, lin)
                return first(v, ZERO, lin, subst(not_(and_(*rest)), {it: v}))
        v = bv('k', ZERO, None)
        nc = subst(not_(c), {it: v})
        if v not in nc.fv:
            return None
        return first(v, ZERO, None, nc)

    def lin_trip(self, c, it):
        BV.info[it] = (ZERO, None)
        neg_ = False
        if c.op == 'not' and c.a[0].op in ('lt', 'eq'):
            neg_ = True
            c = c.a[0]
        if c.op == 'lt':
            if not neg_:
                p = N.p_add(N.p_add(N.nf(c.a[1]), N.nf(c.a[0]), -1), N.p_const(-1))   # b-a-1 >= 0
            else:
                p = N.p_add(N.nf(c.a[0]), N.nf(c.a[1]), -1)                            # a-b >= 0
            if not N.all_int(p):
                return None
            co = self.lin_coeff(p, it)
            if co is None:
                return None
            beta, alpha = co
            # p = alpha + beta*it >= 0 ; need beta negative constant
            if len(beta) != 1 or () not in beta or beta[()] >= 0:
                return None
            b = -beta[()]
            # it <= alpha/b  -> count = floor(alpha/b)+1 when alpha>=0
            a1 = N.p_add(alpha, N.p_const(b))   # (alpha+b) div b
            if b == 1:
                q = a1
            else:
                q = N.nf(idiv(N.to_term(a1), num(b))) if N.prove_ge0(a1) else N.nf(ite(lt(N.to_term(a1), ZERO), ZERO, idiv(N.to_term(a1), num(b))))
            if N.prove_ge0(q):
                return N.to_term(q)
            return N.canon(fn('max', N.to_term(q), ZERO)) if True else None
        if c.op == 'eq' and neg_:
            p = N.p_add(N.nf(c.a[0]), N.nf(c.a[1]), -1)
            if not N.all_int(p):
                return None
            co = self.lin_coeff(p, it)
            if co is None:
                return None
            beta, alpha = co
            if len(beta) != 1 or () not in beta or abs(beta[()]) != 1:
                return None
            q = N.p_scale(alpha, -beta[()])
            if N.prove_ge0(q):
                return N.to_term(q)
            return None
        return None

    def lin_coeff(self, p, it):
        beta, alpha = {}, {}
        for m, c in p.items():
            d = dict(m)
            if d.get(it) == 1:
                d.pop(it)
                if any(it in t.fv for t in d):
                    return None
                beta[tuple(sorted(d.items(), key=N._key))] = c
            elif any(it in t.fv for t, e in m):
                return None
            else:
                alpha[m] = c
        return beta, alpha

    # ------------------------------------------------------------ solving
    def mentions_L(self, t, L):
        return mentions(t, lambda r: r.a[0].l is L, lambda d: isinstance(d, LoopDef) and d.loop is L)

    def solve(self, res, W, solved, arrshape, entry):
        it, L = res['it'], res['L']
        progress = False
        items = []
        for k in W:
            if k in solved:
                continue
            a, b = res['head'].s.get(k), res['next'].s.get(k)
            if type(a) is T and type(b) is T:
                items.append((k, a, b, entry.s.get(k)))
            elif type(a) is Arr and k in arrshape:
                for i in range(a.rank):
                    kk = (k, 'shape', i)
                    if kk not in solved and type(b) is Arr:
                        v0 = entry.s.get(k)
                        if type(v0) is Vec:
                            v0 = self.vec2arr(v0)
                        items.append((kk, a.shape[i], b.shape[i], v0.shape[i]))
        for k, a, b, v0 in items:
            s = self.solve_scalar(k, a, b, v0, it, L)
            if s is not None:
                solved[k] = ('T', it, s)
                progress = True
        if progress:
            return True
        try:
            table = self.pin_table(res, W, solved, entry)
        except (N.TooBig, RecursionError):
            table = {}
        for k in W:
            if k in solved:
                continue
            a, b = res['head'].s.get(k), res['next'].s.get(k)
            if type(a) is Arr and type(b) is Arr:
                self.cur_table = table
                v0 = entry.s.get(k)
                if type(v0) is Vec:
                    v0 = self.vec2arr(v0)
                if k in arrshape and not all((k, 'shape', i) in solved for i in range(a.rank)):
                    continue
                try:
                    d = self.solve_array(k, a, b, v0, it, L, res)
                except (N.TooBig, RecursionError):
                    d = None
                if d is not None:
                    sh = a.shape
                    solved[k] = ('A', it, Arr(a.rank, sh, d, a.gen, a.ety, a.mat, a.std))
                    progress = True
                    self.stats['closed'] += 1
        if not progress:
            r = self.solve_groups(res, W, solved, arrshape, entry)
            progress = progress or r
        return progress

    def solve_scalar(self, k, a, b, v0, it, L):
        """a: placeholder at head, b: value after one iteration"""
        if b is a:
            return v0
        if type(v0) is not T:
            return None
        if not (b.fv and it in b.fv):
            # no dependence on iteration at all
            return ite(eq(it, ZERO), v0, b) if b is not v0 else v0
        if not self.mentions_L(b, L):
            prev = subst(b, {it: sub(it, ONE)})
            if it not in b.fv:
                prev = b
            return ite(eq(it, ZERO), v0, prev)
        if is_bool(b) or (a.kind in ('bool', 'string')):
            return None
        # linear: b = a + e ?
        e = self.extract_add(b, a)
        if e is None or self.mentions_L(e, L):
            if mentions(b, lambda r: r.a[0].l is L and r is not a, lambda d: isinstance(d, LoopDef) and d.loop is L):
                return None     # depends on another variable that is still unsolved
            try:
                p = N.p_add(N.nf(b), N.nf(a), -1)
                e = N.to_term(p)
            except (N.TooBig, RecursionError):
                return None
        if e is None or self.mentions_L(e, L):
            return None
        if it not in e.fv:
            return add(v0, mul(e, it))
        v = bv('k', ZERO, it)
        return add(v0, sum_(v, ZERO, it, subst(e, {it: v})))

    def extract_add(self, b, a):
        """e with b == a + e (structurally), else None"""
        if b is a:
            return ZERO
        if b.op == 'add':
            if b.a.count(a) == 1:
                return add(*[x for x in b.a if x is not a])
            for i, x in enumerate(b.a):
                if x.op == 'ite':
                    e = self.extract_add(x, a)
                    if e is not None:
                        return add(e, *[y for j, y in enumerate(b.a) if j != i])
            return None
        if b.op == 'ite':
            x, y = self.extract_add(b.a[1], a), self.extract_add(b.a[2], a)
            if x is not None and y is not None:
                return ite(b.a[0], x, y)
        return None

    # ---- arrays
    def chain(self, d, L, k):
        """updates (oldest first) on top of the loop placeholder"""
        ups = []
        while not (isinstance(d, LoopDef) and d.loop is L and d.key == k):
            if isinstance(d, UpdDef):
                ups.append(d)
                d = d.prev
                continue
            # whole-array replacement
            fs = tuple(bv('f%d' % i) for i in range(d.rank))
            ups.append(('whole', fs, d))
            return ups[::-1]
        return ups[::-1]

    def pins_of(self, cond, fs, it):
        """conjuncts eq(f_i, e) with e depending on `it` -> {f: e}"""
        cj = cond.a if cond.op == 'and' else (cond,)
        pins = {}
        rest = []
        for c in cj:
            done = False
            if c.op == 'eq':
                for x, y in ((c.a[0], c.a[1]), (c.a[1], c.a[0])):
                    if x in fs and x not in pins and not (y.fv & frozenset(fs)):
                        pins[x] = y
                        done = True
                        break
            if not done:
                rest.append(c)
        return pins, rest

    def solve_array(self, k, a, b, v0, it, L, res):
        rank = a.rank
        ups = self.chain(b.d, L, k)
        if not ups:
            return v0.d
        fs = tuple(bv('f%d' % i, ZERO, s) for i, s in enumerate(a.shape))
        ren = []
        for u in ups:
            if type(u) is tuple:
                ren.append((TRUE, elem(u[2], fs), None))
            else:
                m = dict(zip(u.formals, fs))
                ren.append((subst(u.cond, m), subst(u.val, m), u))
        sites = tuple(s for u in ups if type(u) is not tuple for s in u.sites)
        if type(ups[0]) is tuple:
            # array replaced each iteration
            d0 = ups[0][2]
            if not self.mentions_L(_DefT(b.d), L):
                return self.ite_def(eq(it, ZERO), v0.d, subst_def(b.d, {it: sub(it, ONE)}))
        ph = a.d
        # ---- case A / RMW: every update pinned to one iteration per element
        ks = []
        for c, v, u in ren:
            pins, rest = self.pins_of(c, fs, it)
            kk = None
            for f, e in pins.items():
                if it in e.fv and not self.mentions_L(e, L):
                    s = self.invert(e, f, it)
                    if s is not None:
                        kk = (f, e, s)
                        break
            if kk is None:
                # ranges  s(it) <= f < s(it+1)
                kk = self.range_pin(c, fs, it, L)
            ks.append(kk)
        if ks and all(x is not None for x in ks):
            r = self.solve_pinned(ren, ks, fs, a, v0, it, L, k, ph, sites)
            if r is not None:
                return r
        # ---- case B: accumulation at iteration-independent locations
        r = self.solve_accum(ren, fs, a, v0, it, L, k, ph, sites)
        if r is not None:
            return r
        # ---- case C: overwritten with values that do not depend on the array
        if not any(self.mentions_L(c, L) or self.mentions_L(v, L) for c, v, u in ren):
            inv = [it not in c.fv for c, v, u in ren]
            if all(inv):
                # same location each iteration: last write
                d = v0.d
                for c, v, u in ren:
                    d = UpdDef(d, fs, and_(lt(ZERO, it), c), subst(v, {it: sub(it, ONE)}), sites)
                return d
            # the last iteration that writes the location wins
            cjs = [list(c.a if c.op == 'and' else (c,)) for c, v, u in ren]
            common = [x for x in cjs[0] if it not in x.fv and all(x in y for y in cjs[1:])]
            vary = [and_(*[x for x in cj if x not in common]) for cj in cjs]
            w = bv('k', ZERO, it)
            back = sub(sub(it, ONE), w)
            kk = first(w, ZERO, it, subst(or_(*vary), {it: back}))
            at_ = {it: sub(sub(it, ONE), kk)}
            val = subst(ren[0][1], at_)
            for cv, (c, v, u) in list(zip(vary, ren))[1:]:
                val = ite(subst(cv, at_), subst(v, at_), val)
            return UpdDef(v0.d, fs, and_(*(common + [lt(kk, it)])), val, sites)
        return None

    def ite_def(self, c, a, b):
        return IteDef(c, a, b)

    def invert(self, e, f, it):
        """solve f == e(it) for it: returns (k*(f), exactness condition)"""
        try:
            p = N.nf(e)
        except N.TooBig:
            return None
        co = self.lin_coeff(p, it)
        if co is None:
            return None
        beta, alpha = co
        if not beta:
            return None
        d = N.p_add(N.nf(f), alpha, -1)
        if len(beta) == 1 and () in beta and abs(beta[()]) == 1:
            return N.to_term(N.p_scale(d, beta[()])), TRUE
        # stride: exact division required; stride must be positive
        if N.prove_ge0(N.p_add(beta, N.p_const(-1))):
            bt = N.to_term(beta)
            dt = N.to_term(d)
            q = idiv(dt, bt)
            return q, and_(le(ZERO, dt), eq(mul(q, bt), dt))
        return None

    def range_pin(self, c, fs, it, L):
        """conjuncts  s(it) <= f  and  f < s(it)+len(it)  with consecutive,
        disjoint ranges: s(it+1) == s(it)+len(it)"""
        cj = c.a if c.op == 'and' else (c,)
        for f in fs:
            los, his = [], []
            for x in cj:
                y = x
                ng = False
                if y.op == 'not':
                    ng = True
                    y = y.a[0]
                if y.op != 'lt':
                    continue
                try:
                    p = N.p_add(N.nf(y.a[1]), N.nf(y.a[0]), -1)   # b-a
                except N.TooBig:
                    return None
                if ng:
                    p = N.p_scale(p, -1)                             # a-b >= 0
                else:
                    p = N.p_add(p, N.p_const(-1))                    # b-a-1 >= 0
                cf = {}
                rest = {}
                ok = True
                for m, co in p.items():
                    d = dict(m)
                    if d.get(f) == 1 and len(d) == 1:
                        cf = {(): co}
                    elif any(f in t.fv for t, e in m):
                        ok = False
                    else:
                        rest[m] = co
                if not ok or not cf or abs(cf[()]) != 1:
                    continue
                if cf[()] == 1:
                    los.append((x, N.p_scale(rest, -1)))            # f >= -rest
                else:
                    his.append((x, N.p_add(rest, N.p_const(1))))     # f < rest+1
            for xl, lo in los:
                lot = N.to_term(lo)
                if it not in lot.fv or self.mentions_L(lot, L):
                    continue
                for xh, hi in his:
                    hit = N.to_term(hi)
                    nxt = subst_any_t(lot, it, add(it, ONE))
                    try:
                        ok = N.equal(nxt, hit)
                    except N.TooBig:
                        ok = False
                    if not ok:
                        continue
                    # stride
                    co = self.lin_coeff(N.nf(lot), it)
                    if co is not None and co[0] and N.prove_ge0(N.p_add(co[0], N.p_const(-1))):
                        bt, at = N.to_term(co[0]), N.to_term(co[1])
                        k = idiv(sub(f, at), bt)
                        return (f, None, (k, le(at, f)))
                    v = bv('k', ZERO, None)
                    k = first(v, ZERO, None, lt(f, subst_any_t(lot, it, add(v, ONE))))
                    return (f, None, (('first', lot, hit), le(subst_any_t(lot, it, ZERO), f)))
        return None

    def solve_pinned(self, ren, ks, fs, a, v0, it, L, k, ph, sites):
        # the pins must agree on k*(F)
        k0, ex0 = ks[0][2]
        if type(k0) is tuple:
            f = ks[0][0]
            _, lot, hit = k0
            v = bv('k', ZERO, it)
            kt0 = first(v, ZERO, it, lt(f, subst_any_t(lot, it, add(v, ONE))))
        else:
            kt0 = k0
        for (f, e, s) in ks[1:]:
            k1, ex1 = s
            if type(k1) is tuple or type(k0) is tuple:
                if type(k1) is not type(k0) or not self.same(k1[1], k0[1]) or f is not ks[0][0]:
                    return None
                continue
            if not (self.same(k1, k0) and (ex1 is ex0 or ex1 == ex0)):
                return None
        m = {it: kt0}
        # reads of the array inside the values
        new = []
        acc = None
        for (c, v, u), kk in zip(ren, ks):
            if self.mentions_L(c, L):
                return None
            if self.mentions_L(v, L):
                v2 = self.rewrite_self(v, L, self.cur_table, it)
                if v2 is None or self.mentions_L(v2, L):
                    return None
                v = v2
            new.append((c, v))
        d = v0.d
        inr = and_(le(ZERO, kt0), lt(kt0, it), ex0)
        for (c, v), kk in zip(new, ks):
            if kk[1] is not None:
                pin = eq(kk[0], kk[1])
                c2 = subst(self.drop_conj(c, kk[0], kk[1]), m)
            else:
                c2 = subst(c, m)
            d = UpdDef(d, fs, and_(inr, c2), subst(v, m), sites)
        return d

    def drop_conj(self, c, f, e):
        cj = c.a if c.op == 'and' else (c,)
        return and_(*[x for x in cj if not (x.op == 'eq' and ((x.a[0] is f and x.a[1] is e) or (x.a[1] is f and x.a[0] is e)))])

    def pin_table(self, res, W, solved, entry):
        """arrays of the loop whose every update in iteration k only touches
        locations whose coordinate `pos` satisfies s(coordinate) == k"""
        it, L = res['it'], res['L']
        out = {}
        for k in W:
            a, b = res['head'].s.get(k), res['next'].s.get(k)
            if k in solved or type(a) is not Arr or type(b) is not Arr:
                continue
            v0 = entry.s.get(k)
            if type(v0) is Vec:
                v0 = self.vec2arr(v0)
            if type(v0) is not Arr or v0.rank != a.rank:
                continue
            fs = tuple(bv('f%d' % i, ZERO, x) for i, x in enumerate(a.shape))
            got = None
            for u in self.chain(b.d, L, k):
                if type(u) is tuple:
                    got = None
                    break
                c = subst(u.cond, dict(zip(u.formals, fs)))
                pins, _ = self.pins_of(c, fs, it)
                kk = None
                for f, e in pins.items():
                    if it in e.fv and not self.mentions_L(e, L):
                        s = self.invert(e, f, it)
                        if s is not None:
                            kk = (fs.index(f), f, s[0])
                            break
                if kk is None or (got is not None and (kk[0] != got[0] or not self.same(kk[2], got[2]))):
                    got = None
                    break
                got = kk
            if got is not None:
                out[k] = got + (v0.d,)
        return out

    def rewrite_self(self, v, L, table, it):
        """replace reads of arrays modified by the loop, at locations that no
        earlier iteration touched, by the content before the loop"""
        ok = [True]
        memo = {}
        BV.info.setdefault(it, (ZERO, None))

        def root(d):
            if isinstance(d, LoopDef) and d.loop is L:
                return d
            if isinstance(d, UpdDef):
                return root(d.prev)
            if isinstance(d, IteDef):
                return root(d.x) or root(d.y)
            return None

        def rebuild_def(d):
            if isinstance(d, LoopDef) and d.loop is L:
                return table[d.key][3]
            if isinstance(d, UpdDef):
                return UpdDef(rebuild_def(d.prev), d.formals, rt(d.cond), rt(d.val), d.sites)
            if isinstance(d, IteDef):
                return IteDef(rt(d.cond), rebuild_def(d.x), rebuild_def(d.y))
            return rd(d)

        def rt(t):
            if not t.fv or it not in t.fv:
                return t
            if t in memo:
                return memo[t]
            if t.op == 'elem':
                r0 = root(t.a[0].d)
                if r0 is not None:
                    info = table.get(r0.key)
                    idx = [rt(x) for x in t.a[1:]]
                    good = False
                    if info is not None and ok[0]:
                        kst = subst(info[2], {info[1]: idx[info[0]]})
                        try:
                            good = kst is it or N.prove_ge0(N.p_add(N.nf(kst), N.nf(it), -1))
                        except (N.TooBig, RecursionError):
                            good = False
                    if good:
                        r = elem(rebuild_def(t.a[0].d), idx)
                    else:
                        ok[0] = False
                        r = t
                    memo[t] = r
                    return r
            if t.op == 'rec' and t.a[0].l is L:
                ok[0] = False
                return t
            r = tm.rebuild(t, rt, rd)
            memo[t] = r
            return r

        dmemo = {}

        def rd(d):
            if d is None:
                return {}
            if it not in d.fv:
                return d
            if d.uid in dmemo:
                return dmemo[d.uid]
            if isinstance(d, LoopDef) and d.loop is L:
                ok[0] = False
                r = d
            elif isinstance(d, ExprDef):
                r = ExprDef(d.formals, rt(d.body), d.sites)
            elif isinstance(d, UpdDef):
                r = UpdDef(rd(d.prev), d.formals, rt(d.cond), rt(d.val), d.sites)
            elif isinstance(d, IteDef):
                r = IteDef(rt(d.cond), rd(d.x), rd(d.y))
            else:
                r = d
            dmemo[d.uid] = r
            return r

        r = rt(v)
        return r if ok[0] else None

    def solve_accum(self, ren, fs, a, v0, it, L, k, ph, sites):
        """x(F) := x(F) + e(F,it).  T[j] is the increment accumulated by the
        first j updates of one iteration"""
        T_ = [ZERO]
        conds = []
        for c, v, u in ren:
            if u is None or self.mentions_L(c, L):
                return None
            r = self.increment(v, L, k, ph, fs, c, ren)
            if r is None:
                return None
            e, level = r
            if level is None or level >= len(T_) or self.mentions_L(e, L):
                return None
            e = add(e, T_[level])
            T_.append(e if c is TRUE else ite(c, e, T_[-1]))
            conds.append(c)
        v = bv('k', ZERO, it)
        base = elem(v0.d, fs)
        body = T_[-1]
        # keep an iteration-independent guard if all updates share conjuncts
        cjs = [set(c.a if c.op == 'and' else (c,)) for c in conds]
        common = set.intersection(*cjs) if cjs else set()
        guard = [c for c in common if it not in c.fv and c is not TRUE]
        for g in guard:
            body = assume_true(body, g)
        return UpdDef(v0.d, fs, and_(*sorted(guard, key=lambda t: t.id)), add(base, sum_(v, ZERO, it, subst(body, {it: v}))), sites)

    def increment(self, v, L, k, ph, fs, c, ren):
        """v == (content of this array at F after the first `level` updates of
        this iteration) + e: return (e, level)"""
        pins, _ = self.pins_of(c, fs, L.it)
        levels = set()

        def is_prev(t):
            if t.op != 'elem':
                return False
            d = t.a[0].d
            n = 0
            while isinstance(d, UpdDef):
                d = d.prev
                n += 1
            if not (isinstance(d, LoopDef) and d.loop is L and d.key == k):
                return False
            for ff, x in zip(fs, t.a[1:]):
                if x is ff or (ff in pins and (x is pins[ff] or self.same(x, pins[ff]))):
                    continue
                return False
            levels.add(n)
            return True

        def ext(t):
            if is_prev(t):
                return ZERO
            if t.op == 'add':
                hit = [i for i, x in enumerate(t.a) if is_prev(x)]
                if len(hit) == 1:
                    return add(*[x for i, x in enumerate(t.a) if i != hit[0]])
                if len(hit) > 1:
                    return None
                for i, x in enumerate(t.a):
                    if x.op in ('ite', 'add'):
                        e = ext(x)
                        if e is not None:
                            return add(e, *[y for j, y in enumerate(t.a) if j != i])
                return None
            if t.op == 'ite':
                x, y = ext(t.a[1]), ext(t.a[2])
                if x is not None and y is not None:
                    return ite(t.a[0], x, y)
            return None
        e = ext(v)
        if e is None or len(levels) != 1:
            return None
        return e, levels.pop()

    def solve_groups(self, res, W, solved, arrshape, entry):
        return self.solve_trig(res, W, solved, entry)

    # ---- rotation recurrences  (c,s)_{m} = R(theta) (c,s)_{m-1}
    def solve_trig(self, res, W, solved, entry):
        it, L = res['it'], res['L']
        cand = []
        for k in W:
            if k in solved:
                continue
            a, b = res['head'].s.get(k), res['next'].s.get(k)
            if type(a) is Arr and type(b) is Arr and a.rank == 2:
                cand.append((k, a, b, entry.s.get(k)))
        for i in range(len(cand)):
            for j in range(len(cand)):
                if i == j:
                    continue
                try:
                    r = self.trig_pair(cand[i], cand[j], it, L, res)
                except (N.TooBig, RecursionError):
                    r = None
                if r is not None:
                    (k1, d1), (k2, d2) = r
                    for (k, a, b, v0), d in ((cand[i], d1), (cand[j], d2)):
                        solved[k] = ('A', it, Arr(2, a.shape, d, a.gen, a.ety))
                    self.stats['closed'] += 2
                    return True
        return False

    def trig_pair(self, C_, S_, it, L, res):
        kc, ac, bc, v0c = C_
        ks, as_, bs, v0s = S_
        if type(v0c) is not Arr or type(v0s) is not Arr:
            return None
        uc = self.chain(bc.d, L, kc)
        us = self.chain(bs.d, L, ks)
        if len(uc) != 1 or len(us) != 1 or type(uc[0]) is tuple or type(us[0]) is tuple:
            return None
        uc, us = uc[0], us[0]
        fs = tuple(bv('f%d' % i, ZERO, s) for i, s in enumerate(ac.shape))
        cc = subst(uc.cond, dict(zip(uc.formals, fs)))
        cs = subst(us.cond, dict(zip(us.formals, fs)))
        vc = subst(uc.val, dict(zip(uc.formals, fs)))
        vs = subst(us.val, dict(zip(us.formals, fs)))
        pc_, rc = self.pins_of(cc, fs, it)
        ps_, rs = self.pins_of(cs, fs, it)
        col = None
        for f in fs:
            if f in pc_ and it in pc_[f].fv and f in ps_ and self.same(pc_[f], ps_[f]):
                col = f
        if col is None:
            return None
        e = pc_[col]
        inv = self.invert(e, col, it)
        if inv is None or inv[1] is not TRUE:
            return None
        kst = inv[0]
        start = N.canon(subst(e, {it: ZERO}))   # first column computed (c)
        if start.op != 'num' or start.a[0] < 2:
            return None
        row = [f for f in fs if f is not col][0]
        pos = fs.index(col)

        def at(d, r, cidx):
            idx = [None, None]
            idx[pos] = cidx
            idx[1 - pos] = r
            return elem(d, idx)
        # guess theta from column 1 of the initial arrays:  C0(r,1)=cos(X), S0(r,1)=sin(X)
        run = lit_poly(res.get('c')) or [] if res.get('c') is not None else []
        with assume(run):
            x = N.nf(at(v0c.d, row, ONE))
        X = None
        if len(x) == 1:
            (mm, co), = x.items()
            if co == 1 and len(mm) == 1 and mm[0][1] == 1 and mm[0][0].op == 'fn' and mm[0][0].a[0] == 'cos':
                X = mm[0][0].a[1]
        if X is None:
            atoms = [t for m_ in x for t, e_ in m_ if t.op == 'fn' and t.a[0] == 'cos']
            if len(set(atoms)) != 1:
                return None
            X = atoms[0].a[1]
        guard = and_(*[subst(r_, {it: kst}) for r_ in rc])   # row condition etc.
        # cosine is even: the sign of the angle comes from the sine column
        with assume(run):
            y = N.nf(at(v0s.d, row, ONE))
        for t_ in [t for m_ in y for t, e_ in m_ if t.op == 'fn' and t.a[0] == 'sin'][:1]:
            for m_, co in y.items():
                if any(t is t_ for t, e_ in m_) and co < 0:
                    X = neg(X)
        # closed form
        def closed(d0, which):
            val = fn(which, mul(col, X))
            return UpdDef(d0, fs, and_(le(ZERO, kst), lt(kst, it), guard), val, uc.sites + us.sites)
        # verify: initial columns 0..start-1
        asm = list(run)
        for g in (guard.a if guard.op == 'and' else (guard,)):
            p = lit_poly(g)
            if p is not None:
                asm += p
        import contextlib
        good = None
        with assume(asm):
            for X in (X, neg(X)):
                good = True
                for c0 in range(0, start.a[0]):
                    for d0, which in ((v0c.d, 'cos'), (v0s.d, 'sin')):
                        if not N.equal(at(d0, row, num(c0)), fn(which, mul(num(c0), X))):
                            if DBG: print('initial', c0, which, N.canon(at(d0,row,num(c0))), 'VS', N.canon(fn(which, mul(num(c0), X))))
                            good = False
                            break
                    if not good:
                        break
                if good:
                    break
            if not good:
                return None
        # inductive step: assuming columns < col(it) hold the closed form
        dC = self._hyp(fs, pos, 'cos', X, row)
        dS = self._hyp(fs, pos, 'sin', X, row)

        def sub_ph(t):
            memo = {}

            def rt(t):
                if t in memo:
                    return memo[t]
                if t.op == 'elem':
                    d = t.a[0].d
                    while isinstance(d, UpdDef):
                        d = d.prev
                    if isinstance(d, LoopDef) and d.loop is L and d.key in (kc, ks):
                        idx = [rt(y) for y in t.a[1:]]
                        # read column strictly before the current one, same row
                        cidx = idx[pos]
                        if not (idx[1 - pos] is row or self.same(idx[1 - pos], row)):
                            bad.append(t)
                            return t
                        cur = e
                        if t.a[0].d is not d:
                            # chain includes this iteration's writes: must be another column
                            if not N.prove_ge0(N.p_add(N.p_add(N.nf(cur), N.nf(cidx), -1), N.p_const(-1))):
                                if self.same(cidx, cur):
                                    bad.append(t)
                                    return t
                        if not N.prove_ge0(N.p_add(N.p_add(N.nf(cur), N.nf(cidx), -1), N.p_const(-1))) or not N.prove_ge0(N.nf(cidx)):
                            bad.append(t)
                            return t
                        r = fn('cos' if d.key == kc else 'sin', mul(cidx, X))
                        memo[t] = r
                        return r
                r = tm.rebuild(t, rt, lambda d: d if d is not None else {})
                memo[t] = r
                return r
            return rt(t)
        bad = []
        BV.info[it] = (ZERO, res.get('tc'))
        with assume(asm):
            nvc, nvs = sub_ph(subst(vc, {col: e})), sub_ph(subst(vs, {col: e}))
            if bad:
                if DBG: print('bad',bad)
                return None
            if DBG: print(N.canon(nvc), '\n VS \n', N.canon(fn('cos', mul(e, X))))
            if not N.equal(nvc, fn('cos', mul(e, X))) or not N.equal(nvs, fn('sin', mul(e, X))):
                return None
        return (kc, closed(v0c.d, 'cos')), (ks, closed(v0s.d, 'sin'))

    def _hyp(self, *a):
        return None

    # ------------------------------------------------------------ leaving the loop
    def finish(self, res, n, st, entry, W, solved, arrshape, par):
        it, L = res['it'], res['L']
        tc = res.get('tc')
        for k in W:
            if k not in solved:
                self.stats['recurrence'] += 1
        nb = res['basepc']
        exits = res['brk'] + res['ret']
        rel = lambda e: and_(*e.st.pc[nb:])
        # throws: normal continuation requires that none happened
        hi = tc
        thr = []
        stop = []
        for e in exits:
            stop.append((e, rel(e)))
        for e in res['thr']:
            thr.append((e, rel(e)))
        conds = [c for _, c in stop] + [c for _, c in thr]
        base = st
        head = res['head']
        if tc is None and not conds:
            # infinite loop
            self.gap('loop without exit', n)
            return False

        def at(v, k):
            return self.at_iter(v, it, k)
        if not conds:
            K = tc
            self.exit_state(st, head, it, K, entry, W, arrshape, par)
            return True
        anyc = or_(*conds)
        if it in anyc.fv or hi is None:
            v = bv('k', ZERO, hi)
            K = first(v, ZERO, hi, subst(anyc, {it: v}))
            if hi is not None:
                v2 = bv('k', ZERO, hi)
                left = exists(v2, ZERO, hi, subst(anyc, {it: v2}))
            else:
                left = TRUE
        else:
            K = ite(anyc, ZERO, hi)
            left = and_(anyc, lt(ZERO, hi)) if hi is not None else anyc
        outs = []
        for e, c in thr:
            s = self.at_state(e.st, it, K, nb, entry, ())
            s.pc = entry.pc + ((and_(left, subst(c, {it: K})),) if left is not TRUE else (subst(c, {it: K}),))
            x = Exit('throw', e.val, s, e.ty, e.site)
            self.sink.append(x)
        done = []
        for e, c in stop:
            s = self.at_state(e.st, it, K, nb, entry, ())
            cc = and_(left, subst(c, {it: K}))
            s.pc = entry.pc + ((cc,) if cc is not TRUE else ())
            if e.kind == 'return':
                self.sink.append(Exit('return', self.at_iter(e.val, it, K) if e.val is not NONE else NONE, s))
            else:
                done.append((s, cc))
        outs = []
        if hi is not None:
            s = St(dict(st.s), entry.pc)
            self.exit_state(s, head, it, hi, entry, W, arrshape, par)
            nl = not_(left)
            if nl is not FALSE:
                s.pc = entry.pc + ((nl,) if nl is not TRUE else ())
                outs.append(s)
        outs += [s for s, c in done]
        if not outs:
            return False
        s = outs[-1]
        for o in reversed(outs[:-1]):
            s, _ = self.merge(o, s)
        # drop a path condition that is exhaustive
        if hi is None and len(done) == 1 and len(conds) == 1:
            s.pc = entry.pc
        elif not thr and not res['ret']:
            s.pc = entry.pc
        st.become(s)
        return True

    def at_iter(self, v, it, K):
        m = {it: K}
        if type(v) is T:
            return subst(v, m)
        if type(v) is Arr:
            return v.w(d=subst_def(v.d, m), shape=tuple(subst(x, m) for x in v.shape))
        if type(v) is LV and v.idx:
            return LV(v.key, tuple(subst(x, m) for x in v.idx))
        if type(v) is Vec:
            return Vec([self.at_iter(x, it, K) for x in v.v], v.ety, v.gen)
        if type(v) is Choice:
            return Choice(subst(v.c, m), self.at_iter(v.a, it, K), self.at_iter(v.b, it, K))
        return v

    def at_state(self, s, it, K, nb, entry, W):
        out = {}
        for k, v in s.s.items():
            out[k] = self.at_iter(v, it, K)
        return St(out, s.pc)

    def exit_state(self, st, head, it, K, entry, W, arrshape, par):
        out = dict(entry.s)
        for k, v in head.s.items():
            if k in W:
                out[k] = self.at_iter(v, it, K)
                if type(out[k]) is Arr and k in arrshape:
                    out[k].gen = newgen()
            else:
                out[k] = v
        if par:
            for k in par['private']:
                if k in entry.s:
                    out[k] = entry.s[k]
        st.s = out
        st.pc = entry.pc


class _Rollback(Exception):
    pass


class _DefT:
    """wrap a Def so that `mentions` accepts it"""
    def __new__(cls, d):
        return d


class assume:
    def __init__(self, polys):
        self.p = polys

    def __enter__(self):
        c = N.Ctx(N.C.facts)
        if hasattr(N.C, 'subsyms'):
            c.subsyms = N.C.subsyms
        c.assume = N.C.assume + list(self.p)
        self.old = N.C
        N.C = c
        return c

    def __exit__(self, *a):
        N.C = self.old


def lit_poly(g):
    """polys >= 0 implied by an integer literal"""
    ng = False
    if g.op == 'not':
        ng = True
        g = g.a[0]
    try:
        if g.op == 'lt':
            p = N.p_add(N.nf(g.a[1]), N.nf(g.a[0]), -1)
            if ng:
                return [N.p_scale(p, -1)]
            return [N.p_add(p, N.p_const(-1))] if N.all_int(p) else [p]
        if g.op == 'eq' and not ng:
            p = N.p_add(N.nf(g.a[1]), N.nf(g.a[0]), -1)
            return [p, N.p_scale(p, -1)]
        if g.op == 'eq' and ng:
            p = N.p_add(N.nf(g.a[1]), N.nf(g.a[0]), -1)
            if N.all_int(p):
                if N.prove_ge0(p):
                    return [N.p_add(p, N.p_const(-1))]
                if N.prove_ge0(N.p_scale(p, -1)):
                    return [N.p_add(N.p_scale(p, -1), N.p_const(-1))]
        if g.op == 'and' and not ng:
            out = []
            for x in g.a:
                out += lit_poly(x) or []
            return out
        if g.op == 'or' and ng:
            out = []
            for x in g.a:
                out += lit_poly(not_(x)) or []
            return out
    except N.TooBig:
        pass
    return None


def subst_any_t(t, v, e):
    return N.subst_any(t, v, e)


def assume_true(t, g):
    """t under the hypothesis g (g occurs syntactically in ite conditions)"""
    cj = set(g.a) if g.op == 'and' else {g}
    if t.op == 'ite':
        c = t.a[0]
        cs = c.a if c.op == 'and' else (c,)
        rest = [x for x in cs if x not in cj]
        if len(rest) != len(cs):
            return ite(and_(*rest), assume_true(t.a[1], g), assume_true(t.a[2], g))
        return ite(c, assume_true(t.a[1], g), assume_true(t.a[2], g))
    if t.op == 'add':
        return add(*[assume_true(x, g) for x in t.a])
    return t
