"""Obligations and verdicts.

An obligation is an equality (or a bound, or a path rule) between a term
extracted from the source and the oracle.  It is
  proved     - the difference normalises to zero (for all inputs);
  agrees     - the normal form did not close, and the two terms denote the
               same value under every witness valuation (algebraic identity
               testing of the extracted terms);
  undecided  - neither;
  violated   - a witness valuation of valid inputs separates the two terms
               (or the source term reads an indeterminate / out-of-extent
               element there)."""
import copy, math, random
import itertools, os, time
from . import nf as N
from .terms import *
from .interp import Arr, Vec
from .witness import *


class Ob:
    __slots__ = ('name', 'status', 'where', 'detail', 'key')

    def __init__(self, name, status, where='', detail='', key=None):
        self.name = name
        self.status = status
        self.where = where
        self.detail = detail
        self.key = key or name

    def tup(self):
        return (self.name, self.status, self.where, self.detail, self.key)


def fmt_site(s):
    if not s:
        return ''
    f, l, fn = s
    i = f.find('src/_booz_xform')
    return '%s:%s (%s)' % (f[i:] if i >= 0 else os.path.basename(f), l, fn.split('::')[-1])


def def_sites(d, limit=6):
    """assignment sites of an array content, newest first"""
    out = []
    seen = set()
    st = [d]
    while st and len(out) < limit:
        x = st.pop()
        if x is None or x.uid in seen:
            continue
        seen.add(x.uid)
        for s in getattr(x, 'sites', ()) or ():
            if s not in out:
                out.append(s)
        if isinstance(x, UpdDef):
            st.append(x.prev)
        elif isinstance(x, IteDef):
            st += [x.y, x.x]
        elif isinstance(x, LoopDef):
            l = loop_force(x.loop)
            st += [l.init.get(x.key), l.next.get(x.key)]
    return out


def where_of(v):
    if isinstance(v, Arr):
        v = v.d
    if isinstance(v, Def):
        ss = def_sites(v)
        return '; '.join(fmt_site(s) for s in ss[:3])
    return ''


class Decider:
    def __init__(self, W, witnesses=(), prove_s=20):
        self.W = W
        self.obs = []
        self.wits = list(witnesses)
        self.vals = [None] * len(self.wits)
        self.prove_s = prove_s
        self.extra = {}
        self.director = None
        self.directed = 0       # further witnesses that reached a new case
        self.onesided = 0       # conditions of which one outcome was never seen

    def val(self, i):
        if self.vals[i] is None:
            self.vals[i] = self.wits[i].valuation(self.W, extra=self.extra)
        return self.vals[i]

    def note(self, name, status, where='', detail='', key=None):
        self.obs.append(Ob(name, status, where, detail, key))
        return status

    # ------------------------------------------------------------ equality
    def prove(self, code, spec):
        N.DEADLINE[0] = time.time() + self.prove_s
        try:
            return N.equal(code, spec)
        except (N.TooBig, RecursionError):
            return False
        finally:
            N.DEADLINE[0] = None

    def equal(self, name, code, spec, free=(), where='', guard=None, key=None, prove=True, rel=1e-9):
        """code == spec for all free variables [(bv, hi term)] (under guard)"""
        if code is None:
            return self.note(name, 'undecided', where, 'no value extracted', key)
        for v, hi in free:
            BV.info[v] = (ZERO, hi)
        if prove and self.prove(code, spec):
            return self.note(name, 'proved', where, '', key)
        n = 0
        why = ['no witness']
        cov = {}

        def compare(w, V):
            nonlocal n
            into = cov if V.cov is None else V.cov
            lost = 0
            V.cov = None
            try:
                for env in self.envs(V, free):
                    if guard is not None and not V.ev(guard, env):
                        continue
                    try:
                        V.cov = None
                        y = V.ev(spec, env)
                    except (OutOfRange, UninitRead) as e:
                        why[0] = 'oracle: %s' % e
                        continue
                    ix = {self.vname(k): v for k, v in env.items()}
                    try:
                        V.cov = into
                        x = V.ev(code, env)
                    except UninitRead as e:
                        return self.note(name, 'violated', where, 'depends on an indeterminate value (%s) at %s for %s' % (e, ix, self.brief(w)), key)
                    except OutOfRange as e:
                        return self.note(name, 'violated', where, 'reads outside the extent of %s at %s for %s' % (e, ix, self.brief(w)), key)
                    if not same_value(x, y, rel, unit=w.unit):
                        if self.rounding(w, env, (code, spec), (x, y)):
                            why[0] = 'ill-conditioned'
                            lost += 1
                            if lost > 4:
                                raise Undecided('ill-conditioned')
                            continue
                        return self.note(name, 'violated', where,
                                         'source value %s differs from required value %s at %s for %s' % (fm(x), fm(y), ix, self.brief(w)), key)
                    n += 1
            except Undecided as e:
                why[0] = str(e)
            except (OverflowError, ZeroDivisionError, TypeError, ValueError) as e:
                why[0] = '%s: %s' % (type(e).__name__, e)
            finally:
                V.cov = None
            return None
        for i, w in enumerate(self.wits):
            if compare(w, self.val(i)):
                return 'violated'
        if n:
            bad, left = self.direct(cov, compare)
            if bad:
                return 'violated'
            return self.note(name, 'agrees', where, '%d identity tests' % n, key)
        return self.note(name, 'undecided', where, why[0], key)

    def rounding(self, w, env, terms, vals):
        """can the difference of the two values be due to rounding?  (they move as much when the data change in the 11th digit)"""
        x, y = vals
        if not isinstance(x, float) and not isinstance(y, float) or not all(isinstance(v, (int, float)) and not isinstance(v, bool) and math.isfinite(v) for v in vals):
            return False
        ws = w if isinstance(w, tuple) else (w, w)
        for t, v, u in zip(terms, vals, ws):
            b = copy.copy(u)
            b.jitter = True
            if 'arr' in u.__dict__:
                b.arr = lambda name, idx, f=u.__dict__['arr']: f(name, idx) * (1 + 1e-11 * (random.Random('%s%s' % (name, idx)).random() - 0.5)) \
                    if isinstance(f(name, idx), float) else f(name, idx)
            try:
                v2 = b.valuation(self.W, extra=self.extra).ev(t, dict(env))
            except Exception:
                continue
            if isinstance(v2, (int, float)) and abs(v2 - v) > 0.01 * abs(x - y):
                return True
        return False

    def more(self):
        """all witnesses: those given, then the variants of directed.py while the time for them lasts"""
        from .directed import Director
        for i, w in enumerate(self.wits):
            yield w, self.val(i)
        if self.director is None:
            self.director = Director(self, getattr(self, 'nb', None))
        for c in self.director.variants():
            if self.director.left < 0:
                break
            t0 = time.time()
            yield c[0], self.director.val(c)
            self.director.left -= time.time() - t0

    def direct(self, cov, compare):
        from .directed import Director
        if self.director is None:
            self.director = Director(self, getattr(self, 'nb', None))
        k = len(self.director.missing(cov))
        bad, left = self.director.run(cov, compare)
        self.directed += k - len(left)
        self.onesided += len(left)
        return bad, left

    def vname(self, v):
        return str(v.a[0]) if v.op in ('bv', 'sym') else repr(v)

    def brief(self, w):
        k = ('nfp', 'mpol', 'ntor', 'mnmax', 'mnmax_nyq', 'ns_in', 'mboz', 'nboz', 'asym', 'verbose')
        return '{' + ', '.join('%s=%s' % (x, w.s[x]) for x in k if x in w.s) + ', compute_surfs=%s}' % (w.surfs,)

    def envs(self, V, free):
        free = list(free)
        if not free:
            yield {}
            return

        def rec(i, env):
            if i == len(free):
                yield dict(env)
                return
            v, hi = free[i]
            top = int(V.ev(hi, env))
            ks = range(top)
            if top > 60:
                # a large resolution: both ends and a sample
                ks = sorted(set(list(range(12)) + list(range(top - 12, top)) + random.Random(top).sample(range(top), 24)))
            for k in ks:
                env[v] = k
                yield from rec(i + 1, env)
            env.pop(v, None)
        yield from rec(0, {})

    # ------------------------------------------------------------ truth of a condition
    def holds(self, name, cond, free=(), where='', guard=None, key=None):
        """cond is true for all inputs"""
        try:
            N.DEADLINE[0] = time.time() + self.prove_s
            try:
                p = N.nf_bool(cond)
                if p == {(): 1}:
                    return self.note(name, 'proved', where, '', key)
            finally:
                N.DEADLINE[0] = None
        except (N.TooBig, RecursionError):
            pass
        n = 0
        why = ['no witness']
        cov = {}

        def compare(w, V):
            nonlocal n
            V.cov = cov if V.cov is None else V.cov
            try:
                for env in self.envs(V, free):
                    if guard is not None and not V.ev(guard, env):
                        continue
                    if not V.ev(cond, env):
                        ix = {self.vname(k): v for k, v in env.items()}
                        return self.note(name, 'violated', where, 'fails at %s for %s' % (ix, self.brief(w)), key)
                    n += 1
            except (Undecided, UninitRead, OutOfRange, TypeError, ValueError) as e:
                why[0] = str(e)
            finally:
                V.cov = None
            return None
        for i, w in enumerate(self.wits):
            if compare(w, self.val(i)):
                return 'violated'
        if n:
            if self.direct(cov, compare)[0]:
                return 'violated'
            return self.note(name, 'agrees', where, '%d identity tests' % n, key)
        return self.note(name, 'undecided', where, why[0], key)


def fm(x):
    try:
        if isinstance(x, (int, str, bool)):
            return repr(x)
        return '%.9g' % float(x)
    except (TypeError, ValueError):
        return repr(x)
