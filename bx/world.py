"""Symbolic initial states of a Booz_xform object and trace partitions."""
import sys
from .terms import *
from . import nf as N
from .interp import *
from .engine import Engine

sys.setrecursionlimit(400000)

CLS = 'booz_xform::Booz_xform'

# documented shapes of the input quantities (booz_xform.hpp)
IN_SHAPES = {
    'xm': ('mnmax',), 'xn': ('mnmax',), 'xm_nyq': ('mnmax_nyq',), 'xn_nyq': ('mnmax_nyq',),
    's_in': ('ns_in',), 'iota': ('ns_in',),
    'rmnc': ('mnmax', 'ns_in'), 'rmns': ('mnmax', 'ns_in'), 'zmnc': ('mnmax', 'ns_in'), 'zmns': ('mnmax', 'ns_in'),
    'lmnc': ('mnmax', 'ns_in'), 'lmns': ('mnmax', 'ns_in'),
    'bmnc': ('mnmax_nyq', 'ns_in'), 'bmns': ('mnmax_nyq', 'ns_in'),
    'bsubumnc': ('mnmax_nyq', 'ns_in'), 'bsubumns': ('mnmax_nyq', 'ns_in'),
    'bsubvmnc': ('mnmax_nyq', 'ns_in'), 'bsubvmns': ('mnmax_nyq', 'ns_in'),
    'compute_surfs': ('nsurf',),
}
IN_SCALARS = ['verbose', 'asym', 'nfp', 'mpol', 'ntor', 'mnmax', 'mpol_nyq', 'ntor_nyq', 'mnmax_nyq', 'ns_in', 'mboz', 'nboz',
              'aspect', 'toroidal_flux']
ASYM_IN = ['rmns', 'zmnc', 'lmnc', 'bmns', 'bsubumns', 'bsubvmns']
SYM_IN = ['rmnc', 'zmns', 'lmns', 'bmnc', 'bsubumnc', 'bsubvmnc']
SCALAR_KIND = {'asym': 'bool', 'aspect': 'real', 'toroidal_flux': 'real', 'completed': 'bool', 'd_theta': 'real', 'd_zeta': 'real'}


def base_facts():
    N.set_ctx(N.Ctx())
    F = N.C.facts
    for k, lo in (('nfp', 1), ('mpol', 1), ('ntor', 0), ('mnmax', 1), ('mpol_nyq', 0), ('ntor_nyq', 0), ('mnmax_nyq', 1),
                  ('ns_in', 1), ('mboz', 1), ('nboz', 0), ('nsurf', 0), ('omp.max_threads', 1), ('omp.num_threads', 1)):
        F.lo[sym(k, 'int')] = [N.p_const(lo)]
    return F


# inputs of run() that reading a file, or init_from_vmec, replaces
READ_REPLACES = frozenset(IN_SHAPES) | frozenset(IN_SCALARS) - {'verbose'}
INIT_REPLACES = frozenset(ASYM_IN + SYM_IN + ['s_in', 'iota', 'compute_surfs', 'ns_in', 'toroidal_flux'])


class World:
    def __init__(self, P, stubs=None, fix=None, asym=None, empty=(), old='opaque', replaced=()):
        """fix: field -> term.  asym: True/False/None.  empty: array fields of size 0.
        replaced: inputs of run() that the operation analysed is to replace: nothing is known about them"""
        self.P = P
        self.replaced = replaced
        self.facts = base_facts()
        self.E = Engine(P, stubs=stubs)
        self.st = St({}, ())
        fix = dict(fix or {})
        if asym is not None:
            fix['asym'] = TRUE if asym else FALSE
        self.obj = Obj(('obj', CLS, 'this'), CLS)
        self.inputs = {}
        self.init = {}
        rec_ = P.recs.get(CLS)
        if rec_ is None:
            from .frontend import AnalysisBroken
            raise AnalysisBroken('class %s not found' % CLS)
        for f in rec_['fields']:
            n = f['n']
            v = self.field(n, f['t'], fix, empty, asym)
            self.st.s[('o', self.obj.oid, n)] = v
            self.init[n] = v

    def field(self, n, t, fix, empty, asym):
        if n in fix:
            return fix[n]
        at = arr_type(t)
        if at is not None and not base_t(t).startswith('std::vector'):
            rank, ety, fixed, mat, std = at
            if n in IN_SHAPES and n not in self.replaced:
                sh = tuple(sym(x, 'int') for x in IN_SHAPES[n])
                if n in ASYM_IN and asym is False or n in empty:
                    sh = (ZERO,) * rank
                d = self.input_def(n, rank, ety)
                self.inputs[n] = d
                return Arr(rank, sh, d, newgen(), ety, mat, std)
            sh = tuple(sym('old.%s.n%d' % (n, i), 'int') for i in range(rank))
            for x in sh:
                self.facts.lo[x] = [N.p_const(0)]
            return Arr(rank, sh, InputDef('old.' + n, rank, ety), newgen(), ety, mat, std)
        if n in IN_SCALARS and n not in self.replaced:
            return sym(n, SCALAR_KIND.get(n, 'int'))
        if is_int_t(t) or base_t(t) == 'bool':
            return sym('old.' + n, 'bool' if base_t(t) == 'bool' else 'int')
        if is_float_t(t):
            return sym('old.' + n, 'real')
        v = self.E.default_value(t, self.st, n)
        return v if v is not None else Opq(t)

    def input_def(self, n, rank, ety):
        one = num(1)
        if n in ('xn', 'xn_nyq'):
            # toroidal mode numbers are multiples of nfp
            b = 'ntor' if n == 'xn' else 'ntor_nyq'
            X = InputDef('X' + n[1:].upper(), 1, 'int', bounds=lambda i: (neg(sym(b)), sym(b)))
            self.inputs[n + '$'] = X
            return InputDef(n, 1, 'int', expand=lambda i: mul(sym('nfp'), elem(X, i)))
        if n in ('xm', 'xm_nyq'):
            hi = sub(sym('mpol'), one) if n == 'xm' else sym('mpol_nyq')
            return InputDef(n, 1, 'int', bounds=lambda i: (ZERO, hi))
        if n == 'compute_surfs':
            return InputDef(n, 1, 'int', bounds=lambda i: (ZERO, sub(sym('ns_in'), one)))
        return InputDef(n, rank, 'int' if ety == 'int' else 'real')

    # ---------------------------------------------------------------- running
    def get(self, field):
        return self.st.s.get(('o', self.obj.oid, field))

    def call(self, name, args=(), nparams=None):
        """call a method of the object; returns True when it can return normally"""
        E = self.E
        f = self.P.fn(CLS + '::' + name, nparams if nparams is not None else len(args) if args else None)
        if f is None:
            from .frontend import AnalysisBroken
            raise AnalysisBroken('%s::%s not found' % (CLS, name))
        E.frames.append(Frame({'qn': '<caller>', 'params': []}, None, '<caller>'))
        try:
            an = [{'k': 'Value', 'v': a, 't': ''} for a in args]
            E.call_fn(f, an, self.st, {'l': 0}, this=self.obj)
            return True
        except Dead:
            return False
        finally:
            E.frames.pop()
