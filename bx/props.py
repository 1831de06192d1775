"""Per property: deciding module, minimum number of obligations, rule and level."""
VG = 'abstract interpretation to closed-form value graphs (Eigen/netCDF/OpenMP models), equivalence with an oracle by normal form and identity testing'
VGN = ('Every obligation quantifies over all inputs: the value of each output is extracted from the current source as a closed-form term and compared with an oracle written from the documentation. '
       '"proved" obligations are discharged by the normaliser for all inputs; "agree" ones could not be normalised and are decided by algebraic identity testing of the extracted terms at random valid points '
       '(random interpretation; one-sided error); real arithmetic instead of floating point; trusts the library models and the clang front end.')
_R = 'one obligation per output quantity and trace partition (asym x nboz=0/>=1 ...): the term extracted from the source equals the oracle term for all modes/surfaces'


def _p(module, floor, rule=_R, technique=VG, note=VGN, level='other'):
    return dict(module=module, floor=floor, rule=rule, technique=technique, note=note, level=level)


PROPS = {
    'P01': _p('chk_run', 12), 'P02': _p('chk_run', 4), 'P03': _p('chk_run', 16), 'P04': _p('chk_run', 8),
    'P29': _p('chk_run', 50, 'one obligation per output array dimension'),
    'P05': _p('chk_vmec', 60), 'P15': _p('chk_vmec', 60, 'one obligation per documented requirement (reject) and per reachable throw site (accept)'),
}
PROPS.update({
    'P06': _p('chk_file', 60), 'P07': _p('chk_file', 100), 'P08': _p('chk_file', 60), 'P16': _p('chk_file', 100), 'P17': _p('chk_file', 100), 'P18': _p('chk_file', 60),
})

EFF = 'abstract interpretation to value graphs and event traces; dependence (effect) sets, index-disjointness and bounds rules over them'
PROPS.update({
    'P09': _p('chk_eff', 40, 'one obligation per access, library call and result of the symmetric configuration', EFF),
    'P10': _p('chk_eff', 60, 'one obligation per write to storage shared between iterations of a parallel loop, per read-only shared object, and per result (no thread-count symbol)', EFF),
    'P11': _p('chk_eff', 20, 'one obligation per per-surface output: its value graph refers to radial data only in its own column', EFF),
    'P12': _p('chk_eff', 100, 'one obligation per member changed by an operation, per written datum and per control condition: no left-over state in its value graph', EFF),
    'P13': _p('chk_eff', 60, 'one obligation per input member and operation', EFF),
    'P14': _p('chk_eff', 400, 'one obligation per subscript side, block, allocation, divisor and operand-extent pair', EFF),
    'P19': _p('chk_eff', 100, 'one obligation per result and control condition (no verbosity in its value graph) and per print site (unreachable at verbose = 0)', EFF),
})

PROPS.update({
    'P26': _p('chk_misc', 8, 'one obligation per trace partition: the printed triples equal |B| of the input, of the transform, and the documented error at the four points; one per print site: mutual exclusion'),
    'P27': _p('chk_misc', 60, 'both builds (with and without OpenMP) are parsed; one obligation per result: same value graph in both', EFF),
    'P28': _p('chk_misc', 50, 'one obligation per data member: initialised, empty or zero in a new object', 'abstract interpretation of the constructor (definite initialisation)'),
})
PROPS.update({
    'P20': _p('chk_driver', 20, 'one obligation per form of the input file (operations, file names, resolution and surfaces at each call) and per member (unmodified between the operations)'),
})
PROPS.update({
    'P22': _p('chk_bind', 70, 'one obligation per documented attribute (bound member, direction), method (bound function, argument names, defaults) and export',
              'abstract interpretation of the module initialiser over the resolved syntax tree (definition table), compared with the documented interface',
              'The table is read from the resolved syntax tree of bindings.cpp (names resolved by clang) and __init__.py; every obligation is decided exactly; pybind11 itself is trusted.'),
})
PROPS.update({
    'P21': _p('chk_py', 25, 'one obligation per form of the input file (operations, file names, resolution and surfaces at each call) and per member (unmodified between the operations)'),
})
PROPS.update({
    'P23': _p('chk_plot', 10, 'one obligation per option set and witness: the points and values passed to the contour call equal |B| on the documented grid'),
    'P24': _p('chk_plot', 40, 'one obligation per option set and witness: the lines, labels, colours and scales passed to the plotting library are the documented ones'),
    'P25': _p('chk_plot', 20, 'one obligation per option set and witness: the curves and surfaces of the figure are the documented ones'),
    'P30': _p('chk_plot', 60, 'one obligation per member and plotting function: no write to it', EFF),
})
