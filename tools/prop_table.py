S = 'src/_booz_xform/'
PY = 'src/booz_xform/'
TABLE = []


def P(id, title, statement, over, qtext, why, files, mech, observe=()):
    TABLE.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, observe=list(observe)))


P('P01', 'Boozer harmonics of |B|, R and Z are the transform of the input fields',
  'After run(), every Fourier amplitude of |B|, R and Z in Boozer angles (cosine/sine amplitudes, including the stellarator-asymmetric ones) on every '
  'requested surface equals the Jacobian-weighted projection of the corresponding input field onto that Boozer-angle harmonic over the documented '
  'theta-zeta quadrature grid. This holds for every mode, every surface, any nfp, any resolution and both symmetric and asymmetric inputs.',
  ['inputs', 'configurations'], 'all valid equilibria (mode tables, radial sizes, field values), all mboz >= 1, nboz >= 0, all surface lists, asym on and off',
  'The regression test compares a few fixed configurations at one resolution; special cases (nboz=0, single mode, boundary weights, last theta row, mode sign, unusual mode lists) are never sampled.',
  [S + 'surface_solve.cpp', S + 'init.cpp', S + 'init_trig.cpp', S + 'run.cpp'],
  [('Fourier sums on the real-space grid', S + 'surface_solve.cpp'), ('trig recurrences', S + 'init_trig.cpp'), ('grid and weights', S + 'init.cpp')],
  ['bmnc_b', 'bmns_b', 'rmnc_b', 'rmns_b', 'zmns_b', 'zmnc_b'])
P('P02', 'Boozer toroidal angle difference nu',
  'After run(), the amplitudes of nu = zeta_Boozer - zeta_original equal the projection of nu = (w - I*lambda)/(G + iota*I), where w is built from the '
  'covariant field components and lambda is the straight-field-line correction, for every mode and surface. The Boozer angles used everywhere are '
  'theta + lambda + iota*nu and zeta + nu.',
  ['inputs', 'configurations'], 'all valid equilibria, resolutions, surface lists, asym on and off',
  'Tests compare a handful of files; sign errors in asymmetric branches, or in modes with m=0 or n=0, vanish or are masked there.',
  [S + 'surface_solve.cpp'], [('w, lambda and nu', S + 'surface_solve.cpp')], ['numns_b', 'numnc_b'])
P('P03', 'Boozer Jacobian and flux functions G, I, s',
  'After run(), the Jacobian amplitudes are the projection of (G + iota*I)/|B|^2; G and I on each output surface are the (0,0) amplitudes of the toroidal and '
  'poloidal covariant field on that surface; the all-surface G and I profiles hold the same quantity for every input surface; s_b is the normalized flux of each output surface.',
  ['inputs', 'configurations'], 'all valid equilibria, resolutions, surface lists, asym on and off',
  'The reference files cover a few surfaces of a few equilibria; the profiles at surfaces other than the tested ones and the asymmetric Jacobian are not determined by them.',
  [S + 'surface_solve.cpp', S + 'init.cpp'], [('boozer_jacobian', S + 'surface_solve.cpp'), ('Boozer_*_all, s_b', S + 'init.cpp')],
  ['gmnc_b', 'gmns_b', 'Boozer_G', 'Boozer_I', 'Boozer_G_all', 'Boozer_I_all', 's_b'])
P('P04', 'Output mode list is complete and ordered',
  'The output mode list contains exactly m=0 with n=0..nboz, then for m=1..mboz-1 all n=-nboz..nboz, toroidal index fastest, with toroidal numbers multiplied by nfp, '
  'and the reported mode count equals its length.',
  ['inputs', 'configurations'], 'all mboz >= 1, nboz >= 0, nfp >= 1',
  'Only the default resolutions of a few files are checked.', [S + 'init.cpp'], [('mode loop', S + 'init.cpp')], ['xm_b', 'xn_b', 'mnboz'])
P('P05', 'Radial interpolation of VMEC data to the half grid',
  'Loading VMEC arrays yields, on every half-grid surface: even-m R and Z harmonics averaged from the two neighbouring full-grid points; odd-m ones averaged after division by '
  'sqrt(s) and multiplied back (with linear extrapolation to the axis for m=1); lambda, |B| and covariant components taken from the half-grid columns unchanged; and iota, s, '
  'flux profiles, default surface list and default resolution set accordingly.',
  ['inputs', 'configurations'], 'all radial grid sizes >= 3, all mode tables, asym on and off, with and without flux data',
  'Tests use a few wout files; the innermost surface, odd/even parity combinations and asymmetric arrays are only sampled through final spectra.',
  [S + 'init_from_vmec.cpp'], [('interpolation loops', S + 'init_from_vmec.cpp')], ['rmnc', 'zmns', 'rmns', 'zmnc', 'lmns', 'bmnc', 'iota', 's_in', 'compute_surfs', 'mboz', 'nboz'])
P('P15', 'Inconsistent inputs are rejected, consistent ones accepted',
  'Loading VMEC arrays raises an error whenever an array size, the radial size (< 3), nfp (< 1), or the first/last mode numbers are inconsistent, and never for consistent arrays, '
  'whatever the object held before; running the transformation raises an error when a requested surface does not exist and not otherwise.',
  ['inputs', 'histories'], 'every single inconsistency of every array, with and without flux data, asym on and off, any previous state of the object',
  'No test passes inconsistent data.', [S + 'init_from_vmec.cpp', S + 'run.cpp'], [('validation block', S + 'init_from_vmec.cpp'), ('surface check', S + 'run.cpp')], ['init_from_vmec()', 'run()'])
P('P29', 'Output array shapes',
  'After run(), every output array has exactly the documented size (modes x surfaces, surfaces, or input surfaces), and the asymmetric outputs are 0 x 0 for a stellarator-symmetric '
  'configuration, regardless of what the object computed or loaded earlier.',
  ['inputs', 'histories', 'configurations'], 'all resolutions, surface lists, prior object states',
  'Tests always use a fresh object per configuration.', [S + 'init.cpp'], [('setZero/resize calls', S + 'init.cpp')], ['*_b', 'Boozer_*', 'ns_b'])

P('P06', 'VMEC wout files are mapped faithfully onto the inputs',
  'After reading a wout file, every input quantity holds the file variable of the documented name in the documented orientation (mode x radius, half-grid columns, sign of the poloidal flux derivative), '
  'the asymmetric arrays are read exactly when the file says the configuration is asymmetric, and flux profiles are read exactly when requested. The state afterwards is the one that passing the same arrays directly would give.',
  ['inputs', 'configurations'], 'all wout files (any dimensions, values, symmetric or not), with and without flux data',
  'The tests read a handful of files and only look at the spectra computed from them.',
  [S + 'read_wout.cpp', S + 'init_from_vmec.cpp', S + 'netcdf_reader.cpp'], [('variable list', S + 'read_wout.cpp'), ('typed getters', S + 'netcdf_reader.cpp')],
  ['ns', 'nfp', 'asym', 'mpol', 'ntor', 'mnmax', 'xm', 'xn', 'rmnc', 'zmns', 'lmns', 'bmnc', 'bsubumnc', 'bsubvmnc', 'iota', 'aspect', 'toroidal_flux', 'phi', 'chi', 'pres', 'phip'])
P('P07', 'boozmn files contain the transformation under the documented names',
  'Every dimension, scalar and array of a written boozmn file holds the documented quantity of the object, with the documented type, dimensions, radial placement (surface numbers shifted by two, zero first element), '
  'sign convention and transposition. Asymmetric variables are written exactly when the configuration is asymmetric, and nothing is defined twice or left undefined.',
  ['inputs', 'configurations'], 'all resolutions, surface lists, numbers of radial points, asym on and off, with and without flux data',
  'The comparison tests cover three surface lists of a few files and tolerate variables missing from both sides.',
  [S + 'write_boozmn.cpp', S + 'netcdf_writer.cpp'], [('variable definitions', S + 'write_boozmn.cpp'), ('deferred puts', S + 'netcdf_writer.cpp')], ['boozmn_*.nc'])
P('P08', 'Reading a boozmn file restores what was written',
  'Reading a boozmn file sets every output quantity, the mode table, the surface list, the resolution and the profiles from the variables that writing stores them in, inverting its placement, sign and transposition conventions. '
  'Hence write followed by read is the identity on every quantity that the file carries.',
  ['inputs', 'configurations', 'histories'], 'all files, any surface list, asym on and off, any previous state of the object',
  'The round-trip test covers three surface lists of symmetric and asymmetric example files into a fresh object and compares only some of the members.',
  [S + 'read_boozmn.cpp', S + 'netcdf_reader.cpp'], [('variable list', S + 'read_boozmn.cpp'), ('surface list shift', S + 'read_boozmn.cpp')], ['bmnc_b', 'bmns_b', 'rmnc_b', 'gmnc_b', 'numns_b', 'compute_surfs', 's_b', 'iota', 'Boozer_G', 'Boozer_I', 'phi', 'chi', 'pres', 'phip', 'xm_b', 'xn_b', 'ns_b'])
P('P09', 'Symmetric configurations never use asymmetric data',
  'For a stellarator-symmetric configuration no operation (loading arrays, reading a wout file, running, writing, reading a boozmn file) reads the asymmetric input arrays or requires them, in the object, the caller or the file; '
  'they may have any size, including empty, and no result depends on them.',
  ['inputs', 'configurations', 'histories'], 'all symmetric configurations, arbitrary contents and sizes of the asymmetric arrays',
  'Tests run symmetric cases with empty arrays in release mode, where an out-of-range read of an empty array goes unnoticed.',
  [S + 'surface_solve.cpp', S + 'init.cpp', S + 'init_from_vmec.cpp', S + 'write_boozmn.cpp', S + 'read_wout.cpp'], [('asym conditions', S + 'surface_solve.cpp')], ['run()', 'write_boozmn()', 'read_wout()', 'init_from_vmec()'])
P('P10', 'Parallel execution is race free and independent of the thread count',
  'While surfaces are transformed in parallel, no two iterations write the same memory and none writes what another reads, unless inside a critical section that does not touch results; every result is the same for any number of threads and any schedule.',
  ['schedules', 'configurations'], 'all OpenMP schedules and thread counts, all surface lists and inputs',
  'Tests run with one machine-dependent thread count and a race shows up only for rare interleavings.',
  [S + 'run.cpp', S + 'surface_solve.cpp'], [('parallel loop over surfaces', S + 'run.cpp'), ('per-call work arrays', S + 'surface_solve.cpp')], ['run()'])
P('P11', 'Each surface is transformed independently of the others',
  'The spectra and G and I of an output surface depend only on the input data of that radial surface: not on other radial columns, the position of the surface in the list, the other requested surfaces, or the order of the list.',
  ['inputs', 'configurations'], 'all surface lists (any order, length, repetitions) and all inputs',
  'Tests request a few lists, always in increasing order.',
  [S + 'run.cpp', S + 'surface_solve.cpp', S + 'init.cpp'], [('surface index translation', S + 'surface_solve.cpp')], ['bmnc_b', 'gmnc_b', 'rmnc_b', 'zmns_b', 'numns_b', 'Boozer_G', 'Boozer_I', 's_b'])
P('P12', 'Results do not depend on the history of the object',
  'What an operation leaves in the object or writes to a file is determined by its documented inputs: repeating an operation, reusing an object for other data, or running at a different resolution before gives the same outcome as a fresh object.',
  ['histories'], 'all sequences of load, read, run and write on one object, with arbitrary earlier state',
  'Every test uses a fresh object for each configuration and runs it once.',
  [S + 'init.cpp', S + 'run.cpp', S + 'init_from_vmec.cpp', S + 'read_wout.cpp', S + 'read_boozmn.cpp', S + 'write_boozmn.cpp'], [('setZero and resize of outputs', S + 'init.cpp'), ('profiles set or cleared', S + 'init_from_vmec.cpp')], ['all members', 'boozmn_*.nc'])
P('P13', 'Running and writing leave the inputs unchanged',
  'Running the transformation and writing a boozmn file do not modify the input spectra, mode tables, profiles, resolution parameters or surface list; writing does not modify the outputs either.',
  ['inputs', 'histories'], 'all configurations and inputs, any state before',
  'No test compares the inputs before and after.', [S + 'run.cpp', S + 'surface_solve.cpp', S + 'init.cpp', S + 'write_boozmn.cpp'], [('members assigned', S + 'init.cpp'), ('zeroed first elements on writing', S + 'write_boozmn.cpp')], ['inputs after run()', 'inputs after write_boozmn()'])
P('P14', 'No operation accesses memory outside its arrays',
  'For every valid configuration (and every input file of the command-line program), each subscript and block of an array is inside its bounds, operands of elementwise operations have equal extents, allocations have non-negative sizes, and no division by an integer zero, null, stale or dangling access occurs.',
  ['inputs', 'configurations'], 'all dimensions, mode tables, resolutions (mboz >= 1, nboz >= 0), surface lists, asym on and off, all verbosity levels',
  'Assertions are compiled out in the release build and tests use a few sizes, so an overrun into allocated memory passes.',
  [S + 'surface_solve.cpp', S + 'init.cpp', S + 'init_trig.cpp', S + 'init_from_vmec.cpp', S + 'read_wout.cpp', S + 'read_boozmn.cpp', S + 'write_boozmn.cpp', S + 'driver.cpp'], [('array sizes', S + 'init.cpp'), ('trig table sizes', S + 'init_trig.cpp')], ['every operation'])
P('P16', 'Every NetCDF failure is reported as an error',
  'The status of every NetCDF call made while reading or writing is checked: whenever the library reports failure the operation raises an error instead of continuing, the only exceptions being the documented optional quantities and closing a file opened for reading. '
  'No operation fails when all calls succeed and the file is consistent.',
  ['fault_sequences', 'inputs'], 'a failure of any single NetCDF call in any operation, any file contents',
  'No test injects NetCDF failures; full disks, truncated files and missing variables are never exercised.',
  [S + 'netcdf_reader.cpp', S + 'netcdf_writer.cpp', S + 'read_wout.cpp', S + 'read_boozmn.cpp', S + 'write_boozmn.cpp'], [('status check', S + 'netcdf_reader.cpp'), ('status check', S + 'netcdf_writer.cpp')], ['read_wout()', 'read_boozmn()', 'write_boozmn()'])
P('P17', 'File handles are opened, used and closed exactly once',
  'Each NetCDF file is opened or created once, used only between opening and closing, and closed exactly once on every path, including paths that raise an error; when writing, definitions come before leaving define mode and data after it.',
  ['fault_sequences', 'inputs'], 'all paths of all file operations, including every NetCDF failure and every rejected file',
  'Leaked or reused handles have no effect in a short test process.',
  [S + 'netcdf_reader.cpp', S + 'netcdf_writer.cpp'], [('close in destructor', S + 'netcdf_reader.cpp'), ('write_and_close', S + 'netcdf_writer.cpp')], ['NetCDF handles'])
P('P18', 'Data handed to the writer stay alive until they are written',
  'Every buffer registered for deferred writing still exists, is unchanged and has the size of its variable at the moment the data are stored, so the file receives the values at registration.',
  ['inputs', 'configurations'], 'all configurations and dimensions',
  'A dangling pointer to a freed temporary usually still holds the old values in a short test.',
  [S + 'write_boozmn.cpp', S + 'netcdf_writer.cpp'], [('pointers kept until write_and_close', S + 'netcdf_writer.cpp')], ['boozmn_*.nc'])
P('P19', 'Verbosity does not influence results, and 0 is silent',
  'No result, file content, error or control decision of any operation depends on the verbosity level other than what is printed, and at verbosity 0 nothing is printed except the report of a failed NetCDF call.',
  ['inputs', 'configurations'], 'all verbosity levels, all configurations',
  'Only verbosity 1 is exercised by the tests.',
  [S + 'run.cpp', S + 'surface_solve.cpp', S + 'init.cpp', S + 'init_from_vmec.cpp', S + 'read_wout.cpp', S + 'read_boozmn.cpp', S + 'write_boozmn.cpp', S + 'check_accuracy.cpp'], [('verbose conditions', S + 'surface_solve.cpp')], ['standard output', 'all outputs'])

P('P20', 'The command-line program performs the documented sequence',
  'Called with one argument, xbooz_xform reads mboz, nboz, the extension and an optional list of surfaces (up to the first word that is not an integer), reads wout_<extension>.nc, runs with the larger of the requested and the default resolution '
  'and the requested surfaces in increasing order (all half-grid surfaces if none are given), writes boozmn_<extension>.nc and returns 0. A file that cannot be opened, an unreadable resolution or missing extension, and every failing operation raise an error and nothing later is done; '
  'any other number of arguments prints the usage, does nothing else and returns 0.',
  ['inputs', 'fault_sequences'], 'all input files (word sequences), any default resolution and surface list in the wout file, a failure of any step',
  'The tests exercise the library, not the driver; no test varies the input file or lets a step fail.',
  [S + 'driver.cpp', S + 'xbooz_xform.cpp'], [('parsing and sequence', S + 'driver.cpp')], ['xbooz_xform', 'booz_xform::driver()'])
P('P21', 'The Python command performs the documented sequence',
  'Called with one argument (or with one word on the command line), booz_xform._cli.main reads mboz, nboz, the extension and an optional list of surfaces (whitespace-separated words, up to the first that is not an integer) and performs the same sequence as the '
  'C++ program: read_wout("wout_<extension>.nc"), run() with the larger of requested and default resolution and the requested surfaces in increasing order (repetitions kept), write_boozmn("boozmn_<extension>.nc"). A file that cannot be opened or has fewer than three words or '
  'an unreadable resolution, and every failing operation, raise an error and nothing later is done; another number of arguments prints the usage and returns 0.',
  ['inputs', 'fault_sequences'], 'all input files (word sequences), any default resolution and surface list in the wout file, a failure of any step, both ways of passing arguments',
  'No test runs the command.', [PY + '_cli.py'], [('parsing and sequence', PY + '_cli.py')], ['xbooz_xform (Python)', 'booz_xform._cli.main'])
P('P22', 'The Python interface exposes every quantity under its own name',
  'Every documented attribute of Booz_xform reads (and, for inputs, assigns) the C++ member of the same name, every documented method calls the C++ method of the same name with the documented argument names and defaults, and results are read-only. '
  'The package exports the class and its version from the compiled module.',
  ['inputs', 'histories'], 'every attribute, method, argument and export, all values assigned or read',
  'Tests touch some of the attributes; a swapped getter of an untested pair or a wrong default stays unnoticed.',
  [S + 'bindings.cpp', PY + '__init__.py'], [('class definition table', S + 'bindings.cpp')], ['booz_xform.Booz_xform'])
P('P23', 'surfplot draws |B| of the requested surface',
  'surfplot makes exactly one contourf (fill=True) or contour (fill=False) call, on the grid of ntheta x nphi points spanning theta in [0, 2 pi] and phi in [0, 2 pi/nfp] inclusive, whose value at each point is |B| summed over all modes (including the asymmetric '
  'ones) at surface js. The number of contours and extra keyword arguments are passed on, and the axis labels and title name the plotted angles and surface; arguments not given have the defaults of the published signature.',
  ['inputs', 'configurations'], 'all Boozer spectra, surfaces, grid sizes and options, symmetric or not, from an object or a file',
  'The tests only check that the call does not fail.', [PY + 'plots.py'], [('surfplot', PY + 'plots.py')], ['booz_xform.surfplot'])
P('P24', 'symplot and modeplot draw the right modes',
  'symplot draws the radial profile (against s or sqrt(s)) of |b_mn| (or b_mn when log=False) of exactly the modes with |m| <= max_m and |n| <= max_n*nfp (without (0,0) if B0=False, without modes of the removed helicity), in one colour per symmetry group '
  '(n = +-nfp*m separate with helical_detail) with one correctly labelled legend entry per group. modeplot draws exactly the nmodes modes of largest magnitude at the outermost surface (largest s), labelled with their m and n. '
  'Both use a logarithmic axis exactly if log=True, with ymin as lower limit if given, name the radial coordinate, hide no surface, have the defaults of the published signature, and pass legend_args and extra keyword arguments on.',
  ['inputs', 'configurations'], 'all Boozer spectra, surface orders, mode limits and options, from an object or a file',
  'The tests only check that the calls do not fail for a few options.', [PY + 'plots.py'], [('symplot', PY + 'plots.py'), ('modeplot', PY + 'plots.py')], ['booz_xform.symplot', 'booz_xform.modeplot'])
P('P25', 'wireplot draws the coordinate curves of the requested surface',
  'wireplot returns one figure with the ntheta+1 curves of constant Boozer poloidal angle and nphi+1 curves of constant Boozer toroidal angle (refine points per segment, full torus), at R, Z and phi = phi_Boozer - nu of surface js (the outermost if None), a surface close to that '
  'flux surface exactly if surf=True, and the corresponding curves of the original angles exactly if orig=True and the object holds the input data of that surface (compute_surfs[js]).',
  ['inputs', 'configurations'], 'all Boozer spectra, surfaces, grid sizes and options, symmetric or not, from an object or a file',
  'No test calls wireplot.', [PY + 'plots.py'], [('wireplot', PY + 'plots.py')], ['booz_xform.wireplot'])
P('P26', 'The accuracy report compares |B| at the right points',
  'With a verbosity that prints it, the accuracy report of a surface gives, for each of the four points (theta, zeta) = (0,0), (pi,0), (0,pi/nfp), (pi,pi/nfp), the |B| of the input field there, the |B| summed from the Boozer spectrum of that surface at the corresponding Boozer angles, and their relative difference. '
  'The lines of different surfaces are never interleaved by threads.',
  ['inputs', 'configurations', 'schedules'], 'all inputs and resolutions, axisymmetric or not, asym on and off, all surfaces and schedules',
  'No test looks at the printed report.',
  [S + 'check_accuracy.cpp', S + 'surface_solve.cpp'], [('four test points', S + 'check_accuracy.cpp')], ['standard output of run()'])
P('P27', 'Builds with and without OpenMP compute the same results',
  'Compiled without OpenMP every operation leaves the same values in the object and in files as the OpenMP build does, and the reported maximum number of threads is 1 (with OpenMP: the one the OpenMP runtime reports).',
  ['configurations', 'inputs'], 'both build variants, all inputs, resolutions and surface lists',
  'The tests run one build variant only.',
  [S + 'run.cpp', S + 'surface_solve.cpp', S + 'check_accuracy.cpp', S + 'init.cpp'], [('preprocessor conditions', S + 'run.cpp')], ['all results'])
P('P28', 'A new object is completely initialised',
  'After construction every scalar member has a defined value (verbose = 1, mboz = nboz = 16 as placeholders, sizes and fluxes 0, stellarator-symmetric) and every array is empty or completely initialised.',
  ['histories'], 'all members, any previous contents of the memory used for the object',
  'Reading an uninitialised member usually yields 0 in a small test process.',
  [S + 'booz_xform.cpp', S + 'booz_xform.hpp'], [('constructor', S + 'booz_xform.cpp')], ['all members of a new object'])

P('N01', 'Numerical convergence with resolution',
  'As mboz and nboz grow, the Boozer spectra converge to those of the underlying smooth field.', ['inputs', 'configurations'], 'all smooth equilibria', 'Tests use fixed resolutions.',
  [S + 'surface_solve.cpp'], [('quadrature', S + 'surface_solve.cpp')], ['bmnc_b'])
P('N02', 'Rounding error of the transformation is small',
  'In floating point the results differ from exact arithmetic by no more than a small multiple of the machine precision times the conditioning of the problem.', ['inputs'], 'all equilibria', 'Tests compare to 1e-12 for a few files.',
  [S + 'surface_solve.cpp', S + 'init_trig.cpp'], [('trig recurrences', S + 'init_trig.cpp')], ['all outputs'])
P('N03', 'Agreement with the Fortran implementation',
  'Results agree with those of the Fortran xbooz_xform program.', ['inputs'], 'all wout files', 'Only stored reference files are compared.',
  [S + 'surface_solve.cpp'], [('whole transformation', S + 'run.cpp')], ['boozmn_*.nc'])
P('N04', 'Parallel speed-up over surfaces',
  'Run time decreases with the number of threads up to the number of surfaces.', ['configurations'], 'all machines and thread counts', 'No test measures time.',
  [S + 'run.cpp'], [('parallel loop', S + 'run.cpp')], ['wall time'])

P('P30', 'Plotting leaves the object unchanged',
  'surfplot, symplot, modeplot and wireplot change no quantity of the Booz_xform object they are given, whatever options are used (in particular remove_helicity), and perform no operation on it. Given a file name they read that boozmn file into a new object and plot that; '
  'anything else is rejected before anything is drawn.',
  ['inputs', 'histories'], 'all objects and options', 'The tests never compare the object before and after plotting; the arrays are views of the C++ members, so an in-place operation changes them.',
  [PY + 'plots.py'], [('copies before filtering', PY + 'plots.py'), ('handle_b_input', PY + 'plots.py')], ['Booz_xform members after plotting'])

NA = {
    'N01': 'convergence is a statement about truncation error for an unknown smooth field; no static argument over this source bounds it (P01 fixes the exact finite sums instead)',
    'N02': 'needs error analysis over runtime magnitudes and conditioning; value graphs are compared over the reals only',
    'N03': 'the Fortran program is not part of the repository, so there is no source to compare with; the documented formulae are used as oracle instead (P01-P05)',
    'N04': 'run time is not decided by source inspection',
}
NOTES = 'Static analysis: clang-resolved syntax trees -> abstract interpretation into closed-form value graphs -> comparison with an oracle by normal form / algebraic identity testing. See DESIGN.md.'
