#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, why, files, mech, observe=()):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': list(observe), 'hook_needed': None}})

D = 'dedalus/core/'
T = 'dedalus/tools/'

prop('C01', 'Transforms equal the documented mode expansions and invert each other',
     'For every basis, resolution, dealiasing scale, transform library, data type and tensor rank, the grid values of a field are the documented sum of its modes evaluated at the grid points, and its coefficients are the documented quadrature projection of its grid values. Every resolved coefficient survives a trip to any grid at least as fine as the basis and back. Grid points handed to the user are the points at which those values live.',
     ['inputs', 'configurations'], 'all coefficient/grid data, all supported bases (Fourier, Jacobi, disk, annulus, sphere, shell, ball, products) with all parameters, scales, libraries, ranks 0-2, real and complex',
     'The tests compare library pairs or do round trips at one or two sizes (N=8/16), with a couple of scales; they never compare with an independent evaluation of the expansion over generated sizes, scales < 1, parameters and tensor ranks.',
     [D + 'transforms.py', D + 'basis.py', T + 'jacobi.py', 'dedalus/libraries/dedalus_sphere/', 'dedalus/libraries/spin_recombination.pyx'],
     [('transform plans per library', 'core/transforms.py'), ('spin and regularity recombination', 'core/basis.py SpinRecombinationBasis, RegularityBasis'), ('grids and wavenumbers', 'core/basis.py')],
     ["field['g'], field['c'], dist.local_grids"])

prop('C02', 'A field keeps its function through any history of layout and scale changes',
     'Under any sequence of reads, writes, layout changes, scale changes, copies, filters and forks through the public field interface, a field holds exactly the function last written to it, truncated only by the explicitly requested scales or filters. Reading, copying, comparing or exporting a field never changes it or any other field, and data written in any layout at any scales is what is read back in that layout.',
     ['histories'], 'all finite sequences of field operations on fields of any domain and tensor rank',
     'Tests use fixed two or three step sequences; the in-place buffers shared between layouts can only be exercised by histories.',
     [D + 'field.py', D + 'distributor.py', D + 'domain.py'],
     [('layout path towards_grid/towards_coeff', 'core/field.py, core/distributor.py'), ('shared buffer and preset_layout/preset_scales', 'core/field.py')],
     ["field['g'], field['c'], field[layout, scales], change_scales, copy"])

prop('C03', 'Cartesian differential operators are exact calculus on resolved functions',
     'For every Cartesian domain (any mix of periodic, polynomial and constant axes, bounds, resolutions and polynomial parameters), differentiation, gradient, divergence, curl, Laplacian and conversion of a resolved scalar, vector or tensor function evaluate to the analytic result, in the problem coordinates. The result is independent of the layout and scales in which the operand is held and never modifies the operand.',
     ['inputs', 'configurations'], 'all resolved functions on all 1D-3D Cartesian domains, ranks 0-2, real and complex',
     'Tests fix one function per operator at one or two sizes, mostly unit or symmetric bounds.',
     [D + 'operators.py', D + 'basis.py'],
     [('derivative matrices', 'core/basis.py Differentiate*'), ('Cartesian operator components', 'core/operators.py Cartesian*')], ['op(f).evaluate()'])

prop('C04', 'Curvilinear vector calculus is exact on smooth resolved tensor fields',
     'On disks, annuli, spheres, balls, shells and cylinders, the gradient, divergence, curl, Laplacian, trace, transpose, component extraction, skew and azimuthal products of a smooth resolved scalar, vector or tensor field equal the coordinate-free (Cartesian) analytic result expressed in the local unit vectors. This holds for every radius, resolution, basis parameter, derivative level and data type.',
     ['inputs', 'configurations'], 'all polynomial tensor fields up to the resolution limit on all curvilinear bases',
     'Tests use one hand-computed function per operator, one radius and one resolution, and skip most mixed basis/rank/parameter combinations.',
     [D + 'operators.py', D + 'basis.py', D + 'coords.py', 'dedalus/libraries/dedalus_sphere/'],
     [('spin/regularity radial operator matrices', 'core/operators.py Spherical*, Polar*, SeparableSphereOperator; core/basis.py'), ('intertwiners', 'libraries/dedalus_sphere/spin_operators.py')], ['op(f).evaluate()'])

prop('C05', 'Interpolation, integration, averaging and lifting are exact linear functionals',
     'Interpolating a resolved field at any position of any coordinate (named ends included) gives the value of its function there; integrals and averages over any coordinate or coordinate system equal the analytic integral and mean with the geometric volume element. Lifting a boundary field onto mode n adds exactly that mode, and repeated or partial reductions in any order agree.',
     ['inputs', 'configurations'], 'all resolved functions, positions, coordinates and subsets of coordinates on all supported domains',
     'Tests pick a few positions and one function each; positions, orders of reduction and basis parameters are unbounded.',
     [D + 'operators.py', D + 'basis.py'],
     [('functional matrices', 'core/basis.py Interpolate*, Integrate*, Average*, Lift*')], ['f(x=..), Integrate, Average, Lift'])

prop('C06', 'Expressions evaluate to pointwise arithmetic and tensor algebra',
     'Any expression built from fields with +, -, *, /, **, dot, cross, tensor, trace, transpose, skew, components, numpy functions and user grid functions evaluates to the same pointwise algebra on the grid values of its leaves, with the tensor signature implied by the operations. The value does not depend on operand layouts or scales, on sharing of subexpressions, on repeated evaluation, or on whether it is evaluated directly or together with other tasks, and evaluation leaves the represented functions of all leaves unchanged.',
     ['programs', 'histories'], 'all finite expression trees/DAGs over fields of mixed domains (including constants) and ranks, evaluated in any order',
     'Tests evaluate single products on a few basis pairs; the expression language is unbounded.',
     [D + 'arithmetic.py', D + 'operators.py', D + 'future.py', D + 'evaluator.py', D + 'field.py'],
     [('recursive evaluation with layout requirements', 'core/future.py'), ('einsum/GammaCoord products', 'core/arithmetic.py'), ('task attempts per layout', 'core/evaluator.py')], ['expr.evaluate(), handler task outputs'])

prop('C07', 'Assembled matrices act as the operators and products they represent',
     'For every linear operator, sum, and product with a non-constant coefficient, the sparse matrix assembled for each subproblem applied to the gathered coefficients of the variables equals the gathered coefficients of the directly evaluated expression, up to the stated coefficient cutoff. Gathering and scattering a subproblem are mutually inverse on valid modes, and every valid mode belongs to exactly one subproblem.',
     ['inputs', 'configurations'], 'all linear expressions, coefficient fields, variable data, couplings and matrix options on all supported domains',
     'Coefficient-product tests for spherical and cylindrical domains are not even part of the stable suite; others fix one coefficient field and one size.',
     [D + 'operators.py', D + 'arithmetic.py', D + 'subsystems.py', D + 'basis.py', T + 'clenshaw.py'],
     [('expression_matrices', 'core/operators.py, core/arithmetic.py'), ('product matrices and Clenshaw', 'core/basis.py, tools/clenshaw.py'), ('gather/scatter permutations', 'core/subsystems.py')], ['subproblem matrices vs evaluate()'])

prop('C08', 'Linear boundary value solves satisfy the equations and recover the solution',
     'For every well-posed linear boundary value problem, the state after solving satisfies every equation on every retained mode to solver accuracy and equals the manufactured solution when that is resolved. The answer does not depend on the matrix solver, on matrix ordering options, on which compatible axes are coupled, on equation order, or on earlier solves, and re-solving with new right-hand sides uses the new data.',
     ['inputs', 'configurations', 'histories'], 'all well-posed LBVPs of the supported classes, options and re-solve histories',
     'Tests solve a handful of fixed equations with default options.',
     [D + 'solvers.py', D + 'subsystems.py', D + 'problems.py', 'dedalus/libraries/matsolvers.py'],
     [('pencil assembly, preconditioning and factorisation', 'core/subsystems.py'), ('solve loop', 'core/solvers.py LinearBoundaryValueSolver')], ['solver.solve(); problem.variables'])

prop('C09', 'Time integrators reproduce their published schemes under any timestep history',
     'For every built-in scheme and every sequence of timesteps, advancing an initial value problem gives the same state as an independent dense implementation of that scheme (its published coefficients, start-up and variable-step rule), with the right-hand side evaluated at the scheme\'s stage times and states. Each scheme converges at its stated order, simulation time and iteration advance by exactly the requested steps, and factorisation caching or matrix options never change the trajectory.',
     ['histories', 'inputs', 'configurations'], 'all timestep sequences (constant, changing, repeated, shrinking), linear/nonlinear/explicitly time dependent problems, all schemes',
     'Tests run one scalar problem per scheme with a constant step and a loose tolerance.',
     [D + 'timesteppers.py', D + 'solvers.py'],
     [('multistep coefficients and history', 'core/timesteppers.py MultistepIMEX'), ('Runge-Kutta stages', 'core/timesteppers.py RungeKuttaIMEX')], ['solver.step(dt); solver.sim_time; state'])

prop('C10', 'Newton solves use the exact Frechet derivative and converge to solutions',
     'For every nonlinear boundary value problem, the linearisation equals the directional derivative of the residual at the current state for every direction, and a Newton step solves exactly that linear system (scaled by damping). Iterating from a sufficiently close state converges quadratically to a state with zero residual.',
     ['inputs', 'programs'], 'all differentiable expressions (arithmetic, powers, numpy functions, tensor algebra, derivatives), states and directions',
     'Tests run a few fixed nonlinear problems; the derivative rules compose over unbounded expressions.',
     [D + 'field.py', D + 'future.py', D + 'arithmetic.py', D + 'operators.py', D + 'problems.py', D + 'solvers.py'],
     [('sym_diff / frechet_differential', 'core/field.py, arithmetic.py, operators.py'), ('NonlinearBoundaryValueSolver.newton_iteration', 'core/solvers.py')], ['frechet_differential(...).evaluate(), newton_iteration'])

prop('C11', 'Eigenvalue solves return true eigenpairs of the stated problem',
     'Every eigenvalue and eigenvector returned, when loaded into the state, satisfies the original equations with that eigenvalue; dense solves return the complete finite spectrum and sparse solves return the requested number of eigenvalues nearest the target. Left eigenvectors, when requested, satisfy the adjoint problem and are biorthonormal to the right eigenvectors as documented.',
     ['inputs', 'configurations'], 'all eigenvalue problems of the supported classes, targets, counts, subproblems and matrix solvers',
     'Tests check a few known spectra at fixed sizes.',
     [D + 'solvers.py', D + 'problems.py', D + 'subsystems.py', T + 'array.py'],
     [('solve_dense/solve_sparse/set_state', 'core/solvers.py EigenvalueSolver'), ('scipy_sparse_eigs', 'tools/array.py')], ['eigenvalues, eigenvectors, set_state'])

prop('C12', 'Symbolic manipulation preserves the meaning of expressions and equations',
     'Splitting, replacing, expanding, differentiating and rebuilding an expression yields expressions that evaluate to the mathematically corresponding value for all field data: split parts sum to the original, expansion is value preserving, replacement substitutes everywhere, and linearity/dependence queries are truthful. An equation given as text has the same meaning as the equation given as objects, in any namespace.',
     ['programs'], 'all expression trees and all equation strings of the supported grammar',
     'Only exercised indirectly by whole-problem tests.',
     [D + 'field.py', D + 'arithmetic.py', D + 'operators.py', D + 'future.py', D + 'problems.py', T + 'parsing.py'],
     [('split/replace/expand/sym_diff/has', 'core/arithmetic.py, operators.py, future.py'), ('equation parsing', 'core/problems.py, tools/parsing.py')], ['expr.split, replace, expand, has; add_equation'])

prop('C13', 'Unsupported formulations are refused and supported ones are accepted',
     'An equation that is nonlinear, depends on forbidden quantities, has mismatched tensor signatures, bases, data types or coordinate systems, or is not square is refused with an error before any solve, never silently misinterpreted. Every formulation inside the documented rules is accepted regardless of how it is written, and a refused equation leaves the problem unchanged.',
     ['inputs', 'programs'], 'all problems with at most one injected defect of each class, on all problem types',
     'No test covers the refusals systematically.',
     [D + 'problems.py', D + 'solvers.py', D + 'arithmetic.py', D + 'operators.py', D + 'field.py', T + 'exceptions.py'],
     [('equation conditions', 'core/problems.py _check_equation_conditions'), ('argument checks', 'core/operators.py, arithmetic.py _check_args')], ['add_equation, build_solver, operator constructors'])

prop('C14', 'Output files contain exactly what was scheduled, when it was scheduled',
     'After any run, an output handler\'s files together contain, for every write in order, every task\'s value at that write in the requested layout and scales with the matching time, iteration, write number, timestep and coordinate scales. Sets roll over after the stated number of writes, append mode continues numbering after what is on disk, overwrite mode removes only the handler\'s own old output, and both parallel output methods give the same readable content.',
     ['histories', 'configurations'], 'all handler options, task sets, write histories, restarts in both modes and parallel layouts',
     'Tests write once or twice with one task, and all parallel output tests are outside the stable suite.',
     [D + 'evaluator.py', T + 'post.py'],
     [('file setup and writing', 'core/evaluator.py H5FileHandlerBase, H5GatherFileHandler, H5VirtualFileHandler')], ['HDF5 file contents'])

prop('C15', 'Saved states restore the simulation they were saved from',
     'Loading any write of a saved state into a solver of the same problem restores every variable, the simulation time and the iteration; the following steps then reproduce the original trajectory for every one-step scheme. Loading works from grid- or coefficient-space tasks saved at any scales that resolve the data, and returns the saved write number and timestep.',
     ['histories', 'crash_points'], 'all save points, layouts, scales, problem domains and continuation lengths',
     'Tests reload one field from one write.',
     [D + 'solvers.py', D + 'field.py', D + 'evaluator.py'],
     [('load_state, load_from_hdf5', 'core/solvers.py, core/field.py')], ['solver.load_state, field.load_from_hdf5'])

prop('C16', 'Results do not depend on the number of processes or the process mesh',
     'Transforms, operator evaluation, solves, time stepping, random initialisation, reductions, interpolation and gathered data give the same global result on any valid process mesh as on one process, including meshes with idle or empty processes. Distributed transposes in either direction and with any library are exact inverses and move every element exactly once.',
     ['configurations', 'schedules'], 'all process counts 1-8, meshes, domains, shapes (including smaller than the mesh) and tensor ranks',
     'The stable suite runs one arithmetic file on a fixed 4-process layout.',
     [D + 'distributor.py', D + 'transposes.pyx', D + 'field.py', D + 'subsystems.py', D + 'solvers.py', 'dedalus/libraries/fftw/'],
     [('layout chain and transposes', 'core/distributor.py, core/transposes.pyx'), ('allgather_data/gather_data/set_global_data', 'core/field.py')], ['mpirun -n N vs serial'])

prop('C17', 'Scheduled handlers and stop conditions fire exactly when due',
     'For any combination of iteration, simulation-time and wall-time cadences or custom schedules and any history of timesteps, a handler runs at exactly the evaluations at which one of its cadences has come due since it last ran (for iteration and wall-time cadences starting with the first evaluation; for simulation-time cadences each multiple of the cadence is served once, by the evaluation closest to it), and never otherwise. The main loop proceeds while and only while no stop limit has been reached, and evaluating or adding handlers does not alter the simulated trajectory.',
     ['histories'], 'all cadence combinations, timestep sequences, fake clocks, group selections and stop limits',
     'Not tested beyond single cadences.',
     [D + 'evaluator.py', D + 'solvers.py'],
     [('Handler.check_schedule / Evaluator.evaluate_scheduled', 'core/evaluator.py'), ('InitialValueSolver.proceed', 'core/solvers.py')], ['which handlers ran at which iteration'])

prop('C18', 'Adaptive timesteps obey the advective limit and every stated bound',
     'The advective frequency reported for a velocity at each grid point is the sum over directions of speed divided by the local grid spacing of the geometry, and the timestep returned is the safety factor over the largest total frequency, limited by the maximum and minimum, by the allowed relative change, and held within the threshold, and is recomputed only at the requested cadence.',
     ['inputs', 'histories', 'configurations'], 'all velocity fields on all geometries, all limiter options and step histories',
     'Tests check frequencies of constant velocities at one size and never the controller history.',
     ['dedalus/extras/flow_tools.py', D + 'basis.py', D + 'operators.py'],
     [('AdvectiveCFL', 'core/basis.py *AdvectiveCFL'), ('CFL.compute_timestep', 'extras/flow_tools.py')], ['CFL.compute_timestep(), AdvectiveCFL'])

prop('C19', 'Array and sparse-matrix kernels equal dense linear algebra',
     'Every array and sparse helper (applying or solving along any axis, in place or into an output, Kronecker and interleaved products, permutations, row/column selection, reshaping, resizing and recombination kernels) equals the plain dense numpy computation for every shape, axis, memory layout, data type and sparsity pattern. No helper modifies its inputs unless it is the stated output.',
     ['inputs'], 'all shapes (including empty and size-1 axes), axes, strides, dtypes and sparsity patterns',
     'Kernels are only exercised with the shapes occurring in the solver tests.',
     [T + 'array.py', T + 'linalg.pyx', T + 'general.py', 'dedalus/libraries/spin_recombination.pyx'],
     [('apply_matrix, apply_sparse, solve_upper_sparse, kron, interleave_matrices', 'tools/array.py, tools/linalg.pyx')], ['function results'])

prop('C20', 'Polynomial, quadrature and spin libraries satisfy their defining identities',
     'Jacobi, Zernike and spin-weighted polynomial families are orthonormal under their quadratures; nodes and weights integrate exactly to the stated degree; conversion, differentiation, multiplication, ladder and integration operators map coefficients exactly as the operation maps functions. This holds for all admissible parameters and sizes.',
     ['inputs'], 'all admissible (a, b, k, l, m, s, n) parameters and sizes',
     'Library tests use a handful of parameter values.',
     [T + 'jacobi.py', T + 'clenshaw.py', 'dedalus/libraries/dedalus_sphere/jacobi.py', 'dedalus/libraries/dedalus_sphere/zernike.py', 'dedalus/libraries/dedalus_sphere/sphere.py', 'dedalus/libraries/dedalus_sphere/spin_operators.py', 'dedalus/libraries/dedalus_sphere/shell.py', 'dedalus/libraries/dedalus_sphere/annulus.py'],
     [('three-term recursion, Newton-refined quadrature', 'libraries/dedalus_sphere/jacobi.py'), ('operator algebra', 'libraries/dedalus_sphere/operators.py')], ['matrices and polynomial values'])

prop('C21', 'Reductions, norms and flow diagnostics report the true global values',
     'Norms and global reductions of fields, and the extrema, averages and sums reported by flow diagnostics, equal the same quantities computed from the gathered global data with the geometric volume element, on any number of processes including ones holding no data. Normalising a field gives it unit norm without changing its shape.',
     ['inputs', 'configurations'], 'all field data, domains, tensor ranks, norm orders and process counts',
     'Not tested.',
     ['dedalus/extras/flow_tools.py', D + 'field.py'],
     [('GlobalArrayReducer, GlobalFlowProperty', 'extras/flow_tools.py'), ('allreduce_data_norm, allreduce_L2_norm, normalize', 'core/field.py')], ['returned scalars'])

prop('C22', 'Post-processing tools preserve the data they reorganise',
     'Merging per-process files or sets yields one file whose tasks, scales and attributes equal the data that was written, in write order, whatever the process layout or number of sets. Visiting, slicing and loading tools hand each write of each file to the caller exactly once with the coordinates it was saved with.',
     ['histories', 'configurations'], 'all sets of output files: task shapes, numbers of writes, sets, processes and chunkings',
     'Only a fixed virtual-file merge is tested, outside the stable suite.',
     [T + 'post.py', D + 'evaluator.py'],
     [('merge_process_files, merge_sets, visit_writes, get_assigned_writes, load_tasks_to_xarray', 'tools/post.py')], ['HDF5/xarray contents'])

prop('C23', 'Random initialisation is reproducible and resolution-layout independent',
     'Filling a field with random data from a given seed gives the same global data on every call and on every process layout, any slice of a chunked random array equals the slice of the full array, and distinct entries are independent draws of the named distribution. Filling a field on the grid populates every valid mode, and low- or high-pass filtering keeps exactly the modes of the requested grid.',
     ['inputs', 'configurations'], 'all seeds, shapes, slices, chunk sizes, distributions, layouts, filters',
     'Not tested directly.',
     [T + 'random_arrays.py', D + 'field.py'],
     [('ChunkedRandomArray', 'tools/random_arrays.py'), ('fill_random, low_pass_filter, high_pass_filter', 'core/field.py')], ['field data'])

prop('C24', 'Caching and object identity never change results',
     'Constructing the same basis, domain or distributor-derived object twice with equal arguments in any spelling gives interchangeable objects, and different arguments give different ones. The value of any computation does not depend on which bases, fields, operators, transforms or solvers were built or evaluated earlier in the same process.',
     ['histories', 'configurations'], 'all interleavings of computations on differently parameterised objects in one process',
     'Every test runs in whatever cache state the earlier ones left; none compares against a fresh process.',
     [T + 'cache.py', T + 'dispatch.py', D + 'basis.py', D + 'domain.py', D + 'distributor.py'],
     [('CachedClass, CachedMethod, CachedAttribute', 'tools/cache.py'), ('MultiClass dispatch', 'tools/dispatch.py')], ['object identity; numerical results'])

if __name__ == '__main__':
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    print(len(P))
