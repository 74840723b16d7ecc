import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state,observe,hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],state=[dict(name=x,where=mech[0][1]) for x in state],observe_at=observe,hook_needed=hook)))

p('C01','Thread pool runs every task exactly once and always shuts down',
 'Every task submitted to the worker pool before it is stopped is executed exactly once, on at most the configured number of workers at a time and on all of them when there is enough work, in the order of submission where there is a single worker, and its result or its exception (of any type) is delivered through its future. Work submitted while the pool is stopped waits for the next restart. Stopping, destroying or restarting the pool always terminates, and first executes every task already accepted. No interleaving of submissions, completions, restarts and shutdown is a data race.',
 ['schedules','histories'],'for every interleaving of producers, workers, restart and shutdown, every number (>=1) of workers and every mix of task durations, throwing tasks and nested submissions',
 'A unit test samples one schedule; lost wake-ups, double execution and races depend on where threads are preempted.',
 ['src/core_thread_pool.hpp'],[('task queue, condition variable, promise delivery','src/core_thread_pool.hpp')],['pending and running task lists','stop flag'],['futures returned by submission','return of stop, restart and destruction'])

p('C02','Parallel evaluation equals serial evaluation for every thread count',
 'Evaluating an array on several threads, or mapping a function over a tree on the worker pool, yields exactly the values and structure of the serial evaluation, calling the function once per element, for every shape (including fewer rows than threads, and empty), every thread count and every schedule. The disk solver and the jet/cloud solver write bit-identical solutions whatever the number of threads. None of these evaluations contains a data race or writes outside its result.',
 ['schedules','inputs','configurations'],'for every array shape, tree, thread count and interleaving',
 'The existing tests never evaluate in parallel; races and duplicated or missing rows only show for particular shapes and schedules.',
 ['src/app_parallel.hpp','src/core_tree.hpp','src/subprog_binary_scheme.cpp','src/subprog_cloud.cpp'],[('partition of the leading axis over threads','src/app_parallel.hpp'),('tree map on the pool','src/core_tree.hpp')],['result buffer'],['evaluated arrays and trees','checkpoint files of solver runs'])

p('C03','Lazy array expressions evaluate to their element-wise definition',
 'Any composition of the array operations (arithmetic and comparison operators, mapping, zipping, selecting, freezing, shifting, concatenating, replacing, reshaping, stencil-like adjacent zips, differences and midpoints, extension, products, reductions, collection and predicates) has exactly the shape and the element values that its element-wise definition prescribes, for arrays of any shape and rank. Evaluating an expression never reads or writes out of bounds, never changes its operands, and evaluation to owned storage gives the same values as reading the lazy expression; operands with incompatible shapes and out-of-range selections are rejected with an exception.',
 ['inputs','programs'],'for every well-formed expression over arrays of rank 1 to 3 with every extent including 0 and 1',
 'Expressions compose without bound; tests check a few fixed shapes, mostly away from empty, single-element and asymmetric extents.',
 ['src/core_ndarray.hpp','src/core_ndarray_ops.hpp'],[('array and provider types, operator factories','src/core_ndarray.hpp'),('stencil and boundary operators','src/core_ndarray_ops.hpp')],['array storage buffers'],['element access, shape, and evaluated arrays'])

p('C04','Index sets, selections and block decompositions cover exactly',
 'Iterating an index selection visits each member exactly once in row-major order, as many as its size says, and agrees with membership, with the forward and inverse index maps and with flat offsets. Splitting an index range or a shape into parts, dividing a sequence into groups, and decomposing a domain into blocks always yields disjoint pieces that together cover the original exactly, balanced to within one element, with exactly the requested number of parts. A proposed block decomposition has exactly the requested number of blocks, and equally many along every axis when that number is a prime to the power of the rank. The decomposition program lists exactly the blocks asked for with the points of each, and stores those of its first block in their place.',
 ['inputs'],'for every selection (start, end, stride) of rank 1 to 4 inside any shape, empty ones included, and every number of parts',
 'Off-by-one and remainder cases occur only for particular extents, strides and part counts.',
 ['src/core_ndarray.hpp','src/app_parallel.hpp','src/subprog_partdom.cpp'],[('access patterns and iteration','src/core_ndarray.hpp'),('block decomposition','src/app_parallel.hpp'),('decomposition program','src/subprog_partdom.cpp')],['selection start, end and stride'],['iteration order, membership, index maps','block access patterns'])

p('C05','Refinement trees behave as maps from leaf positions to values',
 'A refinement tree behaves as a finite map from disjoint leaf positions that cover the whole domain to values: lookup, membership, position listing, counting, depth, mapping, pairing, reduction, insertion, splitting and iteration agree with that map for every tree shape and dimension, never disturb other leaves, and leave the original tree unchanged. Position arithmetic (parent, children, siblings, neighbours, ancestry, descent) is consistent, including wrap-around at the domain edges, and looking up a position that is not a leaf is reported by an exception or an empty result, never by undefined behaviour.',
 ['inputs','histories'],'for every tree of dimension 1 to 3 built by any sequence of insertions and splits, and every queried position',
 'Tests use a handful of small trees; the guarantees quantify over all tree shapes and positions.',
 ['src/core_tree.hpp'],[('tree type and position index','src/core_tree.hpp')],['tree children or leaf value'],['lookup, iteration, mapping and structural operations'])

p('C06','Adaptive mesh tiles the domain, is balanced, and fills ghost zones correctly',
 'A mesh generated from any refinement rule tiles its square domain exactly with blocks of the requested size, refines where the rule asks up to the maximum depth, and after balancing no two adjacent blocks differ by more than one level (with periodic wrap-around), only ever adding refinement. Data requested at any position of such a mesh is the block itself when that is a leaf, otherwise it is refined from the coarser or coarsened from the finer data covering that position; coarsening conserves cell averages and totals exactly, refinement conserves them, and both reproduce uniform data exactly and vertex data at shared points.',
 ['inputs','configurations'],'for every refinement rule, block size, depth and field of cell or vertex data',
 'Tests exercise one fixed mesh; neighbour relations of mixed levels and odd sizes are combinatorial.',
 ['src/mesh_tree_operators.hpp','src/mesh_prolong_restrict.hpp','src/core_tree.hpp'],[('quadtree creation and balancing, block lookup','src/mesh_tree_operators.hpp'),('prolongation and restriction','src/mesh_prolong_restrict.hpp')],['tree of vertex blocks'],['vertex coordinates, fetched cell and vertex blocks'])

p('C07','Everything written to HDF5 reads back identical, and touches nothing else',
 'Every value the code can store (numbers, strings including empty ones, sequences and vectors, arrays of any rank including arrays of physical quantities, rational numbers, lists, run options, task schedules, refinement trees and whole solver states) reads back equal, bit for bit in floating point, records with each field under its own name. Writing through a selection changes exactly the selected elements and reading a sequence through one returns exactly those. A group lists every member under its whole name, once. Reading with the wrong type or shape, or a missing name, raises an exception and leaves file and library usable.',
 ['inputs','histories'],'for every value of every supported type, every name, selection and order of writes and reads',
 'Tests round-trip a few constants; special values, empty values, odd extents and strides are not sampled.',
 ['src/core_hdf5.hpp','src/app_serialize.hpp','src/app_serialize_tree.hpp','src/subprog_binary_io.cpp'],[('typed read and write','src/core_hdf5.hpp'),('schedule, config, tree serialisation','src/app_serialize.hpp, src/app_serialize_tree.hpp')],['HDF5 file contents'],['values read back, raw file contents via the C library'])

p('C08','HDF5 objects are opened and closed exactly once',
 'Every file, group, dataset, datatype, dataspace and property list handle that is opened is closed exactly once, on every path: normal use, copying, moving, reassignment, early exit and exceptions, so that after its owners are gone no handle is left open and no live handle has been closed. Opening modes do what they say: reading never modifies or creates a file, read-write keeps existing contents and refuses a missing file, writing starts empty, and any other mode or a file that is not HDF5 is refused and left alone.',
 ['histories','fault_sequences'],'for every sequence of open, move, assign, read, write, failing operation and scope exit',
 'Leaks and double closes are invisible to value-based unit tests and depend on the history of moves and failures.',
 ['src/core_hdf5.hpp'],[('RAII handle types','src/core_hdf5.hpp')],['HDF5 identifiers held by wrapper objects'],['library open-object counts, interposed open and close calls, file bytes'])

p('C09','Run options accept exactly the declared keys and keep their types',
 'Run options start from the declared defaults and can only be changed through declared keys: an undeclared key, a value whose type differs from the declared one, text that does not parse as the declared type, or a key given twice on the command line is rejected with an exception and changes nothing. Every accepted assignment is exactly reflected and no other option changes; earlier option sets stay as they were, and later updates override earlier ones.',
 ['inputs','histories'],'for every template, every sequence of updates from text, typed values or stored options, and every command line',
 'Key, type and text combinations are unbounded; the suite has only a few positive examples.',
 ['src/app_config.hpp'],[('template, option set and command-line parsing','src/app_config.hpp')],['parameter map'],['option getters, exceptions'])

p('C10','Recurring tasks fire at their intervals, once each, in order',
 'In a run driven by the task schedule, a recurring task is performed at the start and then once for every elapsed interval of simulation time, within one step of the moment it falls due and never before: none is skipped or performed twice while steps are shorter than intervals, and after longer steps the backlog is worked off one per step. Completing a task increments its count by exactly one and affects no other task; only the tasks due when a round starts run in it, in the given order; unknown task names are rejected. A run reports a step exactly while the time it starts from is before the final time requested.',
 ['histories','inputs'],'for every sequence of time steps and set of task intervals',
 'Drift, skipped and doubled events appear only for particular ratios of step to interval over long histories.',
 ['src/app_schedule.hpp','src/subprog_binary.cpp','src/subprog_sedov.cpp','src/subprog_cloud.cpp','src/subprog_boilerplate.cpp'],[('schedule type and task marking','src/app_schedule.hpp')],['due flag, last-performed time, count'],['schedule queries','numbered output files'])

p('C11','A run restarted from any checkpoint continues as if uninterrupted',
 'For every program that supports restarting (disk, explosion, jet/cloud and template solver), restarting from any checkpoint it has written, also repeatedly and after the run was stopped or killed, reproduces the uninterrupted run: the same solution bit for bit at every later checkpoint, and the same numbering, times and contents of the checkpoints, diagnostics and time series, without overwriting the checkpoint restarted from, whatever older outputs the output folder holds. All run options are restored from the checkpoint except those given anew on the command line.',
 ['crash_points','configurations','histories'],'for every checkpoint of every run configuration, and any number of successive restarts',
 'No test runs a solver at all, let alone interrupts one; the guarantee spans program runs.',
 ['src/subprog_binary.cpp','src/subprog_binary_io.cpp','src/subprog_sedov.cpp','src/subprog_cloud.cpp','src/subprog_boilerplate.cpp','src/app_serialize.hpp'],[('checkpoint writing and restart','src/subprog_*.cpp')],['solution, schedule, time series, run options'],['output files of restarted and uninterrupted runs'])

p('C12','Disk solver conserves mass and momentum under the configured physics',
 'In the circumbinary disk solver every step changes the disk mass by exactly what the two sinks accrete and the buffer ejects (when no density floor acts), on every mesh, refinement pattern, reconstruction, time-stepping order and binary; with angular-momentum-conserving variables the same holds for angular momentum including the gravitational torques, and with linear-momentum variables for momentum, which the binary takes up (exchange through the outer domain edge excepted, which vanishes for an axisymmetric sound speed, and always for angular momentum). Recorded totals, time series and diagnostics agree with sums over the stored solution. Each cell changes only by its fluxes, viscous stress, gravity, sinks, buffer and geometric source as configured, so that uniform flow stays uniform, rigid rotation and expansion feel no stress, and a quarter turn of the initial state turns the result. The orbit is fixed before the documented start (in orbits) of its live evolution and afterwards follows accretion and gravity of the disk. Runs start from the configured disk (its mass, ambient density and profile, rotating in balance of gravity and pressure), and each step has the configured length (fixed or Courant) and order.',
 ['configurations','histories'],'for every valid disk configuration and number of steps',
 'Conservation is a statement about whole runs on every mesh; no test runs the solver.',
 ['src/subprog_binary_scheme.cpp','src/subprog_binary.cpp','src/subprog_binary_solver_data.cpp','src/subprog_binary_diagnostics.cpp'],[('flux correction and source bookkeeping','src/subprog_binary_scheme.cpp')],['conserved fields and accretion/ejection totals'],['solution after each step'])

p('C13','Explosion, jet and advection solvers evolve by their conservation laws',
 'Runs of the explosion, jet, template and mesh-sandbox programs start from the configured initial state, and one step changes every cell by exactly the net flux through its faces plus the geometric source, over a time step no longer than the Courant condition allows: in the explosion solver total mass and energy change only by outflow at the outer boundary, in the jet solver by the prescribed inflow at the inner boundary and the outflow at the outer one, in the template solver the total is constant and the profile is only advected upwind, and on uniform-level meshes so is the total of the mesh sandbox. Reconstruction and Runge-Kutta order are the configured ones. Solutions stay finite with positive density and pressure on valid configurations, mirror-symmetric setups stay mirror symmetric, and a uniform state at rest moves by no more than the truncation error of the mesh. Diagnostics and time series report the fields, shock positions and jet powers of the state they accompany, in the stated units.',
 ['configurations','histories'],'for every valid configuration and number of steps',
 'No test runs these solvers; the guarantees are about whole runs.',
 ['src/subprog_sedov.cpp','src/subprog_cloud.cpp','src/subprog_boilerplate.cpp','src/subprog_amrsand.cpp'],[('time step','src/subprog_*.cpp')],['conserved fields'],['checkpoint and diagnostics files'])

p('C14','Primitive and conserved variables convert back and forth faithfully',
 'In every gas system (isothermal disk, Newtonian, relativistic), converting any physical primitive state to conserved form and back recovers it to solver tolerance over the whole documented range of density, pressure, Mach number and Lorentz factor, in linear and angular-momentum form alike. Conserved densities and derived thermodynamic quantities equal their textbook definitions; a requested temperature floor acts exactly on states below it. Negative surface density in the disk system, and in the relativistic system negative density, too little energy or not-a-number without a floor, are reported; whatever relativistic recovery returns is finite with positive density, pressure at or above the floor and subluminal velocity, and it always terminates.',
 ['inputs'],'for every physical state, adiabatic index, position and temperature floor',
 'Iterative recovery fails only in corners (highly relativistic, cold, tiny densities) that sampled tests do not visit.',
 ['src/physics_iso2d.hpp','src/physics_euler.hpp','src/physics_srhd.hpp'],[('conversion and recovery','src/physics_*.hpp')],['primitive and conserved tuples'],['converted values, exceptions'])

p('C15','Fluxes and Riemann solvers are consistent, upwind and symmetric',
 'Every approximate Riemann solver returns the physical flux when both sides are equal, the upwind physical flux when all waves move one way, and in between the flux of the averaged state implied by the slowest and fastest signal speeds of the two sides. The contact-resolving solver keeps its waves in order and outside the signal speeds of both sides, satisfies the jump conditions over each of them, and preserves an isolated contact. All fluxes are covariant: reflecting or exchanging axes of the two states reflects or exchanges the flux, and swapping sides and reversing the direction negates it; physical fluxes equal their textbook expressions and the flux of mass, momentum and energy is consistent with the conserved densities.',
 ['inputs'],'for every pair of physical states, direction and adiabatic index',
 'The identities hold over a continuum of state pairs with several wave-pattern branches; tests check a few points.',
 ['src/physics_iso2d.hpp','src/physics_euler.hpp','src/physics_srhd.hpp'],[('HLLE, HLLC and physical fluxes','src/physics_*.hpp')],['wave speeds, fluxes'],['flux values'])

p('C16','Signal speeds, eigenvectors and source terms match the equations',
 'Signal speeds are real, ordered, centred on the flow, symmetric under reflection, never exceed light speed in the relativistic system, and bound the true characteristic speeds, which are the eigenvalues of the flux Jacobian; the maximum signal speed is the largest of their magnitudes. Eigenvector matrices diagonalise the flux Jacobian and are mutually inverse; averaged states are symmetric, weighted by the square root of density, and in the isothermal system satisfy the jump identity; and geometric and angular-momentum source terms equal the divergence they stand for, so that uniform pressure produces no spurious acceleration.',
 ['inputs'],'for every physical state, pair of states, direction, position and adiabatic index',
 'These are identities over a continuum of inputs; numerical differentiation against the implemented flux decides them.',
 ['src/physics_iso2d.hpp','src/physics_euler.hpp','src/physics_srhd.hpp'],[('wave speeds, eigenvectors, source terms','src/physics_*.hpp')],['wave speeds, matrices'],['values compared with the numerically differentiated flux'])

p('C17','Binary orbit model obeys Kepler and Newton and inverts exactly',
 'For every bound orbit (any separation, mass ratio, eccentricity below one, orientation, periapse time and centre-of-mass motion) and every time, the computed positions and velocities satisfy Newton: energy and angular momentum equal those of the elements, the centre of mass has the stated position and velocity, the motion about it is periodic with the orbital period and passes periapse at the stated time and angle, and its velocity is the derivative of its position. Recovering orbital elements from positions and velocities returns the elements they were made from, and elements recovered from any bound state of two bodies revolving counter-clockwise, circular or not, describe that state again; differences of elements are the nearest ones modulo a revolution and a period, sums and the first-order change of the separation are consistent, the solver always terminates, and unbound states are reported.',
 ['inputs'],'for every set of bound orbital elements and every time',
 'Convergence and inversion failures sit near e->1, small masses and particular phases; tests sample a few orbits.',
 ['src/model_two_body.hpp'],[('Kepler solver and element recovery','src/model_two_body.hpp')],['orbital elements, body states'],['positions, velocities, recovered elements'])

p('C18','Rational arithmetic is exact and always in lowest terms',
 'Sums, differences, products, quotients, powers of sign and comparisons of rational numbers equal exact arithmetic whenever results and intermediates fit, with every result in lowest terms with a positive denominator, so that equal numbers compare, hash to text and store identically. Conversion to integers and floating point agrees with the value and refuses where impossible; a zero denominator and division by zero are rejected.',
 ['inputs'],'for every pair of rationals with numerator and denominator within range',
 'Normalisation errors (sign, zero, common factors) occur for sign and divisor patterns tests do not enumerate.',
 ['src/core_rational.hpp'],[('rational number type','src/core_rational.hpp')],['numerator and denominator'],['arithmetic results, conversions'])

p('C19','Vectors, tuples, quantities and matrices obey their algebra',
 'Fixed-size sequences, heterogeneous tuples, dimensional quantities, spatial vectors, unit vectors and matrices obey the element-wise and linear algebra they stand for: operators act on every component exactly once and in the right order, transforms, sums, dots, norms, comparisons, lifts and component access agree with a plain reference, products and powers of quantities carry the right value and dimensions, only quantities of equal dimensions are added or compared, unit vectors have unit length with axis projections as stated, and matrix products, transposes and identities are exact.',
 ['inputs'],'for every length, element value and operand combination',
 'Component mix-ups only show for particular lengths and asymmetric values.',
 ['src/core_sequence.hpp','src/core_tuple.hpp','src/core_dimensional.hpp','src/core_geometric.hpp','src/core_matrix.hpp'],[('value types','src/core_*.hpp')],['components'],['operator results'])

p('C20','Linked lists are persistent sequences of any length',
 'The linked list behaves as an immutable sequence: building, prepending, appending, concatenating, reversing, head, tail, size, equality and iteration agree with an ordinary sequence, never alter existing lists that share structure, and release every element exactly once. This holds for lists of any length, without exhausting the stack.',
 ['inputs','histories'],'for every sequence of list operations and lengths up to hundreds of thousands',
 'Recursion depth and structural sharing only matter for long lists and long histories.',
 ['src/core_linked_list.hpp'],[('list type','src/core_linked_list.hpp')],['shared list nodes'],['list contents, live element counts, stack use'])

p('C21','Message passing delivers every message intact to the right receiver',
 'Through the message-passing wrapper every message sent, blocking or not, of any size including empty, is received exactly once, complete and unmodified, by the addressed rank with the right tag and source, also with wildcard receives, with several messages in flight, after requests are moved, and whatever delay the message-passing library uses its buffers with; a receive whose request is dropped never writes into released memory. Collective operations, also on empty and unequal contributions, equal their serial definition on every rank, and a message of the wrong size is refused with an error. Communicators and requests are released exactly once however they are copied, moved or assigned.',
 ['schedules','inputs','histories'],'for every number of ranks, message size, ordering of sends and receives, and collective',
 'No test uses message passing; corruption depends on message size, timing and object moves.',
 ['src/core_mpi.hpp'],[('communicator and request wrappers','src/core_mpi.hpp')],['message buffers, requests, communicators'],['received values on every rank, interposed MPI calls'])

p('C22','Filesystem helpers act only on the named path, and as named',
 'Creating a directory path makes exactly that path (absolute or relative, with any number of components and redundant slashes) and is harmless when it exists. Removing a tree removes exactly that tree and nothing reachable through symbolic links or outside it. Splitting, joining, extension and parent queries are mutually consistent, listing returns exactly the (non-hidden) entries, and existence and type queries agree with the operating system.',
 ['inputs','histories'],'for every path text and every directory tree, including links and special files',
 'There are no tests of these helpers; harm occurs on unusual trees and path texts.',
 ['src/app_filesystem.hpp'],[('path and directory helpers','src/app_filesystem.hpp')],['directory tree in a scratch folder'],['file system before and after, return values'])

p('C23','Slope limiting, interpolation and root finding are correct',
 'The limited slope is zero at extrema, never exceeds the limiter bounds, is odd and symmetric, scales linearly and reproduces linear data, so reconstruction creates no new extrema. This holds per component for composite states too. The vertex of a parabola through three points is exact to round-off. The cubic and quartic root finders report exactly the real roots (to round-off on the scale of the largest root) whenever the roots are well separated, for every coefficient pattern including vanishing ones and symmetric root sets; the values of repeated real roots are among those returned even where a pair is flagged not real.',
 ['inputs'],'for every triple of values, limiter parameter and coefficient set',
 'Degenerate coefficient patterns and signs form branches that sampled tests miss.',
 ['src/math_interpolation.hpp','src/math_polynomial.hpp'],[('limiter and interpolation','src/math_interpolation.hpp'),('roots','src/math_polynomial.hpp')],['none'],['returned slopes and roots'])

p('C24','Initial models and shock finder match their analytic definitions',
 'The atmosphere, envelope and jet models satisfy their stated integrals and inverses: density integrates to the stated mass, requesting a total mass yields it whatever the previous settings, profiles are continuous across their joins, mass coordinate and radius are inverse to each other, velocities stay below light speed, changing one parameter changes no other, and jet power integrates to the stated energy. The shock finder locates a planted jump, its upstream plateau and the pressure maximum behind it within its array bounds, for any shock position; a profile whose entropies cannot be compared is reported.',
 ['inputs','configurations'],'for every valid model parameter set, radius and time, and every shock profile',
 'No test covers these models; errors show only away from default parameters.',
 ['src/model_atmosphere.hpp','src/model_jet_nozzle.hpp','src/post_shock_locator.hpp'],[('models','src/model_*.hpp'),('shock locator','src/post_shock_locator.hpp')],['model parameters'],['profile values, located indexes'])

p('C25','Programs run without memory errors, undefined behaviour or races',
 'Every sub-program runs every valid configuration, new or restarted, to completion without out-of-bounds or dangling access, undefined behaviour or data race, exits with success, and leaves its output files complete, closed and readable. Invalid options (unknown sub-programs or names, malformed values, unsupported choices of method, missing or damaged restart files) end the program with an error message and a failure status before any time step, not with corrupted output.',
 ['configurations','schedules'],'for every sub-program and every combination of its run options',
 'No test runs a sub-program; memory and race errors need instrumentation and particular configurations.',
 ['src/app_main.cpp','src/subprog_*.cpp'],[('sub-program entry points','src/subprog_*.cpp')],['process memory, output files'],['sanitizer reports, exit status, files'])

p('C26','Suite and copy tools act on exactly the named runs and latest files',
 'For every suite file the suite tool writes for each run of the suite exactly one submission script and one README, in the folder of that run; the script starts the program and sub-program of the suite with the options of the suite, overridden by those of the run, with output to the folder of the run and, if asked to restart, from the checkpoint with the highest number there. The job parameters of the suite reach the script. Each run is submitted once if asked for and otherwise not at all. The copy tool copies, for each named folder that holds any, the file of the requested kind with the highest number (or the one at the requested position), or the requested groups of it, unchanged to the destination under the name of the folder. Neither tool touches any other file.',
 ['inputs','histories'],'for every suite, set of runs and options, and content of the output folders',
 'The tools have no tests; a wrong checkpoint or option silently continues the wrong simulation.',
 ['tools/run_suite.py','tools/copy_latest.py'],[('suite tool','tools/run_suite.py'),('copy tool','tools/copy_latest.py')],['output folders'],['scripts, started commands, folders before and after'])

open('/verif/properties.jsonl','w').write('\n'.join(json.dumps(x) for x in P)+'\n')
print(len(P))
