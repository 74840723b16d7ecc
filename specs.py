"""Which harnesses decide which property, and how they are built and run."""

APP = {'name': 'app_plain', 'src': ['repoapp'], 'mode': 'plain', 'helper': True}


def only(*programs):
    """Compiler flags that leave out every other sub-program."""
    return ['-DMARA_COMPILE_SUBPROGRAM_%s=0' % p for p in ('BOILERPLATE', 'PARTDOM', 'CLOUD', 'SEDOV', 'BINARY', 'AMRSAND') if p not in programs]


def cloud(threads):
    return {'name': 'cloud%d' % threads, 'src': ['repoapp'], 'mode': 'plain', 'helper': 'CLOUD%d' % threads,
            'flags': only('CLOUD') + ['-DMARA_PREFERRED_THREAD_COUNT=%d' % threads]}



SPECS = {
    'C01': {
        'units': [
            {'name': 'c01_inject', 'src': ['c01_thread_pool.cpp'], 'mode': 'plain', 'flags': ['-DVP_INJECT']},
            {'name': 'c01_tsan', 'src': ['c01_thread_pool.cpp'], 'mode': 'tsan'},
            {'name': 'c01_asan', 'src': ['c01_thread_pool.cpp'], 'mode': 'asan'},
        ],
        'rule': 'random pools, producers, task counts, delays, throwing tasks, restarts; a case is distinct by its '
                '(workers, producers, tasks, faults) signature and non-trivial because real threads run it',
        'must_observe': {'task-run': 1000, 'shutdown': 500, 'restart': 20, 'exception': 50, 'exception-of-any-type': 50, 'in-order': 500, 'restart-with-backlog': 100, 'backlog': 5000},
        'assumptions': ['tasks terminate by themselves', 'at least one worker'],
    },
    'C03': {
        'units': [{'name': 'c03', 'src': ['c03_arrays.cpp', 'c03_part1.cpp', 'c03_part2.cpp', 'c03_part3.cpp'], 'mode': 'asan'}],
        'rule': 'random chains of up to 7 array operations on random arrays of rank 1 to 3 (extents 0 and 1 over-represented), each '
                'step compared element by element with a plain reference under ASan+UBSan; a case is distinct by its chain of operations, '
                'shapes and selections',
        'must_observe': {'elements': 50000, 'rejected': 1000, 'expr:select': 50, 'expr:replace': 50, 'expr:concat': 50,
                         'expr:collect-sum': 20, 'expr:shift': 50, 'expr:freeze-axis': 50, 'lifetime': 100},
        'assumptions': ['ranks 1 to 3, extents up to about 20', 'element type double in chains; other element types through the storage section'],
    },
    'C04': {
        'units': [dict(APP, flags=only('PARTDOM')), {'name': 'c04', 'src': ['c04_index_sets.cpp'], 'mode': 'asan'}, {'name': 'c04p', 'src': ['c04_program.cpp'], 'mode': 'plain'}],
        'rule': 'random selections of rank 1 to 4, partitions into 1 to 16 parts, groupings, block decompositions and factorisations compared '
                'with brute-force enumeration; a case is distinct by its extents, starts, ends and strides',
        'must_observe': {'index-visited': 10000, 'empty-selection': 200, 'fewer-rows-than-parts': 100, 'block': 5000, 'large-shape': 100, 'even-decomposition': 50, 'program-block': 100, 'program-file': 15},
        'assumptions': ['positive strides'],
    },
    'C05': {
        'units': [{'name': 'c05', 'src': ['c05_trees.cpp'], 'mode': 'asan'}],
        'rule': 'random histories of splitting, inserting, updating, mapping, pairing and operators on trees of rank 1 to 3 in lock-step with a map from '
                'leaf positions to values, every older tree re-read after each step; lookups at leaves, branches, descendants and outside; random positions '
                'for the index arithmetic; a case is distinct by its sequence of operations or its position',
        'must_observe': {'leaf-compared': 100000, 'lookup-refused': 10000, 'lookup:ancestor': 2000, 'child': 2000, 'insert-deeper': 100, 'insert-refused': 100,
                         'shape-refused': 100, 'map-async': 50, 'wrapped-neighbour': 5000, 'hilbert-position': 20000, 'hilbert-deep': 200},
        'assumptions': ['trees up to about 600 leaves and 12 levels', 'index arithmetic up to level 28'],
    },
    'C06': {
        'units': [{'name': 'c06', 'src': ['c06_mesh.cpp'], 'mode': 'asan'}],
        'rule': 'meshes from random refinement rules, hand-refined unbalanced trees, random cell data; leaf sets, geometric adjacency (periodic), vertex '
                'positions and every block request compared with brute force; a case is distinct by rule, depth and block size',
        'must_observe': {'mesh-mixed-levels': 40, 'mesh-balanced': 10, 'unbalanced-input': 50, 'block:leaf': 2000, 'block:below-leaf': 2000, 'block:branch': 500,
                         'vertex-block': 1000, 'total': 50, 'one-level': 300},
        'assumptions': ['refinement rules that do not ask for more at deeper levels than at shallower ones', 'square domain from -1 to 1'],
    },
    'C07': {
        'units': [{'name': 'c07', 'src': ['c07_hdf5.cpp', 'repo:subprog_binary_io.cpp'], 'mode': 'asan'}],
        'rule': 'random histories of writes, overwrites, reads under the right and under other types, and reopenings over 24 storable types with special '
                'values; random hyperslabs of rank 1 to 4; growing series; trees, schedules, options and disk-solver states; compared bit by bit and through '
                'the C library; a case is distinct by its history, selection or structure',
        'must_observe': {'write:string': 50, 'read:array3': 300, 'misread-refused': 5000, 'overwrite': 200, 'missing-refused': 200, 'selection-points': 2000,
                         'empty-selection': 100, 'single-element': 100, 'array-selection': 300, 'appended': 1500, 'tree-rank1': 50, 'tree-rank3': 50,
                         'disk-state': 40, 'member-by-name': 1000, 'member-name': 500, 'file-name': 80, 'option': 1000, 'schedule-task': 500, 'raw-array': 200},
        'assumptions': ['one process, serial HDF5 access', 'strings without embedded null characters', 'partial reads into sequences, not into arrays'],
    },
    'C08': {
        'units': [{'name': 'c08', 'src': ['c08_handles.cpp'], 'mode': 'asan'}],
        'rule': 'random histories of opening, moving, assigning, closing, reading, writing and failing (real and injected library failures) on a pool of '
                'handles; live identifiers counted by the library before and after, every close call interposed; a case is distinct by its history',
        'must_observe': {'operation': 30000, 'injected-failure': 500, 'refused': 3000, 'move-assign:file': 200, 'move-assign:group': 80, 'move-assign:dataset': 80,
                         'copy-assign:dataspace': 300, 'explicit-close': 1000, 'identifiers-closed': 50000, 'open:r': 300, 'not-hdf5': 100, 'identifiers-scanned': 50000, 'monitor-tested': 1},
        'assumptions': ['a failing library call reports an error on the error stack'],
    },
    'C09': {
        'units': [{'name': 'c09', 'src': ['c09_config.cpp'], 'mode': 'asan'}],
        'rule': 'random templates and histories of updates from text, typed values, maps, stored options and command lines, in lock-step with a '
                'reference map; a case is distinct by its template and sequence of updates',
        'must_observe': {'option-read': 10000, 'text-accepted': 300, 'text-rejected': 200, 'typed-rejected': 100, 'command-line-rejected': 50, 'duplicate-rejected': 100},
        'assumptions': ['integer options in decimal, floating point in decimal or exponent notation'],
    },
    'C10': {
        'units': [{'name': 'c10', 'src': ['c10_schedule.cpp'], 'mode': 'asan'}, APP,
                  {'name': 'c10_runs', 'src': ['c10_runs.cpp'], 'mode': 'plain'}],
        'rule': 'random interval sets and step sequences (shorter, equal, longer than the intervals) through the schedule, random schedule histories '
                'against a model, and whole runs of every program whose numbered outputs are timed; distinct by intervals, steps or command line',
        'must_observe': {'series-row': 2000, 'round': 300, 'task-fired': 20000, 'task-idle': 20000, 'backlog': 50, 'output-timed': 100, 'cadence-run:boilerplate': 2,
                         'cadence-run:sedov': 4, 'cadence-run:cloud': 2, 'cadence-run:binary': 2,
                         'final-time:boilerplate': 4, 'final-time:sedov': 1, 'final-time:cloud': 1, 'final-time:binary': 1},
        'assumptions': ['positive intervals', 'the template, explosion, jet and disk programs'],
    },
    'C11': {
        'units': [APP, {'name': 'c11', 'src': ['c11_restart.cpp'], 'mode': 'plain', 'timeout': 300}],
        'rule': 'random run configurations of every restartable program; each run is repeated with restarts from its checkpoints, with chains of '
                'early stops, after SIGKILL, among later outputs, with new options, or in a folder used before, and every file is compared byte by byte; distinct by configuration and interruption',
        'must_observe': {'restart': 20, 'restart-among-later': 5, 'used-folder': 5, 'file-compared': 100, 'option-compared': 50, 'reference:boilerplate': 1, 'reference:sedov': 1,
                         'reference:cloud': 1, 'reference:binary': 2},
        'assumptions': ['the same build and machine before and after the restart', 'a checkpoint is complete once its writer has closed it'],
    },
    'C14': {
        'units': [{'name': 'c14', 'src': ['c14_conversion.cpp'], 'mode': 'asan'}],
        'rule': 'random physical states of the three gas systems (density over 12 to 16 decades, Mach up to 100, Lorentz factor up to 100, pressure over 10 '
                'decades), positions, adiabatic indices and floors, and arbitrary or unphysical relativistic conserved states; compared with the definitions '
                'within round-off of the inversion; a case is distinct by its state',
        'must_observe': {'iso2d-state': 20000, 'euler-state': 20000, 'srhd-recovered': 40000, 'arbitrary-recovered': 1000, 'arbitrary-refused': 1000,
                         'unphysical-reported': 5000},
        'assumptions': ['pressure above the round-off of the energy', 'finite inputs or not-a-number, no infinities', 'adiabatic index 1.05 to 2'],
    },
    'C15': {
        'units': [{'name': 'c15', 'src': ['c15_fluxes.cpp'], 'mode': 'asan'}],
        'rule': 'random pairs of physical states (equal, near, independent, supersonic, colliding, receding), directions, adiabatic indices and orthogonal '
                'transformations; fluxes compared with long-double expressions, the solvers with the averaged state and jump conditions, within round-off; a '
                'case is distinct by its mass fluxes',
        'must_observe': {'%s:%s' % (a, b): 2000 for a in ('iso2d', 'euler', 'srhd') for b in ('fan', 'left-going', 'right-going')}
                        | {'hllc:left': 1000, 'hllc:left-star': 5000, 'hllc:right-star': 5000, 'hllc:right': 1000, 'isolated-contact': 10000},
        'assumptions': ['Mach numbers up to about 60, Lorentz factors up to about 30'],
    },
    'C16': {
        'units': [{'name': 'c16', 'src': ['c16_waves.cpp'], 'mode': 'asan'}],
        'rule': 'random states, directions, positions and adiabatic indices; speeds and matrices compared with long-double expressions and with the exact '
                '(complex-step) derivative of the flux, source terms with the divergence of the flux of a uniform flow; a case is distinct by its state',
        'must_observe': {'iso2d-speeds': 10000, 'euler-speeds': 10000, 'srhd-speeds': 10000, 'srhd-characteristic': 10000, 'eigensystem': 10000,
                         'averaged': 10000, 'euler-source': 10000, 'srhd-source': 10000, 'iso2d-source': 10000},
        'assumptions': ['Mach numbers up to 100, Lorentz factors up to 100', 'polar angles not within 0.05 of the axis'],
    },
    'C17': {
        'units': [{'name': 'c17', 'src': ['c17_two_body.cpp'], 'mode': 'asan'}],
        'rule': 'random orbits (eccentricity zero, tiny, moderate, up to 1 - 1e-7; mass ratios over 15 decades), times up to 1e8 periods, rotations and moving '
                'centres of mass, compared with a long-double bisection of Kepler\'s equation and with numerical derivatives; a case is distinct by '
                'eccentricity, mass ratio and phase',
        'must_observe': {'circular': 1000, 'eccentric': 10000, 'very-eccentric': 1000, 'newton': 1000, 'long-time': 1000, 'before-periapse': 1000,
                         'elements-recovered': 5000, 'near-circular-again': 1000, 'again': 5000, 'bound': 1000, 'unbound-refused': 1000, 'difference': 5000,
                         'delta-a': 5000},
        'assumptions': ['prograde orbits', 'positive masses', 'recovery of elements for eccentricity up to 0.999'],
    },
    'C23': {
        'units': [{'name': 'c23', 'src': ['c23_math.cpp'], 'mode': 'asan'}],
        'rule': 'triples of values (zeros, ties, tiny, huge) with limiter parameters in [1, 2] against the definition of the limiter; parabolas with known vertex; '
                'polynomials built from known roots (real, complex, opposite, repeated, integer) in long double; distinct by the numbers used',
        'must_observe': {'cubic-double-3': 3000, 'slope-zero': 10000, 'slope-positive': 3000, 'slope-negative': 3000, 'vertex': 10000, 'cubic-1-real': 10000, 'cubic-3-real': 10000,
                         'cubic-close': 3000, 'small-term': 10000, 'quartic-0-real': 3000, 'quartic-2-real': 10000, 'quartic-4-real': 5000, 'quartic-close': 3000},
        'assumptions': ['limiter parameter between 1 and 2', 'non-zero leading coefficient, distinct abscissae'],
    },
    'C24': {
        'units': [{'name': 'c24', 'src': ['c24_models.cpp'], 'mode': 'asan'}],
        'rule': 'random model parameters; masses, energies and slopes against numerical integrals and difference quotients in long double, inverses by round trip, joins '
                'from both sides, every setter against the other parameters; pressure and density profiles with planted jumps, ties and noise for the shock finder; '
                'distinct by parameters or profile',
        'must_observe': {'atmosphere': 1000, 'atmosphere-log': 50, 'mass-requested': 1000, 'endless': 1000, 'inverse': 5000, 'join': 2000, 'envelope-mass': 100,
                         'cloud-mass': 100, 'cloud-mass-log': 5, 'jet-energy': 500, 'jet-energy-other': 500, 'planted': 500, 'ties': 300, 'shock-first': 30,
                         'shock-last': 30, 'maximum': 3000, 'maximum-first': 1000, 'plateau': 1000, 'no-plateau': 1000},
        'assumptions': ['positive parameters, inner radius below the cutoff', 'profiles of two or more zones', 'jet energy for opening angles up to 0.2'],
    },
    'C02': {
        'units': [{'name': 'c02_tsan', 'src': ['c02_parallel.cpp'], 'mode': 'tsan'},
                  {'name': 'c02_asan', 'src': ['c02_parallel.cpp'], 'mode': 'asan'},
                  dict(APP, flags=only('BINARY', 'CLOUD')), cloud(1), cloud(3),
                  {'name': 'app_tsan', 'src': ['repoapp'], 'mode': 'tsan', 'helper': 'TSAN', 'flags': only('BINARY', 'CLOUD') + ['-DMARA_PREFERRED_THREAD_COUNT=4']},
                  {'name': 'c02_runs', 'src': ['c02_runs.cpp'], 'mode': 'plain', 'timeout': 300, 'group': 1}],
        'rule': 'arrays of rank 1 to 3 of every small shape on 1 to 64 threads and trees of 1 to hundreds of leaves on pools of 1 to 40 workers against the serial '
                'evaluation, under TSan and ASan; whole disk and jet runs with different thread counts compared file by file, and again under TSan; a case is '
                'distinct by shape, thread count and tree, or by its run options',
        'must_observe': {'disk': 6, 'jet': 6, 'tsan-run': 3, 'file-compared': 60, 'array-empty': 10, 'array-few-rows': 50, 'array-uneven': 50, 'array-even': 20, 'async': 50, 'restarted': 20, 'tree-few': 20, 'tree-many': 50, 'many-threads': 6},
        'assumptions': ['thread counts 1 to 64', 'one process'],
    },
    'C21': {
        'units': [{'name': 'c21_tcp', 'src': ['c21_mpi.cpp'], 'mode': 'asan', 'mpi': 4, 'btl': 'self,tcp'},
                  {'name': 'c21_vader', 'src': ['c21_mpi.cpp'], 'mode': 'asan', 'mpi': 3, 'btl': 'self,vader', 'group': 1},
                  {'name': 'c21_alone', 'src': ['c21_mpi.cpp'], 'mode': 'asan', 'mpi': 1, 'btl': 'self', 'group': 1}],
        'rule': 'random traffic on 1, 3 and 4 ranks over two transports: blocking, non-blocking, probed, wildcard, dropped and moved requests, messages of 0 to '
                'hundreds of kilobytes of several element types, every collective, with an MPI that uses the freedom the standard gives it (buffers read or '
                'written as late as possible, wildcard receives matched to any candidate); a case is distinct by the plan all ranks agree on',
        'must_observe': {k: 1 for k in ('adversarial', 'deferred', 'empty', 'short', 'medium', 'long', 'typed', 'irecv', 'recv', 'planned', 'shuffled', 'probed',
                                        'wildcard', 'wildcard-irecv', 'bcast', 'scatter', 'scatterv', 'scatterv-empty', 'all-to-all', 'all-gather', 'all-gatherv',
                                        'all-gatherv-empty', 'wrong-size', 'wrong-type', 'handles', 'contexts', 'self-assigned', 'dropped')},
        'assumptions': ['a send is completed (waited for or tested) before its request is dropped', 'strings, not string literals, are sent'],
    },
    'C12': {
        'units': [dict(APP, flags=only('BINARY')), {'name': 'c12', 'src': ['c12_disk.cpp', 'repolib'], 'mode': 'plain', 'flags': only('BINARY'), 'timeout': 300}],
        'rule': 'the real update on random meshes (1 to 5 levels, refined and not), binaries, disturbed disks and options: budgets of mass, momentum and angular momentum '
                'before and after each step, every recorded total against a sum over cells, every cell against an independent statement of the method (single-level '
                'meshes) or of its sources and stresses, quarter-turned twins, diagnostics, and whole runs written at every step (each step against the configured method, each sample against its state); a case is distinct by its run options',
        'must_observe': {'initial-point': 1000, 'initial-state': 20, 'drift': 100, 'run-sample': 60, 'run-state': 60, 'two-stage-step': 15, 'one-stage-step': 15, 'fixed-step': 10, 'step': 200, 'refined-mesh': 50, 'linear': 50, 'angular': 50, 'momentum': 20, 'orbit': 50, 'live-orbit': 30, 'fixed-orbit': 30, 'body-kicked': 100, 'body-accretes': 50, 'work': 50, 'average': 50,
                         'cell-source': 10000, 'floor': 3, 'uniform': 50, 'stress': 5000, 'turned': 100, 'updated': 5000, 'pcm': 10, 'plm': 30, 'diagnosed': 10000,
                         'run': 4, 'sample': 10},
        'assumptions': ['configurations on which the scheme does not break down (negative density) in the sampled steps', 'up to 5 levels and blocks of up to 12 cells',
                        'the exchange through the outer edge of the periodic domain is excluded where the sound speed is not axisymmetric'],
    },
    'C13': {
        'units': [dict(APP, flags=only('SEDOV', 'CLOUD', 'BOILERPLATE', 'AMRSAND')), {'name': 'c13', 'src': ['c13_solvers.cpp'], 'mode': 'plain', 'timeout': 300}],
        'rule': 'whole runs of the explosion, jet, template and mesh-sandbox programs with an output at every step; every step of every cell is compared with one '
                'computed by the harness from the previous output, totals with the flow through the boundaries, diagnostics (fields, shock positions and powers, time series) with the checkpoint they accompany; a '
                'run is distinct by its options',
        'must_observe': {'run:sedov': 60, 'run:cloud': 50, 'run:boilerplate': 10, 'run:amrsand': 10, 'replaced:sedov': 20, 'replaced:cloud': 20, 'cell-step': 50000, 'fast-signals': 20, 'rest-cell': 200, 'uniform-step': 20, 'refined-step': 10, 'shock': 5000, 'shock-beyond-64': 1, 'shock-speed': 500, 'shock-interpolated': 100, 'series-row': 300},
        'assumptions': ['Riemann solver, recovery, source terms and models are those of the library (decided by C14, C15, C16 and C24)', 'meshes of 4 to 40 zones per decade'],
    },
    'C25': {
        'units': [{'name': 'app_asan', 'src': ['repoapp'], 'mode': 'asan0', 'helper': 'ASAN', 'flags': ['-DMARA_PREFERRED_THREAD_COUNT=4']},
                  {'name': 'app_tsan', 'src': ['repoapp'], 'mode': 'tsan', 'helper': 'TSAN', 'flags': only('BINARY', 'CLOUD') + ['-DMARA_PREFERRED_THREAD_COUNT=4']},
                  {'name': 'c25', 'src': ['c25_programs.cpp'], 'mode': 'plain', 'timeout': 300}],
        'rule': 'whole runs of every sub-program with random valid options, new and restarted, built with the address and undefined-behaviour sanitizers, and of the '
                'threaded ones with the race detector; then unknown, malformed and unsupported options; a run is distinct by its options',
        'must_observe': dict({'asan:' + p: 5 for p in ('sedov', 'cloud', 'binary', 'boilerplate', 'amrsand', 'partdom')}, **dict({'restart:' + p: 4 for p in ('sedov', 'cloud', 'binary', 'boilerplate')},
                             **{'tsan:cloud': 2, 'tsan:binary': 2, 'file': 100, 'invalid:unknown option': 10, 'invalid:malformed value': 20, 'invalid:unsupported choice': 10, 'invalid:unknown sub-program': 3, 'invalid:missing restart file': 4})),
        'assumptions': ['sizes and mesh depths are positive', 'disk configurations whose surface density turns negative are set aside (at most a third)'],
    },
    'C26': {
        'units': [dict(APP, flags=only('SEDOV')), {'name': 'c26', 'src': ['c26_tools.cpp'], 'mode': 'plain', 'timeout': 250}],
        'technique': 'runtime monitoring: the real command line tools on random suites and folders, the commands they start recorded by stand-ins, folders compared before and after',
        'rule': 'random suite files, machine files, folders left by earlier runs and tool options; scripts, started commands and files compared with what the suite says; '
                'then explosions started and restarted through the tool by the real program; a case is distinct by its suite text and tool options',
        'must_observe': {'suite-run': 50, 'suite-restart': 15, 'suite-submitted': 10, 'restart-beyond-9999': 3, 'file-copied': 80, 'copy-beyond-9999': 5, 'copy-first': 8, 'groups-copied': 20, 'real-run': 4},
        'assumptions': ['names and option values without blanks or shell metacharacters', 'POSIX shell', 'the plotting tools are out of scope: they need libraries that are not installed'],
    },
    'C18': {
        'units': [{'name': 'c18', 'src': ['c18_rational.cpp'], 'mode': 'asan'}],
        'rule': 'all pairs with numerator and denominator up to 9, random pairs (small and wide), operation histories, schedule-like counters, '
                'compared with exact 128-bit arithmetic; a case is distinct by its operands',
        'must_observe': {'exact-op': 100000, 'equal-pair': 300, 'pair': 20000, 'wide': 10000},
        'assumptions': ['results and the documented intermediates fit in a long'],
    },
    'C22': {
        'units': [{'name': 'c22', 'src': ['c22_filesystem.cpp'], 'mode': 'asan'}],
        'rule': 'random directory trees with links (inward, outward, dangling), fifos, sockets and odd names in a scratch folder, compared before and '
                'after each call; removing calls are interposed and confined; path functions against their definition; distinct by tree or path',
        'must_observe': {'tree-removed': 100, 'entry-removed': 500, 'directory-required': 300, 'absolute-path': 100, 'type-query': 3000, 'listing': 1000, 'path': 5000},
        'assumptions': ['POSIX file system', 'path components without dot-dot'],
    },
    'C19': {
        'units': [{'name': 'c19', 'src': ['c19_values.cpp'], 'mode': 'asan'}],
        'rule': 'random sequences (length 1 to 8), tuples, derived tuples, quantities, unit vectors and matrices with dyadic components (exact '
                'arithmetic), compared with a plain reference; a case is distinct by its component values',
        'must_observe': {'components': 300000, 'matrix': 2000, 'unit-vector': 1000},
        'assumptions': ['components of moderate magnitude'],
    },
    'C20': {
        'units': [{'name': 'c20', 'src': ['c20_linked_list.cpp'], 'mode': 'asan'}],
        'rule': 'random histories of list operations on a pool of lists that share structure, every list compared with a reference sequence after '
                'every step, live elements counted, and lists of several hundred thousand elements; a case is distinct by its history',
        'must_observe': {'list-compared': 50000, 'history': 300, 'long-list': 3, 'empty-access': 500, 'shared-tail-compared': 5000},
        'assumptions': ['element type copyable'],
    },
}
NOT_APPLICABLE = {}
