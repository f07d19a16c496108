"""Per-property budgets and the text of the evidence files."""

ASSUMPTIONS = [
    'CPython, numpy, rich, autoray and the operating system behave as '
    'documented; threads are interleaved only at the simulated seams (locks, '
    'events, sleeps, shared-memory accesses, worker dispatch, file system '
    'calls)',
    'simulated processes share the interpreter: they are isolated by pickling '
    'what crosses a process boundary, not by separate address spaces',
    'the sampled seeds are evidence, not proof',
]

_PAR = dict(
    real=['tnco.parallel (Parallel, Buffer)', 'rich progress', 'cloudpickle '
          'serialization of tasks and results'],
    stub=['joblib/loky workers', 'shared memory', 'threads, timers, events, '
          'clocks (discrete-event simulator)'])
_OPT = dict(
    real=['tnco_core (C++ search, cost models, trees)', 'tnco.optimize',
          'tnco.ctree'], stub=['random stream seeds', 'process crash and '
                               'restore (pickle through a simulated process '
                               'boundary)'])
_APP = dict(
    real=['tnco.app optimizers', 'tnco_core', 'tnco.parallel', 'tnco.utils.tn'],
    stub=['joblib/loky workers', 'shared memory', 'threads, timers, clocks',
          'operating-system entropy'])

CATALOG = {
    'C06': dict(
        quick_runs=6000, thorough_runs=120000, components=_PAR,
        rule='one evaluation is one simulated execution of one or two '
        'concurrent parallel calls with drawn tasks, jobs, buffers, schedule '
        'and faults; non-trivial: at least two tasks',
        state_measure='distinct task completion orders'),
    'C07': dict(
        quick_runs=8000, thorough_runs=160000, components=_PAR,
        rule='one evaluation is one simulated parallel call (or optimization) '
        'with a drawn timeout, durations, schedule and clock jumps; '
        'non-trivial: some task was stopped by the timeout',
        state_measure='distinct (timeout, sequence of stop polls)'),
    'C08': dict(
        quick_runs=8000, thorough_runs=160000, components=_PAR,
        rule='one evaluation is one simulated sequence of one or two parallel '
        'calls or optimizations with one kind of fault injected; non-trivial: '
        'the call raised, or returned after a fault-free execution',
        state_measure='distinct (level, fault, verbosity, outcomes)'),
    'C12': dict(
        quick_runs=8000, thorough_runs=100000, components=_PAR,
        rule='one evaluation is a pair of simulated executions of the same '
        'call, silent and with progress reporting; non-trivial: the progress '
        'thread ran', state_measure='distinct (level, verbosity, completion '
        'order)'),
    'C01': dict(
        quick_runs=6000, thorough_runs=120000, components=_APP,
        rule='one evaluation is one simulated optimization with drawn network,'
        ' options, schedule and stopping point, all results replayed in the '
        'reference model; non-trivial: some path is not empty',
        state_measure='distinct (options, path)'),
    'C03': dict(
        quick_runs=6000, thorough_runs=120000, components=_OPT,
        rule='one evaluation is one simulated search or optimization with a '
        'drawn memory limit, checked at every step; non-trivial: slices were '
        'needed', state_measure='distinct (number of slices, cost)'),
    'C02': dict(
        quick_runs=6000, thorough_runs=120000, components=_OPT,
        rule='one evaluation is one simulated search checked after every step '
        '(restored from its pickle at drawn points), or one network optimized '
        'with several budgets and stopping points; non-trivial: the best cost '
        'improved', state_measure='distinct (step, best cost, current cost)'),
    'C05': dict(
        quick_runs=3000, thorough_runs=60000, components=_OPT,
        rule='one evaluation is one search lost and restored at drawn points '
        '(same process, copies, or another process with another hash seed) '
        'and run in lock-step with the original, or one optimizer serialized '
        'between calls; non-trivial: the search moved after the restore',
        state_measure='distinct (way to restore, step, cost)'),
    'C14': dict(
        quick_runs=3000, thorough_runs=60000, components=_OPT,
        rule='one evaluation is one simulated search on a drawn network whose '
        'trees, index sets and costs are compared with the reference model '
        'after every step; non-trivial: the tree moved',
        state_measure='distinct (contraction, cost)'),
    'C15': dict(
        quick_runs=12000, thorough_runs=60000, components=dict(
            real=['tnco.utils.tn', 'tnco.utils.tensor', 'tnco.utils.circuit',
                  'tnco.app.load_tn'],
            stub=['random stream (dictated draw by draw in most runs)']),
        rule='one evaluation is one path generation, fusion or loading of a '
        'drawn network or circuit under a seeded or dictated random stream, '
        'compared with direct summation; non-trivial: at least two '
        'contractions or gates', state_measure='distinct results'),
    'C11': dict(
        quick_runs=1500, thorough_runs=40000, components=dict(
            real=['tnco.app.circuit.sampling', 'tnco.app optimizer',
                  'tnco.utils', 'cirq and qiskit circuits'],
            stub=['random numbers (dictated next to the decision thresholds)',
                  'joblib/loky workers', 'clocks']),
        rule='one evaluation is one circuit sampled with dictated random '
        'numbers and compared sample by sample with the exact chain, or one '
        'intermediate state reused and restored elsewhere; non-trivial: some '
        'random number was used', state_measure='distinct results'),
    'C10': dict(
        quick_runs=20000, thorough_runs=150000, components=dict(
            real=['tnco.app.load_file, load_tn, optimizer', 'gzip, bz2, json',
                  'cirq'],
            stub=['file system and standard input (short reads, failing reads '
                  'and opens, damaged files)', 'joblib/loky workers',
                  'clocks']),
        rule='one evaluation is one content written to a simulated file (or '
        'standard input), damaged or not, and loaded while reads are split or '
        'fail; non-trivial: more than a few bytes',
        state_measure='distinct (content, compression, access, fault, '
        'outcome, size)'),
    'C09': dict(
        quick_runs=10000, thorough_runs=150000, components=dict(
            real=['tnco.app optimizers, dump_results, load_file, '
                  'tnco.app.cli.Main', 'gzip, bz2, json, pickle', 'tnco_core'],
            stub=['file system (partial and failing writes, disk full, failing '
                  'open and close, files created by others)',
                  'joblib/loky workers', 'threads, clocks']),
        rule='one evaluation is one optimization saved to a simulated file '
        'while writes fail or other programs create the file, compared with '
        'the same optimization in memory; non-trivial: saved, or a fault or '
        'conflict occurred',
        state_measure='distinct (format, compression, overwriting, conflict, '
        'fault position, outcome)'),
    'C13': dict(
        quick_runs=3000, thorough_runs=150000, components=dict(
            real=['tnco_core (C++ search, acceptance rules, cost models)',
                  'tnco.optimize'],
            stub=['random stream (generator states crafted so that every '
                  'random number is next to a decision threshold)']),
        rule='one evaluation is one search whose updates get dictated random '
        'numbers, every outcome compared with the outcomes the rule allows '
        '(or the frequencies over 500 seeds); non-trivial: a move was decided',
        state_measure='distinct (tree, slices, rule, kind of random numbers)'),
    'C16': dict(
        quick_runs=3000, thorough_runs=80000, components=_APP,
        rule='one evaluation is one simulated optimization of a network with '
        'arrays or of a circuit, every returned path (with and without its '
        'slices) contracted and compared with direct summation or the exact '
        'amplitudes; non-trivial: some path is not empty',
        state_measure='distinct (kind, paths)'),
    'C04': dict(
        quick_runs=1500, thorough_runs=80000, components=dict(
            real=['tnco.app optimizers, load_tn, sampler', 'tnco_core',
                  'tnco.parallel', 'tnco.utils', 'a second process with '
                  'another hash seed'],
            stub=['joblib/loky workers', 'shared memory',
                  'threads, timers, clocks', 'operating-system entropy']),
        rule='one evaluation is one seeded workload (optimization, loading, '
        'fusing, path generation, sampling, search) executed under several '
        'schedules, environments and processes and compared; non-trivial: '
        'the workload returned a value',
        state_measure='distinct outcomes'),
    'C17': dict(
        quick_runs=6000, thorough_runs=150000, components=dict(
            real=['tnco.app (load_tn, optimizers, dump_results, sampler)',
                  'tnco.utils', 'tnco.ctree', 'tnco_core', 'tnco.parallel'],
            stub=['joblib/loky workers', 'shared memory', 'file system',
                  'threads, timers, clocks', 'execution cut at a drawn line '
                  '(KeyboardInterrupt, MemoryError)']),
        rule='one evaluation is one sequence of calls on shared arguments and '
        'results (some ended at a drawn line or simulated step), after each '
        'of which all arguments, earlier results and process settings are '
        'compared with their recorded contents; non-trivial: some call '
        'returned a value',
        state_measure='distinct (workload, calls, outcomes)'),
}
