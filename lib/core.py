"""L01-L08: the library, the geometry layer and the C interface under the thread simulator."""
import json, os, shutil, subprocess, sys, time
import common as c

TARGET = 'x86_64-unknown-linux-gnu'
BIN = os.path.join(c.BUILD, 'core', TARGET, 'release', 'coresim')
LOCAL = ['qhull-sys', 'qhull-rs', 'image-palette-recoloring', 'capi', 'coresim']

RULES = {
    'L01': 'A scenario is a seeded list of calls for 2-4 threads (private and shared objects), a heap and hash environment '
           'and a preemption plan at basic-block granularity. Non-trivial: at least one preemption happened. Distinct: the pair '
           'of call lists and of the sequence (thread, site, next thread) of all switches.',
    'L02': 'A scenario is a seeded history of calls by 1-3 threads under a random heap placement, fill, reuse policy, hash seed '
           'and clock; error bounds are partly bisected to adjacent numbers on a decision threshold. Non-trivial: more than one '
           'call. Distinct: the pair of history and environment.',
    'L03': 'A scenario is a history of calls (also rejected and failing ones) repeated 6 times in one process. Non-trivial: at least '
           '4 repetitions with allocations. Distinct: the pair of history and set of covered edges.',
    'L04': 'A scenario is a history with one call during which chosen allocations fail, repeated 4 times. Non-trivial: a failure '
           'really fired. Distinct: the pair of history and failure plan.',
    'L05': 'As L01, with 10-60 % of the calls failing (image source failing at a chosen access, degenerate input). Non-trivial: at '
           'least one preemption happened. Distinct: the pair of call lists and switch sequence.',
    'L06': 'A scenario is a seeded well-formed history of C calls by 1-3 threads with guarded buffers. Non-trivial: more than one '
           'call. Distinct: the pair of histories and switch sequence.',
    'L07': 'A scenario is a triangulation and an interleaving of the operations of 1-4 clients on one searcher. Non-trivial: more '
           'than 3 operations and a point was located. Distinct: the pair of operations and interleaving.',
    'L08': 'As L01, and in 3 of 4 scenarios one thread stops for ever at a chosen step of its own. Non-trivial: a preemption or '
           'stall happened. Distinct: the pair of call lists and switch sequence.',
}
REAL = ['image-palette-recoloring', 'qhull-rs', 'qhull-sys with qhull (C)', 'image-palette-recoloring-c', 'Rust standard library',
        'nalgebra, image, ordered-float and the other dependencies']
STUB = ['thread scheduler (one baton, seeded)', 'malloc and the Rust allocator for code under test', 'futex, pthread create/join, '
        'sched_yield, sleep', 'clock_gettime and friends (with rates and jumps)', 'number of processors', 'getrandom', 'image sources (can fail or be slow)']


def build():
    core = os.path.join(c.VERIF, 'core')
    files = c.sources([c.REPO], ('.rs', '.c', '.h', '.toml')) + c.sources([core], ('.rs', '.c', '.h', '.toml', '.lock'))

    def go():
        e = c.env()
        obj = os.path.join(c.BUILD, 'simrt.o')
        c.run(['clang', '-O2', '-fno-omit-frame-pointer', '-c', os.path.join(core, 'rt', 'simrt.c'), '-o', obj], env=e)
        e['CC'] = 'clang'
        e['CFLAGS'] = '-fsanitize-coverage=trace-pc-guard -O2'
        e['RUSTFLAGS'] = ('-Cpasses=sancov-module -Cpasses=function(tsan) -Cllvm-args=-sanitizer-coverage-level=3 '
                          '-Cllvm-args=-tsan-instrument-memory-accesses=0 '
                          '-Cllvm-args=-tsan-instrument-func-entry-exit=0 '
                          '-Cllvm-args=-tsan-instrument-memintrinsics=0 '
                          '-Cllvm-args=-sanitizer-coverage-trace-pc-guard -Clink-arg=' + obj)
        args = ['--release', '--offline', '--target', TARGET, '--target-dir', os.path.join(c.BUILD, 'core')]
        if os.path.exists(BIN):
            cmd = ['cargo', 'clean'] + args
            for p in LOCAL:
                cmd += ['-p', p]
            subprocess.run(cmd, cwd=core, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            if os.path.exists(BIN):
                os.remove(BIN)
        c.run(['cargo', 'build'] + args, cwd=core, env=e)

    c.stamped('core', c.content_hash(files), go)


def check(prop):
    start = time.time()
    build()
    built = time.time() - start
    secs = {'quick': 60, 'thorough': 3600}[c.TIER]
    secs = float(os.environ.get('VERIF_SECS', secs))
    out = os.path.join(c.BUILD, 'run-%s-%d' % (prop, os.getpid()))
    os.makedirs(out, exist_ok=True)
    p = subprocess.run([BIN, 'search', '--prop', prop, '--seed', str(c.SEED), '--secs', str(secs), '--workers', str(c.CORES),
                        '--out', out], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace')
    if p.returncode not in (0, 1):
        sys.stderr.write(p.stdout[-2000:] + p.stderr[-4000:])
        raise c.Failure('coresim ended with %d' % p.returncode)
    st = json.load(open(os.path.join(out, 'stats.json')))
    msg, path = None, None
    if p.returncode == 1:
        path = c.replay_path(prop, 'core')
        shutil.copy(os.path.join(out, prop + '.replay'), path)
        msg = [l for l in p.stdout.splitlines() if l.startswith('VIOLATION ')][0].split(' ', 2)[2]
    shutil.rmtree(out, ignore_errors=True)
    wall = st['wall_s']
    faults = {k: st[k] for k in ('preemptions', 'forced_switches', 'image_source_failures', 'c_allocation_failures',
                                 'rust_allocation_failures', 'allocation_failures_chosen_by_place', 'stalls', 'ops_panicked', 'ops_error',
                                 'runs_ended_by_abort_after_fault', 'clock_jumps')}
    cov = {
        'evaluations': st['runs'], 'distinct_nontrivial': st['distinct'], 'rule': RULES[prop], 'samples': st['samples'],
        'simulated_runs': st['runs'], 'runs_per_hour': round(st['runs'] / max(wall, .1) * 3600),
        'seeds_per_hour': round(st['runs'] / max(wall, .1) * 3600),
        'simulated_time': '%d basic-block edges (the unit of simulated time; the clock advances 1 ns to 1 s per edge and jumps)' % st['steps'],
        'fault_kinds_fired': faults,
        'distinct_interleavings': st['interleavings'],
        'distinct_coverage_sets': st['coverage_sets'],
        'measure': 'interleavings: hash of (thread, basic-block edge, next thread) over all switches of a run; coverage sets: hash of '
                   'the set of edges a run covered',
        'calls_executed': st['ops_executed'], 'references_computed_in_isolation': st['references_computed'],
        'allocations': {'c': st['allocations_c'], 'rust': st['allocations_rust']},
        'entropy_requests': st['entropy_requests'], 'clock_reads': st['clock_reads'], 'futex_waits': st['futex_waits'],
        'yields': st['yields'], 'max_edges_in_a_run': st['max_edges_in_a_run'],
        'points_located': st['points_located'], 'points_not_located': st['points_not_located'],
        'runs_repeated': st['runs_repeated'], 'runs_repeated_identically': st['runs_repeated_identically'],
        'workers': st['workers'], 'build_s': round(built, 1),
        'components_real': REAL, 'components_stubbed': STUB,
    }
    return cov, time.time() - start, msg, path


def replay(path):
    build()
    return subprocess.run([BIN, 'replay', path]).returncode
