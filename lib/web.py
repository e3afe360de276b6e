"""W01-W05: the web page and its worker under an event-loop simulator."""
import json, os, shutil, subprocess, sys, time
import common as c

MAIN = os.path.join(c.VERIF, 'web', 'main.mjs')
NODE = ['node', '--experimental-vm-modules', '--no-warnings', MAIN]

PAGE = ('A scenario is a list of user actions (picks, clicks, edits, typed text), scheduling weights, faults by kind and ordinal, and the '
        'tape of scheduling decisions; it ends with actions after the faults stopped. ')
WORKER = 'In 45 % of the scenarios the worker alone is driven by a list of concurrent requests. '
TAIL = 'Non-trivial: a fault or more than one action. Distinct: the hash of the sequence of (event source, event) of the run.'
RULES = {'W01': PAGE + TAIL, 'W02': PAGE + WORKER + TAIL, 'W03': PAGE + TAIL, 'W04': PAGE + WORKER + TAIL, 'W05': PAGE + TAIL}
REAL = ['index.js', 'webworker.js', 'index.html (parsed)', 'JavaScript engine']
STUB = ['event loop (seeded choice between event sources)', 'DOM, Image, canvas, ImageData, Blob, object URLs, fetch, timers', 'async-thread-worker '
        '(messages cloned and transferred, first in first out per direction)', 'browser_wasi_shim', 'the compiled WebAssembly module '
        '(strict stand-in: judged memory, handles, results that are pure functions of the arguments)', 'Math.random, Date, performance']
FAULTS = ('module_traps', 'module_reported_failures', 'memory_growths', 'blob_failures', 'canvas_failures', 'image_load_failures',
          'undecodable_files', 'fetch_failures', 'wasm_load_failures')
COUNTS = ('runs_of_the_page', 'runs_of_the_worker_alone', 'user_actions', 'actions_on_disabled_controls', 'operations', 'quiescent_states',
          'strictly_judged_states', 'requests', 'requests_granted', 'error_replies', 'object_urls', 'module_calls',
          'memory_accesses_judged', 'runs_repeated', 'runs_repeated_identically')


def env():
    e = c.env()
    e.pop('NODE_OPTIONS', None)
    e.pop('SIM_WEB_DIR', None)
    return e


def build():
    """Nothing is compiled: the real sources are read from /repo in every run."""
    c.run(['node', '--check', MAIN], env=env())


def check(prop):
    start = time.time()
    build()
    secs = float(os.environ.get('VERIF_SECS', {'quick': 60, 'thorough': 3600}[c.TIER]))
    out = os.path.join(c.BUILD, 'run-%s-%d' % (prop, os.getpid()))
    os.makedirs(out, exist_ok=True)
    p = subprocess.run(NODE + ['search', '--prop', prop, '--seed', str(c.SEED), '--secs', str(secs), '--workers', str(c.CORES), '--out', out],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', env=env())
    if p.returncode not in (0, 1):
        sys.stderr.write(p.stdout[-2000:] + p.stderr[-4000:])
        raise c.Failure('the simulator ended with %d' % p.returncode)
    st = json.load(open(os.path.join(out, 'stats.json')))
    msg, path = None, None
    if p.returncode == 1:
        path = c.replay_path(prop, 'web')
        shutil.copy(os.path.join(out, prop + '.replay'), path)
        msg = [l for l in p.stdout.splitlines() if l.startswith('VIOLATION ')][0].split(' ', 2)[2]
    shutil.rmtree(out, ignore_errors=True)
    wall = st['wall_s']
    runs = st.get('runs', 0)
    cov = {
        'evaluations': runs, 'distinct_nontrivial': st['distinct'], 'rule': RULES[prop], 'samples': st['samples'],
        'simulated_runs': runs, 'runs_per_hour': round(runs / max(wall, .1) * 3600), 'seeds_per_hour': round(runs / max(wall, .1) * 3600),
        'simulated_time': '%d events of the two event loops (the unit of simulated time; clocks advance with every event)' % st.get('events', 0),
        'fault_kinds_fired': {k: st.get(k, 0) for k in FAULTS},
        'distinct_interleavings': st['interleavings'],
        'measure': 'hash of the sequence of (event source, event) of a run',
        'workers': st['workers'], 'components_real': REAL, 'components_stubbed': STUB,
    }
    cov.update({k: st.get(k, 0) for k in COUNTS})
    return cov, time.time() - start, msg, path


def replay(path):
    return subprocess.run(NODE + ['replay', path], env=env()).returncode
