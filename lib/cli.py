"""K01-K03: the command line tool on a simulated disk."""
import json, os, shutil, subprocess, sys, tempfile, time
import common as c

TOOL_DIR = os.path.join(c.BUILD, 'cli-tool')
TOOL = os.path.join(TOOL_DIR, 'release', 'image-palette-recoloring-cli')
SHIM = os.path.join(c.BUILD, 'simfs.so')
BIN = os.path.join(c.BUILD, 'cli', 'release', 'clisim')
LOCAL = ['qhull-sys', 'qhull-rs', 'image-palette-recoloring']

RULES = {
    'K01': 'A scenario is a command with its input and a sequence of faults (single, several and lasting errors, partial writes followed '
           'by errors, a disk that fills up). Non-trivial: an error really happened. Distinct: the pair of scenario and sequence of '
           'operations with their outcomes.',
    'K02': 'A scenario is a command and a sequence of short transfers and interruptions, existing outputs, a hash seed, a clock and a '
           'working directory. Non-trivial: one of these differs from the fault-free run. Distinct: as K01.',
    'K03': 'A scenario is a command and a kill before, in the middle of or after a chosen operation, or errors. Non-trivial: the run was '
           'killed or did not succeed. Distinct: as K01.',
}
REAL = ['image-palette-recoloring-cli', 'image-palette-recoloring', 'qhull-rs', 'qhull (C)', 'image codecs', 'clap',
        'Rust standard library', 'file system semantics of the kernel (scratch directory)']
STUB = ['open/read/write/seek/stat/close/rename/unlink/truncate and the like (symbols interposed: injected results, capacity, kills)',
        'standard output and error (recorded)', 'getrandom', 'clock_gettime', 'writes outside of the scratch directory (refused, recorded)']


def build():
    cli = os.path.join(c.VERIF, 'cli')
    spec = os.path.join(c.VERIF, 'core', 'src', 'spec.rs')
    files = c.sources([c.REPO], ('.rs', '.c', '.h', '.toml', 'Cargo.lock')) + c.sources([cli], ('.rs', '.c', '.h', '.toml', '.lock')) + [spec]

    def go():
        e = c.env()
        os.makedirs(os.path.join(TOOL_DIR, 'lock'), exist_ok=True)
        c.run(['clang', '-O2', '-shared', '-fPIC', os.path.join(cli, 'rt', 'simfs.c'), '-o', SHIM, '-ldl'], env=e)
        lock = os.path.join(TOOL_DIR, 'lock', 'Cargo.lock')
        shutil.copy(os.path.join(c.REPO, 'Cargo.lock'), lock)
        t = dict(e, CARGO_RESOLVER_LOCKFILE_PATH=lock, CARGO_PROFILE_RELEASE_LTO='off', CARGO_PROFILE_RELEASE_OPT_LEVEL='2')
        args = ['--release', '--offline', '--target-dir', TOOL_DIR]
        for cwd, env, dst, more, exe in ((c.REPO, t, TOOL_DIR, ['image-palette-recoloring-cli'], TOOL),
                                         (cli, e, os.path.join(c.BUILD, 'cli'), ['clisim'], BIN)):
            a = ['--release', '--offline', '--target-dir', dst]
            if os.path.exists(exe):
                cmd = ['cargo', 'clean'] + a
                for p in LOCAL + more:
                    cmd += ['-p', p]
                subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                if os.path.exists(exe):
                    os.remove(exe)
            c.run(['cargo', 'build'] + a + (['-p', 'image-palette-recoloring-cli'] if cwd == c.REPO else []), cwd=cwd, env=env)

    c.stamped('cli', c.content_hash(files), go)


class scratch:
    """A directory for the simulated disks, in memory when there is room."""

    def __enter__(self):
        base = c.BUILD
        try:
            s = os.statvfs('/dev/shm')
            if os.access('/dev/shm', os.W_OK) and s.f_bavail * s.f_frsize > 256 << 20:
                base = '/dev/shm'
        except OSError:
            pass
        self.d = tempfile.mkdtemp(prefix='clisim-', dir=base)
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def check(prop):
    start = time.time()
    build()
    built = time.time() - start
    secs = float(os.environ.get('VERIF_SECS', {'quick': 60, 'thorough': 3600}[c.TIER]))
    out = os.path.join(c.BUILD, 'run-%s-%d' % (prop, os.getpid()))
    os.makedirs(out, exist_ok=True)
    with scratch() as d:
        p = subprocess.run([BIN, 'search', '--prop', prop, '--seed', str(c.SEED), '--secs', str(secs), '--workers', str(c.CORES),
                            '--out', out, '--tool', TOOL, '--shim', SHIM, '--scratch', d],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace')
    if p.returncode not in (0, 1):
        sys.stderr.write(p.stdout[-2000:] + p.stderr[-4000:])
        raise c.Failure('clisim ended with %d' % p.returncode)
    st = json.load(open(os.path.join(out, 'stats.json')))
    msg, path = None, None
    if p.returncode == 1:
        path = c.replay_path(prop, 'cli')
        shutil.copy(os.path.join(out, prop + '.replay'), path)
        msg = [l for l in p.stdout.splitlines() if l.startswith('VIOLATION ')][0].split(' ', 2)[2]
    shutil.rmtree(out, ignore_errors=True)
    wall = st['wall_s']
    faults = {k: st[k] for k in ('short_transfers', 'interrupted_calls', 'errors', 'persistent_errors', 'kills', 'kills_in_a_write',
                                 'disk_full', 'existing_outputs')}
    cov = {
        'evaluations': st['runs'], 'distinct_nontrivial': st['distinct'], 'rule': RULES[prop], 'samples': st['samples'],
        'simulated_runs': st['runs'], 'runs_per_hour': round(st['runs'] / max(wall, .1) * 3600),
        'seeds_per_hour': round(st['runs'] / max(wall, .1) * 3600),
        'simulated_time': '%d I/O operations (the unit of simulated time; the clock advances with every read of it)' % st['operations'],
        'fault_kinds_fired': faults,
        'distinct_histories': st['histories'],
        'measure': 'histories: hash of the sequence of operations with path, injected outcome, error and result, and the exit status',
        'exit_success': st['exit_success'], 'exit_failure': st['exit_failure'], 'ended_by_signal': st['ended_by_signal'],
        'bytes_read': st['bytes_read'], 'bytes_written': st['bytes_written'],
        'entropy_requests': st['entropy_requests'], 'clock_reads': st['clock_reads'],
        'models_computed': st['models_computed'], 'fault_free_runs': st['fault_free_runs'],
        'runs_repeated': st['runs_repeated'], 'runs_repeated_identically': st['runs_repeated_identically'],
        'workers': st['workers'], 'build_s': round(built, 1),
        'components_real': REAL, 'components_stubbed': STUB,
    }
    return cov, time.time() - start, msg, path


def replay(path):
    build()
    with scratch() as d:
        return subprocess.run([BIN, 'replay', path, '--tool', TOOL, '--shim', SHIM, '--scratch', d]).returncode
