"""What all checks share: building from /repo's working tree, evidence, verdicts."""
import contextlib, fcntl, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
BUILD = os.path.join(VERIF, '.build')
EVIDENCE = os.path.join(VERIF, 'evidence')
REPLAYS = os.path.join(VERIF, 'replays')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
CORES = max(1, os.cpu_count() or 1)


class Failure(Exception):
    """An error of the check itself: neither 0 nor 1."""


def env():
    e = dict(os.environ)
    e['PATH'] = '/root/.cargo/bin:' + e.get('PATH', '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin')
    e.setdefault('HOME', '/root')
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_TERM_COLOR'] = 'never'
    e['RUSTC_WRAPPER'] = ''
    e['RUSTUP_TOOLCHAIN'] = 'stable-x86_64-unknown-linux-gnu'
    for k in ('RUSTFLAGS', 'CARGO_BUILD_TARGET', 'CFLAGS', 'CC'):
        e.pop(k, None)
    return e


def sources(dirs, suffixes):
    out = []
    for d in dirs:
        for root, subs, files in os.walk(d):
            subs[:] = sorted(s for s in subs if s not in ('target', '.git', '.build', 'node_modules'))
            out += [os.path.join(root, f) for f in sorted(files) if f.endswith(suffixes)]
    return out


def content_hash(files, extra=''):
    h = hashlib.sha256(extra.encode())
    for f in files:
        h.update(f.encode() + b'\0')
        with open(f, 'rb') as s:
            h.update(hashlib.sha256(s.read()).digest())
    return h.hexdigest()


@contextlib.contextmanager
def lock(name):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, name + '.lock'), 'w') as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        yield


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)
    if p.returncode != 0:
        sys.stderr.write(p.stdout[-6000:])
        raise Failure('failed: %s' % ' '.join(cmd))
    return p.stdout


def stamped(name, digest, build):
    """Calls build(fresh) unless it was last called for the same contents."""
    stamp = os.path.join(BUILD, name + '.stamp')
    with lock(name):
        try:
            old = open(stamp).read()
        except OSError:
            old = None
        if old == digest:
            return
        if old is not None:
            os.remove(stamp)
        build()
        with open(stamp, 'w') as f:
            f.write(digest)


def replay_path(prop, suffix):
    os.makedirs(REPLAYS, exist_ok=True)
    return os.path.join(REPLAYS, '%s-%s-%d.%s' % (prop, TIER, SEED, suffix))


def evidence(prop, coverage, wall, violations, level='exploration', assumptions=None):
    os.makedirs(EVIDENCE, exist_ok=True)
    d = {'property': prop, 'tier': TIER, 'seed': SEED, 'level': level, 'coverage': coverage,
         'assumptions': assumptions or [], 'wall_s': round(wall, 2), 'violations': violations}
    p = os.path.join(EVIDENCE, prop + '.json')
    with open(p + '.tmp', 'w') as f:
        json.dump(d, f, indent=1)
        f.write('\n')
    os.replace(p + '.tmp', p)


def findings(prop):
    """Known findings of a property that are not repaired: (pattern, what fails)."""
    out = []
    for l in open(os.path.join(VERIF, 'known-findings.txt')):
        m = re.match(r'finding: property=(\S+) match=/(.*?)/ (.*)', l)
        if m and m.group(1) == prop:
            out.append((m.group(2), m.group(3).strip()))
    return out
