"""Writes MANIFEST.json from properties.jsonl and the table of checks below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIM = 'Assumes that the code under test reaches nondeterminism only through the simulated seams. Sampling, not enumeration: a clean batch is evidence, not proof.'
CORE = 'deterministic simulation of real threads (one baton, seeded preemption at every basic-block edge) with simulated heap, entropy and clock'
WEB = 'deterministic simulation of the real page and worker sources on two simulated event loops with seeded scheduling and fault injection'
WEBSIM = 'Assumes the simulated browser services and a stand-in for the compiled module. Sampling, not enumeration: a clean batch is evidence, not proof.'
CLI = 'deterministic simulation of the real tool with every I/O operation, the entropy and the clock behind a seam, seeded fault injection'
CHECKS = {
    'L01': (CORE + '; oracle: the same call alone in a fresh process', 'Seeded search over interleavings of 2-4 threads inside the real Rust and C code. ' + SIM),
    'L02': (CORE + '; environments and histories varied, oracle: the same call alone in a fresh process', 'Seeded search over heap placements, contents, hash seeds, clocks and histories. ' + SIM),
    'L03': (CORE + '; conservation of heap blocks over repeated histories, red zones and double frees checked', 'Seeded search over histories with failing image sources and rejected inputs. ' + SIM),
    'L04': (CORE + '; allocation failures injected; oracle: result, orderly failure, no invalid access, no growth', 'Seeded search over failing allocations (single, bursts, from some point on). ' + SIM),
    'L05': (CORE + '; failures injected into image sources and geometry input, oracle: the same call alone', 'Seeded search over failing calls in multi-threaded histories. ' + SIM),
    'L06': (CORE + '; histories of C calls with guarded buffers, oracle: the Rust library alone', 'Seeded search over interleaved histories of C calls. ' + SIM),
    'L07': ('deterministic simulation of several clients on one stateful searcher; oracle: independent geometric solution per query', 'Seeded search over interleavings of queries and settings. ' + SIM),
    'L08': (CORE + '; callers stalled for ever at seeded steps; progress bounded in own steps', 'Seeded search over stalls and schedules. ' + SIM),
    'K01': (CLI + '; oracle: the images and palettes that the library computes', 'Seeded search over errors at every I/O operation, lasting errors and full disks. ' + SIM),
    'K02': (CLI + '; oracle: the fault-free run of the same command', 'Seeded search over short and interrupted transfers, existing outputs, seeds, clocks and directories. ' + SIM),
    'K03': (CLI + '; killed at seeded operations; the disk is compared with its state before', 'Seeded search over kills and errors. ' + SIM),
    'W01': (WEB + '; every handle that reaches the module is judged', 'Seeded search over user actions, event interleavings, traps and other failures. ' + WEBSIM),
    'W02': (WEB + '; every access to the linear memory and every buffer is judged', 'Seeded search over request histories with traps, reported failures and memory growth. ' + WEBSIM),
    'W03': (WEB + '; at every quiescent state the page is compared with the results of the module that were asked for', 'Seeded search over user actions and interleavings. ' + WEBSIM),
    'W04': (WEB + '; progress: all replies there and controls usable whenever nothing is left to do, later actions succeed', 'Seeded search over failures of every service of the browser and the module. ' + WEBSIM),
    'W05': (WEB + '; object URLs judged after every event and at every quiescent state', 'Seeded search over histories with failures. ' + WEBSIM),
}
NA = {
    'P01': 'Pure function of the image and palette: no schedule, fault, clock or history for a simulator to vary.',
    'P02': 'Pure function of the image and settings; nothing for a simulator to vary (its determinism is L02, its termination L08).',
    'P03': 'Pure predicate on one palette; nothing for a simulator to vary.',
    'P04': 'Pure geometry of one point set; nothing for a simulator to vary (concurrency and memory are L01-L04).',
    'P05': 'Pure geometry of one point set; nothing for a simulator to vary (query histories are L07).',
    'P06': 'Pure numeric function of four points; nothing for a simulator to vary.',
    'P07': 'Pure function of the image; nothing for a simulator to vary (containment of the failure is L05).',
    'P08': 'A static relation of two texts; nothing executes.',
    'P09': 'Pure function of one string; nothing for a simulator to vary.',
}
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CHECKS:
        t, n = CHECKS[i]
        checks.append({'property': i, 'quick_cmd': 'bin/check %s quick' % i, 'thorough_cmd': 'bin/check %s thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': t, 'level': 'exploration', 'level_note': n})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'The check is being built.')})
m = {'version': 1, 'setup_cmd': 'bin/setup', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: every seam is outside of it (compiler instrumentation, symbol interposition, stub modules). '
              'Every violation comes with a replay file; `bin/replay FILE` runs it again.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
