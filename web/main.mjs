// Deterministic simulation of the web page and its worker.
//
//     node --experimental-vm-modules main.mjs search --prop W01 --seed 1 --secs 60 --workers 8 --out DIR
//     node --experimental-vm-modules main.mjs replay FILE
import fs from 'node:fs';
import path from 'node:path';
import { spawn } from 'node:child_process';
import { fileURLToPath } from 'node:url';
import { Sim } from './sim.mjs';
import { generate } from './gen.mjs';

process.removeAllListeners('warning');
process.on('warning', () => {});
process.on('unhandledRejection', () => { unhandled++; });
let unhandled = 0;

async function run(s) { return new Sim(s).run(); }

const classOf = (m) => m.replace(/#[0-9a-fA-F]+/g, '#').replace(/\d+/g, 'N').replace(/\(.*\)/g, '').split(' instead of ')[0].replace(/(#,?)+/g, '#');

async function violationOf(s) {
    const o = await run(s);
    const v = o.found.find((f) => f.prop === s.prop);
    return v ? { ...v, cls: classOf(v.msg), o } : null;
}

async function worker(a) {
    const start = Date.now();
    const counts = {};
    const distinct = new Set(), states = new Set();
    let i = a.first, n = 0;
    const out = { counts, next: i };
    while (i < a.until && n < 1500 && (Date.now() - start) / 1000 < a.secs && !fs.existsSync(a.stop)) {
        const s = generate(a.prop, a.seed, i);
        const o = await run(s);
        n++;
        counts.runs = (counts.runs ?? 0) + 1;
        counts.events = (counts.events ?? 0) + o.now;
        counts[s.mode === 'page' ? 'runs_of_the_page' : 'runs_of_the_worker_alone'] = (counts[s.mode === 'page' ? 'runs_of_the_page' : 'runs_of_the_worker_alone'] ?? 0) + 1;
        for (const [k, v] of Object.entries(o.counts)) if (!k.startsWith('n:')) counts[k] = (counts[k] ?? 0) + v;
        states.add(o.signature);
        if (s.faults.length || s.acts.length > 1) distinct.add(o.signature);
        const v = o.found.find((f) => f.prop === a.prop);
        if (v) {
            out.violation = { i, cls: classOf(v.msg), msg: v.msg };
            fs.writeFileSync(a.stop, '');
            break;
        }
        if (n % 40 === 7) {
            const p = await run(s);
            counts.runs_repeated = (counts.runs_repeated ?? 0) + 1;
            const same = p.signature === o.signature && JSON.stringify(p.counts) === JSON.stringify(o.counts) && JSON.stringify(p.choices.used) === JSON.stringify(o.choices.used);
            counts.runs_repeated_identically = (counts.runs_repeated_identically ?? 0) + (same ? 1 : 0);
        }
        i += a.workers;
    }
    out.next = i;
    out.distinct = [...distinct];
    out.states = [...states];
    fs.writeFileSync(a.file, JSON.stringify(out));
}

const self = fileURLToPath(import.meta.url);

function child(a) {
    return new Promise((ok, no) => {
        const p = spawn(process.execPath, ['--experimental-vm-modules', '--no-warnings', self, 'worker', JSON.stringify(a)], { stdio: ['ignore', 'ignore', 'inherit'] });
        p.on('exit', (c) => (c === 0 ? ok(JSON.parse(fs.readFileSync(a.file, 'utf8'))) : no(new Error('a worker ended with ' + c))));
        p.on('error', no);
    });
}

async function search(a) {
    const start = Date.now();
    fs.mkdirSync(a.out, { recursive: true });
    const stop = path.join(a.out, 'stop');
    fs.rmSync(stop, { force: true });
    const counts = {}, distinct = new Set(), states = new Set(), violations = [];
    await Promise.all(Array.from({ length: a.workers }, async (_, w) => {
        let i = w;
        for (;;) {
            const left = a.secs - (Date.now() - start) / 1000;
            if (left <= 0 || i >= a.runs || fs.existsSync(stop)) break;
            const o = await child({ prop: a.prop, seed: a.seed, first: i, until: a.runs, workers: a.workers, secs: left, stop, file: path.join(a.out, `w${w}.json`) });
            fs.rmSync(path.join(a.out, `w${w}.json`), { force: true });
            for (const [k, v] of Object.entries(o.counts)) counts[k] = (counts[k] ?? 0) + v;
            o.distinct.forEach((d) => distinct.add(d));
            o.states.forEach((d) => states.add(d));
            if (o.violation) violations.push(o.violation);
            i = o.next;
        }
    }));
    let code = 0;
    if (violations.length) {
        violations.sort((x, y) => x.i - y.i);
        code = 3;
        for (const v of violations) {
            console.error(`found by scenario ${v.i}: ${v.msg}`);
            const s = generate(a.prop, a.seed, v.i);
            const small = await minimize(s, v.cls);
            if (!small) continue;
            const again = await violationOf(small);
            if (!again) continue;
            const file = path.join(a.out, a.prop + '.replay');
            fs.writeFileSync(file, JSON.stringify({ message: again.msg, found: `seed ${a.seed} scenario ${v.i}`, class: again.cls, scenario: small, events: (await run({ ...small, verbose: true })).trace }, null, 1) + '\n');
            console.log(`VIOLATION ${file} ${again.msg}`);
            code = 1;
            break;
        }
        if (code === 3) console.error('the violation does not reproduce');
    }
    const samples = [];
    for (let i = 0; i < 5; i++) {
        const s = generate(a.prop, a.seed, i);
        samples.push(`seed ${a.seed}/${i}: ${s.mode}; ${s.acts.map((x) => Object.values(x).join(' ')).join('; ').slice(0, 400)}; faults ${s.faults.map((f) => f.join(' ')).join(', ') || 'none'}`);
    }
    fs.writeFileSync(path.join(a.out, 'stats.json'), JSON.stringify({ ...counts, distinct: distinct.size, interleavings: states.size, samples, workers: a.workers, wall_s: (Date.now() - start) / 1000 }));
    return code;
}

async function minimize(s, cls) {
    const start = Date.now();
    const first = await violationOf(s);
    if (!first) return null;
    cls = first.cls;
    // fix the decisions that were taken
    let best = { ...s, tape: first.o.choices.used };
    const ok = async (c) => Date.now() - start < 40000 && (await violationOf(c))?.cls === cls;
    if (!(await ok(best))) return s;
    const t = async (c) => { if (await ok(c)) { best = c; return true; } return false; };
    await t({ ...best, grow: 0 });
    await t({ ...best, mem: 0 });
    await t({ ...best, recovery: [] });
    const shrinkList = async (key) => {
        let size = best[key].length;
        while (size >= 1) {
            for (let i = 0; i < best[key].length;) {
                const c = { ...best, [key]: [...best[key].slice(0, i), ...best[key].slice(i + size)] };
                if (!(await t(c))) i += size;
            }
            size = Math.floor(size / 2);
        }
    };
    for (let round = 0; round < 2; round++) {
        await t({ ...best, tape: [] });
        await shrinkList('faults');
        await shrinkList('acts');
        await shrinkList('recovery');
        for (let k = best.tape.length; k >= 1; k = Math.floor(k / 2)) {
            for (let i = 0; i < best.tape.length; i += k) {
                if (best.tape.slice(i, i + k).every((x) => x === 0)) continue;
                await t({ ...best, tape: best.tape.map((x, j) => (j >= i && j < i + k ? 0 : x)) });
            }
        }
        let n = best.tape.length;
        while (n > 0 && best.tape[n - 1] === 0) n--;
        best = { ...best, tape: best.tape.slice(0, n) };
    }
    return (await violationOf(best))?.cls === cls ? best : s;
}

async function replay(file) {
    const r = JSON.parse(fs.readFileSync(file, 'utf8'));
    const o = await run({ ...r.scenario, verbose: true });
    console.log(o.trace.join('\n'));
    if (o.notes.length) console.log('notes: ' + o.notes.join('; '));
    for (const f of o.found) console.log(`${f.prop} after event ${f.at}: ${f.msg}`);
    const v = o.found.find((f) => f.prop === r.scenario.prop);
    console.log(v ? 'violation: ' + v.msg : 'holds');
    return v ? 1 : 0;
}

const [cmd, ...rest] = process.argv.slice(2);
if (cmd === 'worker') {
    await worker(JSON.parse(rest[0]));
} else if (cmd === 'search') {
    const a = { prop: 'W01', seed: 1, secs: 30, workers: 8, out: '/tmp/web', runs: 1e9 };
    for (let i = 0; i < rest.length; i += 2) {
        const k = rest[i].slice(2);
        a[k] = ['prop', 'out'].includes(k) ? rest[i + 1] : Number(rest[i + 1]);
    }
    process.exitCode = await search(a);
} else if (cmd === 'replay') {
    process.exitCode = await replay(rest[0]);
} else if (cmd === 'show') {
    const s = generate(rest[0], Number(rest[1]), Number(rest[2]));
    console.log(JSON.stringify(s));
    const o = await run({ ...s, verbose: true });
    console.log(o.trace.join('\n'), o.notes, o.found, o.counts);
} else {
    console.error('usage: main.mjs search|replay ...');
    process.exitCode = 2;
}
