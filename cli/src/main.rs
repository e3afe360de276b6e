//! Deterministic simulation of the command line tool.
//!
//!     clisim search --prop K01 --seed 1 --secs 45 --workers 8 --out DIR --tool EXE --shim SO --scratch DIR
//!     clisim replay FILE --tool EXE --shim SO --scratch DIR

mod judge;
mod model;
mod run;
mod scenario;
mod shared;
#[path = "../../core/src/spec.rs"]
#[allow(dead_code)]
mod spec;

use judge::*;
use model::Models;
use run::*;
use scenario::Scenario;
use shared::*;
use std::collections::HashSet;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

const COUNTERS: [&str; 22] = [
    "runs", "operations", "short_transfers", "interrupted_calls", "errors", "persistent_errors", "kills", "kills_in_a_write",
    "disk_full", "exit_success", "exit_failure", "ended_by_signal", "bytes_read", "bytes_written", "entropy_requests", "clock_reads",
    "models_computed", "fault_free_runs", "existing_outputs", "runs_repeated", "runs_repeated_identically", "harness",
];

#[repr(C)]
struct Board {
    c: [AtomicU64; 32],
    stop: AtomicU64,
    found: AtomicU64,
    len: AtomicU64,
    text: [u8; 1 << 16],
}

impl Board {
    fn add(&self, name: &str, n: u64) {
        self.c[COUNTERS.iter().position(|c| *c == name).unwrap()].fetch_add(n, SeqCst);
    }
}

#[derive(Default)]
struct Args {
    prop: String,
    seed: u64,
    secs: f64,
    runs: u64,
    workers: u64,
    out: String,
    file: String,
}

struct Sim {
    world: World,
    bases: Bases,
    models: Models,
}

impl Sim {
    fn new(id: u64) -> Sim {
        Sim { world: World::new(id), bases: Bases::default(), models: Models::default() }
    }
    fn judge(&mut self, s: &Scenario) -> (Obs, Option<Verdict>) {
        let e = self.models.get(s);
        let b = (s.prop == "K02").then(|| self.bases.get(s, &self.world));
        let o = self.world.run(s);
        let v = judge(s, &e, &o, b.as_ref());
        (o, v)
    }
}

fn scenario(a: &Args, i: u64, sim: &mut Sim) -> Scenario {
    let base = spec::mix(a.seed, spec::hash_str(&a.prop).0);
    generate(&a.prop, spec::mix(base ^ 0xc0de, i / 64 * 8 + i % 8), spec::mix(base, i), &sim.world, &mut sim.bases)
}

fn key(s: &Scenario, o: &Obs) -> Option<u64> {
    let h = spec::mix(o.signature(), spec::hash_str(&s.text()).0);
    let fired: u32 = o.fired.iter().sum();
    match s.prop.as_str() {
        "K01" => (o.fired[F_ERR as usize] + o.fired[F_ERR_ON as usize] + o.fired[8] > 0).then_some(h),
        "K02" => (fired > 0 || !s.pre.is_empty() || s.cwd != 0).then_some(h),
        _ => (o.killed || o.exit() != Some(0)).then_some(h),
    }
}

fn count(b: &Board, s: &Scenario, o: &Obs) {
    b.add("runs", 1);
    b.add("operations", o.ops.len() as u64);
    for (n, k) in [("short_transfers", 1), ("interrupted_calls", 2), ("errors", 3), ("persistent_errors", 4), ("kills", 5), ("kills_in_a_write", 6), ("disk_full", 8)] {
        b.add(n, o.fired[k] as u64);
    }
    match o.exit() {
        Some(0) => b.add("exit_success", 1),
        Some(_) => b.add("exit_failure", 1),
        None => b.add("ended_by_signal", 1),
    }
    b.add("bytes_read", o.bytes.0);
    b.add("bytes_written", o.bytes.1);
    b.add("entropy_requests", o.entropy as u64);
    b.add("clock_reads", o.clock as u64);
    b.add("existing_outputs", s.pre.len() as u64);
}

fn search(a: &Args) -> i32 {
    let start = Instant::now();
    let board: *mut Board = map(-1);
    let b = unsafe { &*board };
    std::fs::create_dir_all(&a.out).unwrap();
    let deadline = Duration::from_secs_f64(a.secs);
    let mut pids = vec![];
    for w in 0..a.workers {
        let pid = unsafe { libc::fork() };
        if pid < 0 {
            eprintln!("clisim: fork failed");
            return 3;
        }
        if pid == 0 {
            unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
            {
                let mut sim = Sim::new(w);
                let (mut keys, mut sigs) = (HashSet::new(), HashSet::new());
                let mut i = w;
                while i < a.runs && start.elapsed() < deadline && b.stop.load(SeqCst) == 0 {
                    let s = scenario(a, i, &mut sim);
                    let t0 = Instant::now();
                    let (o, v) = sim.judge(&s);
                    if std::env::var_os("CLISIM_WHY").is_some() {
                        eprintln!("why: {} {} {}", s.cmd, s.mode, match sim.models.get(&s) { model::Expect::Fail(w) => w, model::Expect::Unknown(w) => w, _ => "can succeed".into() });
                    }
                    if t0.elapsed().as_secs() > 4 && std::env::var_os("CLISIM_SLOW").is_some() {
                        eprintln!("slow: {:?} {}", t0.elapsed(), s.text());
                    }
                    count(b, &s, &o);
                    keys.extend(key(&s, &o));
                    sigs.insert(o.signature());
                    if v.is_none() && (i / a.workers) % 50 == 7 {
                        let (p, _) = sim.judge(&s);
                        b.add("runs_repeated", 1);
                        b.add("runs_repeated_identically", (p.signature() == o.signature() && p.after == o.after && p.out == o.out) as u64);
                    }
                    if let Some(v) = v {
                        if b.found.compare_exchange(0, 1, SeqCst, SeqCst).is_ok() {
                            let t = format!("{i}\n{}\n{}\n{}", v.class, v.msg.replace('\n', " "), s.text());
                            unsafe {
                                let bm = &mut *board;
                                let n = t.len().min(bm.text.len());
                                bm.text[..n].copy_from_slice(&t.as_bytes()[..n]);
                                bm.len.store(n as u64, SeqCst);
                            }
                            b.stop.store(1, SeqCst);
                        }
                    }
                    i += a.workers;
                }
                b.add("models_computed", sim.models.computed);
                b.add("fault_free_runs", sim.bases.computed);
                for (name, set) in [("keys", &keys), ("sigs", &sigs)] {
                    let mut v: Vec<u8> = vec![];
                    for k in set.iter() {
                        v.extend_from_slice(&u64::to_le_bytes(*k));
                    }
                    let _ = std::fs::write(format!("{}/w{w}.{name}", a.out), v);
                }
            }
            unsafe { libc::_exit(0) };
        }
        pids.push(pid);
    }
    let mut ok = true;
    for p in pids {
        let mut st = 0;
        unsafe { while libc::waitpid(p, &mut st, 0) < 0 {} }
        ok &= st == 0;
    }
    if !ok {
        eprintln!("clisim: a worker failed");
        return 3;
    }
    let union = |name: &str| {
        let mut s: HashSet<[u8; 8]> = HashSet::new();
        for w in 0..a.workers {
            let f = format!("{}/w{w}.{name}", a.out);
            for c in std::fs::read(&f).unwrap_or_default().chunks_exact(8) {
                s.insert(c.try_into().unwrap());
            }
            let _ = std::fs::remove_file(&f);
        }
        s.len()
    };
    let wall = start.elapsed().as_secs_f64();
    let mut j = String::from("{");
    for (i, c) in COUNTERS.iter().enumerate() {
        j += &format!("\"{c}\": {}, ", b.c[i].load(SeqCst));
    }
    j += &format!("\"distinct\": {}, \"histories\": {}, \"wall_s\": {wall:.2}, \"workers\": {}, \"samples\": [", union("keys"), union("sigs"), a.workers);
    let mut sim = Sim::new(1000);
    for i in 0..5 {
        let s = scenario(a, i, &mut sim);
        j += &format!("{}\"seed {}/{i}: {}\"", if i > 0 { ", " } else { "" }, a.seed, s.text().replace('\n', "; ").replace('"', "'"));
    }
    j += "]";
    let mut code = 0;
    if b.found.load(SeqCst) != 0 {
        let n = b.len.load(SeqCst) as usize;
        let t = String::from_utf8_lossy(&b.text[..n]).into_owned();
        let mut l = t.splitn(4, '\n');
        let idx = l.next().unwrap().to_string();
        let class = l.next().unwrap().to_string();
        let msg = l.next().unwrap().to_string();
        let s = Scenario::parse(l.next().unwrap());
        eprintln!("found by scenario {idx}: {msg}");
        let small = minimize(&s, &class, &mut sim);
        let file = format!("{}/{}.replay", a.out, a.prop);
        code = 3;
        for c in [&small, &s] {
            let m = match sim.judge(c).1 {
                Some(v) if v.class == class => v.msg.replace('\n', " "),
                _ => continue,
            };
            // exactly the same once more, in a new process
            let _ = std::fs::write(&file, format!("# {m}\n# seed {} scenario {idx}\n# class {class}\n{}", a.seed, c.text()));
            println!("VIOLATION {file} {m}");
            code = 1;
            break;
        }
        if code == 3 {
            eprintln!("clisim: the violation does not reproduce");
        }
    }
    j += "}\n";
    let _ = std::fs::write(format!("{}/stats.json", a.out), j);
    code
}

fn minimize(s: &Scenario, class: &str, sim: &mut Sim) -> Scenario {
    let start = Instant::now();
    let mut best = s.clone();
    let mut ok = |c: &Scenario| start.elapsed() < Duration::from_secs(40) && matches!(sim.judge(c).1, Some(v) if v.class == class);
    // the irregularities that happened, one by one
    if best.irr != 0 || best.chunk != 0 {
        let mut c = Scenario { irr: 0, p_short: 0, p_eintr: 0, chunk: 0, ..best.clone() };
        if ok(&c) {
            best = c;
        } else {
            let w = World::new(1001);
            let o = w.run(&best);
            c.faults = best.faults.clone();
            for (k, op) in o.ops.iter().enumerate() {
                match op.inj as u32 {
                    F_SHORT if op.ret > 0 => c.faults.push((k as u32, F_SHORT, op.ret)),
                    F_EINTR => c.faults.push((k as u32, F_EINTR, 0)),
                    _ => {}
                }
            }
            c.faults.truncate(MAXFAULT);
            if ok(&c) {
                best = c;
            }
        }
    }
    let mut size = best.faults.len();
    while size >= 1 {
        let mut i = 0;
        while i < best.faults.len() {
            let mut c = best.clone();
            c.faults.drain(i..(i + size).min(best.faults.len()));
            if ok(&c) {
                best = c;
            } else {
                i += size;
            }
        }
        size /= 2;
    }
    let edits: Vec<Box<dyn Fn(&mut Scenario)>> = vec![
        Box::new(|c| c.cap = -1),
        Box::new(|c| c.pre.clear()),
        Box::new(|c| c.channels = false),
        Box::new(|c| c.cwd = 0),
        Box::new(|c| c.hash = 0),
        Box::new(|c| c.clock = 1_700_000_000_000_000_000),
        Box::new(|c| c.opts.clear()),
        Box::new(|c| c.img = "octa:3:3:1".into()),
        Box::new(|c| { c.enc = "png".into(); c.in_name = "a.png".into() }),
        Box::new(|c| c.px = "rgb".into()),
        Box::new(|c| c.mode = "ok".into()),
        Box::new(|c| c.dir.clear()),
        Box::new(|c| c.out_name = "r.png".into()),
        Box::new(|c| { c.dp = "000000,ff0000,00ff00,0000ff".into(); c.rp = c.dp.clone() }),
        Box::new(|c| c.rp = c.dp.clone()),
        Box::new(|c| { c.p_eintr = 0 }),
        Box::new(|c| { c.p_short = 0 }),
        Box::new(|c| { c.chunk = 0 }),
    ];
    for e in &edits {
        let mut c = best.clone();
        e(&mut c);
        if c != best && ok(&c) {
            best = c;
        }
    }
    for i in (0..best.pre.len()).rev() {
        let mut c = best.clone();
        c.pre.remove(i);
        if ok(&c) {
            best = c;
        }
    }
    best
}

fn replay(a: &Args) -> i32 {
    let s = match std::fs::read_to_string(&a.file) {
        Ok(t) => Scenario::parse(&t),
        Err(e) => {
            eprintln!("clisim: {}: {e}", a.file);
            return 3;
        }
    };
    let mut sim = Sim::new(2000);
    let (o, v) = sim.judge(&s);
    println!("{}; expected: {}", o.ended(), match sim.models.get(&s) {
        model::Expect::Images(i) => format!("{} images", i.len()),
        e => format!("{e:?}"),
    });
    for (k, p) in o.ops.iter().enumerate() {
        let name = if p.path >= 0 { o.paths[p.path as usize].as_str() } else { "" };
        println!("{k:4} {:10} {name} {} -> {}{}", OPS[p.ty as usize], p.req, p.ret, if p.inj != 0 { "  (injected)" } else { "" });
    }
    println!("stdout: {}", String::from_utf8_lossy(&o.out));
    println!("stderr: {}", String::from_utf8_lossy(&o.err));
    match v {
        Some(v) => {
            println!("class {}\nviolation: {}", v.class, v.msg);
            1
        }
        None => {
            println!("holds");
            0
        }
    }
}

fn main() {
    let mut a = Args { seed: 1, secs: 30.0, runs: u64::MAX, workers: 8, ..Default::default() };
    let v: Vec<String> = std::env::args().collect();
    let (mut exe, mut shim, mut scratch) = (String::new(), String::new(), String::new());
    let mut i = 2;
    while i < v.len() {
        let n = v.get(i + 1).cloned().unwrap_or_default();
        match v[i].as_str() {
            "--prop" => a.prop = n,
            "--seed" => a.seed = n.parse().unwrap(),
            "--secs" => a.secs = n.parse().unwrap(),
            "--runs" => a.runs = n.parse().unwrap(),
            "--workers" => a.workers = n.parse::<u64>().unwrap().max(1),
            "--out" => a.out = n,
            "--tool" => exe = n,
            "--shim" => shim = n,
            "--scratch" => scratch = n,
            f => {
                a.file = f.into();
                i += 1;
                continue;
            }
        }
        i += 2;
    }
    let _ = TOOL.set(Tool { exe, shim, scratch });
    std::panic::set_hook(Box::new(|i| eprintln!("{i}")));
    let code = match v.get(1).map(|s| s.as_str()) {
        Some("search") => search(&a),
        Some("replay") => replay(&a),
        _ => {
            eprintln!("usage: clisim search|replay ...");
            2
        }
    };
    std::process::exit(code);
}
