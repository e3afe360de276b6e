//! Deterministic simulation of the library, the geometry layer and the C interface.
//!
//!     coresim search --prop L01 --seed 1 --secs 45 --workers 8 --out DIR
//!     coresim replay FILE
//!     coresim trace --prop L01 --seed 1 --runs 100 --workers 8      (determinism check)

#[allow(unused_imports)]
use capi as _;

mod exec;
mod ffi;
mod l07;
mod minimize;
mod ops;
mod props;
mod spec;

use exec::*;
use ffi::*;
use spec::{hash_str, mix};
use std::collections::HashSet;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

#[global_allocator]
static A: SimAlloc = SimAlloc;

pub fn scenario_seed(seed: u64, prop: &str, i: u64) -> u64 {
    mix(mix(seed, hash_str(prop).0), i)
}

const COUNTERS: [&str; 27] = [
    "runs", "steps", "threads", "preemptions", "forced_switches", "ops_executed", "ops_panicked",
    "ops_error", "image_source_failures", "c_allocation_failures", "rust_allocation_failures",
    "stalls", "entropy_requests", "clock_reads", "futex_waits", "yields", "allocations_c",
    "allocations_rust", "runs_ended_by_abort_after_fault", "references_computed", "points_located",
    "points_not_located", "runs_repeated", "max_edges_in_a_run", "runs_repeated_identically", "clock_jumps", "allocation_failures_chosen_by_place",
];

#[repr(C)]
struct Board {
    c: [AtomicU64; 32],
    stop: AtomicU64,
    found: AtomicU64,
    len: AtomicU64,
    text: [u8; 1 << 16],
}

impl Board {
    fn add(&self, name: &str, n: u64) {
        let i = COUNTERS.iter().position(|c| *c == name).unwrap();
        self.c[i].fetch_add(n, SeqCst);
    }
    fn max(&self, name: &str, n: u64) {
        let i = COUNTERS.iter().position(|c| *c == name).unwrap();
        self.c[i].fetch_max(n, SeqCst);
    }
}

fn count(b: &Board, sc: &Scenario, end: End, sh: &Shared, out: &Out) {
    b.add("runs", 1);
    b.add("steps", sh.steps);
    b.add("threads", 1 + sh.n_threads);
    b.add("preemptions", (sh.n_switch - sh.n_forced.min(sh.n_switch)) as u64);
    b.add("forced_switches", sh.n_forced as u64);
    for (t, ops) in sc.threads.iter().enumerate() {
        for i in 0..ops.len() {
            let o = &out.ops[t][i];
            match o.kind {
                ops::K_NOTRUN | ops::K_SKIP => continue,
                ops::K_PANIC => {
                    b.add("ops_panicked", 1);
                    if o.txt().contains("the image source failed") {
                        b.add("image_source_failures", 1);
                    }
                }
                ops::K_ERR => b.add("ops_error", 1),
                _ => {}
            }
            b.add("ops_executed", 1);
        }
    }
    b.add("c_allocation_failures", sh.n_fault_fired[0]);
    b.add("rust_allocation_failures", sh.n_fault_fired[1]);
    b.add("allocation_failures_chosen_by_place", sh.n_fault_site);
    b.add("stalls", sh.stalled.count_ones() as u64);
    b.add("entropy_requests", sh.n_entropy);
    b.add("clock_reads", sh.n_clock);
    b.add("clock_jumps", sh.n_clock_jump);
    b.add("futex_waits", sh.n_futex_wait);
    b.add("yields", sh.n_yield);
    b.add("allocations_c", sh.n_alloc[0]);
    b.add("allocations_rust", sh.n_alloc[1]);
    b.max("max_edges_in_a_run", sh.cov_edges);
    if sc.prop == "L07" {
        b.add("points_located", out.probes[0]);
        b.add("points_not_located", out.probes[1]);
    }
    if matches!(end, End::Signal(_)) && sh.n_fault_fired[0] + sh.n_fault_fired[1] > 0 {
        b.add("runs_ended_by_abort_after_fault", 1);
    }
}

struct Args {
    prop: String,
    seed: u64,
    secs: f64,
    runs: u64,
    workers: u64,
    out: String,
    file: String,
}

fn args() -> (String, Args) {
    let mut a = Args {
        prop: "L01".into(), seed: 1, secs: 30.0, runs: u64::MAX, workers: 8, out: String::new(), file: String::new(),
    };
    let v: Vec<String> = std::env::args().collect();
    let cmd = v.get(1).cloned().unwrap_or_default();
    let mut i = 2;
    while i < v.len() {
        let n = v.get(i + 1).cloned().unwrap_or_default();
        match v[i].as_str() {
            "--prop" => a.prop = n,
            "--seed" => a.seed = n.parse().unwrap(),
            "--secs" => a.secs = n.parse().unwrap(),
            "--runs" => a.runs = n.parse().unwrap(),
            "--workers" => a.workers = n.parse::<u64>().unwrap().max(1),
            "--out" => a.out = n,
            f => {
                a.file = f.into();
                i += 1;
                continue;
            }
        }
        i += 2;
    }
    (cmd, a)
}

/// Addresses of code and stacks are the same in every process, where that can be arranged.
fn no_aslr() {
    unsafe {
        const ADDR_NO_RANDOMIZE: u64 = 0x0040000;
        if std::env::var_os("CORESIM_CHILD").is_some() {
            return;
        }
        let p = libc::personality(0xffffffff);
        if p < 0 || (p as u64 & ADDR_NO_RANDOMIZE) != 0 {
            return;
        }
        if libc::personality((p as u64 | ADDR_NO_RANDOMIZE) as _) < 0 {
            return;
        }
        use std::os::unix::process::CommandExt;
        let _ = std::process::Command::new("/proc/self/exe")
            .args(std::env::args().skip(1))
            .env("CORESIM_CHILD", "1")
            .exec();
    }
}

fn quiet() {
    unsafe {
        let n = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        libc::dup2(n, 1);
        libc::dup2(n, 2);
    }
}

/// Runs `f(w)` in its own process for every worker; true if all of them ended well.
fn fan_out(workers: u64, f: &dyn Fn(u64)) -> bool {
    let mut pids = vec![];
    for w in 0..workers {
        unsafe {
            let pid = libc::fork();
            if pid < 0 {
                eprintln!("coresim: fork failed");
                std::process::exit(3);
            }
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                quiet();
                f(w);
                libc::_exit(0);
            }
            pids.push(pid);
        }
    }
    let mut ok = true;
    for p in pids {
        let mut st = 0;
        unsafe { while libc::waitpid(p, &mut st, 0) < 0 {} }
        ok &= st == 0;
    }
    ok
}

fn search(a: &Args) -> i32 {
    let start = Instant::now();
    let board: *mut Board = map_shared(1);
    let b = unsafe { &*board };
    let table = Refs::table();
    std::fs::create_dir_all(&a.out).unwrap();
    let deadline = Duration::from_secs_f64(a.secs);
    let ok = fan_out(a.workers, &|w| {
        let sim = Sim::new();
        let mut refs = Refs::new(table);
        let mut keys: HashSet<u64> = HashSet::new();
        let mut sigs: HashSet<u64> = HashSet::new();
        let mut covs: HashSet<u64> = HashSet::new();
        let mut i = w;
        while i < a.runs && start.elapsed() < deadline && b.stop.load(SeqCst) == 0 {
            let sc = props::generate(&a.prop, scenario_seed(a.seed, &a.prop, i), &mut refs, &sim);
            if sc.threads.iter().any(|t| !t.is_empty()) {
                let (end, verdict) = props::run_and_judge(&sc, &mut refs, &sim);
                if sim.sh().steps > 0 {
                    count(b, &sc, end, sim.sh(), sim.out());
                    if let Some(k) = props::key(&sc, sim.sh(), sim.out()) {
                        keys.insert(k);
                    }
                    sigs.insert(sim.sh().inter_sig);
                    covs.insert(sim.sh().cov_hash);
                }
                if verdict.is_none() && (i / a.workers) % 50 == 7 {
                    let first = fingerprint(&sc, end, &sim);
                    let (end, _) = props::run_and_judge(&sc, &mut refs, &sim);
                    b.add("runs_repeated", 1);
                    b.add("runs_repeated_identically", (fingerprint(&sc, end, &sim) == first) as u64);
                }
                if let Some(v) = verdict {
                    if b.found.compare_exchange(0, 1, SeqCst, SeqCst).is_ok() {
                        let t = format!("{}\n{}\n{}\n{}", i, v.class, v.msg, sc.text());
                        unsafe {
                            let bm = &mut *board;
                            let n = t.len().min(bm.text.len());
                            bm.text[..n].copy_from_slice(&t.as_bytes()[..n]);
                            bm.len.store(n as u64, SeqCst);
                        }
                        b.stop.store(1, SeqCst);
                    }
                }
            }
            i += a.workers;
        }
        b.add("references_computed", refs.computed);
        for (name, set) in [("keys", &keys), ("sigs", &sigs), ("covs", &covs)] {
            let mut v: Vec<u8> = vec![];
            for k in set.iter() {
                v.extend_from_slice(&k.to_le_bytes());
            }
            let _ = std::fs::write(format!("{}/w{w}.{name}", a.out), v);
        }
    });
    if !ok {
        eprintln!("coresim: a worker failed");
        return 3;
    }
    let union = |name: &str| {
        let mut s: HashSet<[u8; 8]> = HashSet::new();
        for w in 0..a.workers {
            let f = format!("{}/w{w}.{name}", a.out);
            for c in std::fs::read(&f).unwrap_or_default().chunks_exact(8) {
                s.insert(c.try_into().unwrap());
            }
            let _ = std::fs::remove_file(&f);
        }
        s.len()
    };
    let wall = start.elapsed().as_secs_f64();
    let mut j = String::from("{");
    for (i, c) in COUNTERS.iter().enumerate() {
        j += &format!("\"{c}\": {}, ", b.c[i].load(SeqCst));
    }
    j += &format!(
        "\"distinct\": {}, \"interleavings\": {}, \"coverage_sets\": {}, \"wall_s\": {wall:.2}, \"workers\": {}",
        union("keys"), union("sigs"), union("covs"), a.workers
    );
    // a few example scenarios
    let sim = Sim::new();
    let mut refs = Refs::new(table);
    j += ", \"samples\": [";
    let mut n = 0;
    for i in 0..6 {
        let sc = props::generate(&a.prop, scenario_seed(a.seed, &a.prop, i), &mut refs, &sim);
        if sc.threads.iter().all(|t| t.is_empty()) {
            continue;
        }
        if n > 0 {
            j += ", ";
        }
        n += 1;
        j += &format!("\"seed {}/{i}: {}\"", a.seed, sc.text().replace('\n', "; ").chars().take(600).collect::<String>().replace('"', "'"));
    }
    j += "]";
    let mut code = 0;
    if b.found.load(SeqCst) != 0 {
        let n = b.len.load(SeqCst) as usize;
        let t = String::from_utf8_lossy(&b.text[..n]).into_owned();
        let mut l = t.splitn(4, '\n');
        let idx = l.next().unwrap().to_string();
        let class = l.next().unwrap().to_string();
        let msg = l.next().unwrap().to_string();
        let sc = Scenario::parse(l.next().unwrap());
        eprintln!("found by scenario {idx}: {msg}");
        let file = format!("{}/{}.replay", a.out, a.prop);
        let head = |sc: &Scenario, msg: &str| {
            format!("# {}\n# seed {} scenario {idx}\n# class {class}\n{}", msg.replace('\n', " "), a.seed, sc.text())
        };
        let (small, smsg) = minimize::minimize(&sc, &class, &mut refs, &sim, Duration::from_secs(60));
        let mut done = false;
        for (s, m) in [(&small, &smsg), (&sc, &msg)] {
            let _ = std::fs::write(&file, head(s, m));
            if confirm(&file, &class) && confirm(&file, &class) {
                println!("VIOLATION {} {}", file, m.replace('\n', " "));
                done = true;
                break;
            }
            eprintln!("coresim: the replay file does not reproduce");
        }
        code = if done { 1 } else { 3 };
        j += &format!(", \"violation_scenario\": {idx}");
    }
    j += "}\n";
    let _ = std::fs::write(format!("{}/stats.json", a.out), j);
    code
}

fn confirm(file: &str, class: &str) -> bool {
    let o = std::process::Command::new("/proc/self/exe").arg("replay").arg(file).output();
    match o {
        Ok(o) => String::from_utf8_lossy(&o.stdout).lines().any(|l| l == format!("class {class}")),
        Err(_) => false,
    }
}

fn replay(a: &Args) -> i32 {
    let t = match std::fs::read_to_string(&a.file) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("coresim: {}: {e}", a.file);
            return 3;
        }
    };
    let sc = Scenario::parse(&t);
    let sim = Sim::new();
    let mut refs = Refs::new(Refs::table());
    let (end, v) = props::run_and_judge(&sc, &mut refs, &sim);
    let (sh, out) = (sim.sh(), sim.out());
    if std::env::var_os("CORESIM_VERBOSE").is_some() {
        println!("{end:?}; {} steps, {} switches, signature {:016x}, coverage {:016x}", sh.steps, sh.n_switch, sh.inter_sig, sh.cov_hash);
        for (i, s) in sc.setup.iter().enumerate() {
            println!("setup {i} {s}: {}", out.setup[i].show());
        }
        for (t, ops) in sc.threads.iter().enumerate() {
            for (i, o) in ops.iter().enumerate() {
                println!("thread {t} {o}: {}", out.ops[t][i].show());
            }
        }
        println!("sig {} addr {:x} pc {:x}; heap {:?} {:?}", sh.sig, sh.sig_addr, sh.sig_pc, &out.live_bytes[..6], &out.live_count[..6]);
        println!("faults fired {:?}", sh.n_fault_fired);
    }
    match v {
        Some(v) => {
            println!("class {}", v.class);
            println!("violation: {}", v.msg);
            1
        }
        None => {
            println!("holds");
            0
        }
    }
}

/// Everything that happened in the last run.
fn fingerprint(sc: &Scenario, end: End, sim: &Sim) -> [u64; 4] {
    let (sh, out) = (sim.sh(), sim.out());
    let mut h = spec::Hash::new();
    h.bytes(sc.text().as_bytes());
    h.bytes(format!("{end:?}").as_bytes());
    for (t, ops) in sc.threads.iter().enumerate() {
        for k in 0..ops.len() {
            h.bytes(out.ops[t][k].show().as_bytes());
        }
    }
    for k in 0..16 {
        h.u64(out.live_bytes[k]);
        h.u64(out.live_count[k]);
    }
    for k in 0..sh.n_switch as usize {
        h.u64(sh.log[k].step);
        h.u64(sh.log[k].target as u64);
        h.u64(sh.log[k].site as u64);
    }
    let mut h2 = spec::Hash::new();
    for x in [sh.n_alloc[0], sh.n_alloc[1], sh.n_fault_fired[0], sh.n_fault_fired[1], sh.n_entropy, sh.n_clock, sh.n_futex_wait] {
        h2.u64(x);
    }
    [h.0, sh.steps, sh.cov_hash, h2.0]
}

/// Prints one line per run that says everything that happened.
fn trace(a: &Args) -> i32 {
    let table = Refs::table();
    let n = a.runs.min(100_000);
    let lines: *mut [u64; 4] = map_shared(n as usize);
    fan_out(a.workers, &|w| {
        let sim = Sim::new();
        let mut refs = Refs::new(table);
        let mut i = w;
        while i < n {
            let sc = props::generate(&a.prop, scenario_seed(a.seed, &a.prop, i), &mut refs, &sim);
            let (end, v) = props::run_and_judge(&sc, &mut refs, &sim);
            let mut l = fingerprint(&sc, end, &sim);
            let mut h = spec::Hash::new();
            h.u64(l[0]);
            h.bytes(format!("{:?}", v.map(|v| v.msg)).as_bytes());
            l[0] = h.0;
            unsafe { *lines.add(i as usize) = l };
            i += a.workers;
        }
    });
    for i in 0..n {
        let l = unsafe { *lines.add(i as usize) };
        println!("{i} {:016x} {} {:016x} {:016x}", l[0], l[1], l[2], l[3]);
    }
    0
}

fn main() {
    no_aslr();
    std::panic::set_hook(Box::new(|_| {}));
    unsafe {
        if sim_shared_size() != std::mem::size_of::<Shared>() {
            eprintln!("coresim: the shared structure differs: {} {}", sim_shared_size(), std::mem::size_of::<Shared>());
            std::process::exit(3);
        }
        sim_init();
    }
    let (cmd, a) = args();
    let code = match cmd.as_str() {
        "search" => search(&a),
        "replay" => replay(&a),
        "trace" => trace(&a),
        "gen" => {
            let sim = Sim::new();
            let mut refs = Refs::new(Refs::table());
            print!("{}", props::generate(&a.prop, scenario_seed(a.seed, &a.prop, a.runs), &mut refs, &sim).text());
            0
        }
        _ => {
            eprintln!("usage: coresim search|replay|trace ...");
            2
        }
    };
    std::process::exit(code);
}
