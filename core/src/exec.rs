//! Scenarios, their text form, and running them in a child process.

use crate::ffi::*;
use crate::l07;
use crate::ops::{self, Outcome, Slots, K_CRASH, K_NOTRUN};
use crate::spec::{hash_str, Hash};
use std::collections::HashMap;
use std::sync::atomic::{AtomicU32, Ordering};

pub const MAXT: usize = 8;
pub const MAXOPS: usize = 64;
pub const MAXSETUP: usize = 16;
pub const REF_BUDGET: u64 = 3_000_000_000;

#[derive(Clone, Default, PartialEq, Debug)]
pub struct Env {
    pub heap_seed: u64,
    pub base: u64,
    pub reuse: u32,
    pub fill_alloc: u32,
    pub fill_free: u32,
    pub pad: u32,
    pub two: u32,
    pub hash: u64,
    pub clock: u64,
    pub rate: u64,
    pub jump: u32,
    pub cpus: u32,
}

#[derive(Clone, Default, PartialEq, Debug)]
pub struct Sched {
    pub mode: u32,
    pub seed: u64,
    pub mean: u64,
    pub points: u32,
    pub est: u64,
    pub evp: u32,
    pub newedge: u32,
    pub burst_len: u32,
    pub burst_mean: u32,
    pub list: Vec<(u64, u32)>,
}

#[derive(Clone, Default, PartialEq, Debug)]
pub struct Scenario {
    pub prop: String,
    pub env: Env,
    pub sched: Sched,
    /// thread, how the place is given (see simrt.h), the place
    pub stalls: Vec<(u32, u32, u64)>,
    pub faults: Vec<(u32, u64, u64)>,
    pub reps: u32,
    pub spawn: bool,
    pub setup: Vec<String>,
    pub threads: Vec<Vec<String>>,
    pub merge: Vec<u32>,
}

impl Scenario {
    pub fn text(&self) -> String {
        let mut s = String::new();
        let e = &self.env;
        let c = &self.sched;
        s += &format!("prop {}\n", self.prop);
        s += &format!(
            "env {} {} {} {} {} {} {} {} {} {} {} {}\n",
            e.heap_seed, e.base, e.reuse, e.fill_alloc, e.fill_free, e.pad, e.two, e.hash, e.clock, e.rate, e.jump, e.cpus
        );
        s += &format!(
            "sched {} {} {} {} {} {} {} {} {}\n",
            c.mode, c.seed, c.mean, c.points, c.est, c.evp, c.newedge, c.burst_len, c.burst_mean
        );
        for (a, b) in &c.list {
            s += &format!("switch {a} {b}\n");
        }
        for (t, m, k) in &self.stalls {
            s += &format!("stall {t} {m} {k}\n");
        }
        for (k, a, b) in &self.faults {
            s += &format!("fault {k} {a} {b}\n");
        }
        s += &format!("reps {}\nspawn {}\n", self.reps, self.spawn as u32);
        for o in &self.setup {
            s += &format!("setup {o}\n");
        }
        for t in &self.threads {
            s += "thread\n";
            for o in t {
                s += &format!("op {o}\n");
            }
        }
        if !self.merge.is_empty() {
            s += &format!("merge {}\n", self.merge.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
        }
        s
    }

    pub fn parse(t: &str) -> Scenario {
        let mut s = Scenario { reps: 1, ..Default::default() };
        for l in t.lines() {
            let (k, rest) = l.split_once(' ').unwrap_or((l, ""));
            let n: Vec<u64> = rest.split_whitespace().filter_map(|w| w.parse().ok()).collect();
            match k {
                "prop" => s.prop = rest.trim().into(),
                "env" => {
                    s.env = Env {
                        heap_seed: n[0], base: n[1], reuse: n[2] as u32, fill_alloc: n[3] as u32,
                        fill_free: n[4] as u32, pad: n[5] as u32, two: n[6] as u32, hash: n[7], clock: n[8],
                        rate: n[9], jump: n[10] as u32, cpus: n[11] as u32,
                    }
                }
                "sched" => {
                    s.sched = Sched {
                        mode: n[0] as u32, seed: n[1], mean: n[2], points: n[3] as u32, est: n[4],
                        evp: n[5] as u32, newedge: n[6] as u32, burst_len: n[7] as u32, burst_mean: n[8] as u32,
                        list: vec![],
                    }
                }
                "switch" => s.sched.list.push((n[0], n[1] as u32)),
                "stall" => s.stalls.push((n[0] as u32, n[1] as u32, n[2])),
                "fault" => s.faults.push((n[0] as u32, n[1], n[2])),
                "reps" => s.reps = n[0] as u32,
                "spawn" => s.spawn = n[0] != 0,
                "setup" => s.setup.push(rest.into()),
                "thread" => s.threads.push(vec![]),
                "op" => s.threads.last_mut().unwrap().push(rest.into()),
                "merge" => s.merge = n.iter().map(|x| *x as u32).collect(),
                _ => {}
            }
        }
        s
    }

    pub fn refs(&self) -> Vec<Vec<Option<String>>> {
        self.threads
            .iter()
            .map(|t| {
                let mut sl = Slots::default();
                t.iter().map(|o| ops::reference(o, &self.setup, &mut sl)).collect()
            })
            .collect()
    }

    /// Every call of the C interface fits the objects it is given.
    pub fn well_formed(&self) -> bool {
        let refs = self.refs();
        self.threads.iter().zip(&refs).all(|(t, r)| t.iter().zip(r).all(|(o, r)| r.is_some() || !ops::needs_reference(o)))
    }
}

#[repr(C)]
pub struct Out {
    pub done: u32,
    pub viol: u32,
    pub viol_len: u32,
    pub viol_msg: [u8; 300],
    pub setup: [Outcome; MAXSETUP],
    pub ops: [[Outcome; MAXOPS]; MAXT],
    pub live_bytes: [u64; 16],
    pub live_count: [u64; 16],
    pub probes: [u64; 16],
}

impl Out {
    pub fn violation(&mut self, s: &str) {
        if self.viol == 0 {
            self.viol = 1;
            let b = s.as_bytes();
            let n = b.len().min(300);
            self.viol_msg[..n].copy_from_slice(&b[..n]);
            self.viol_len = n as u32;
        }
    }
    pub fn msg(&self) -> String {
        String::from_utf8_lossy(&self.viol_msg[..self.viol_len as usize]).into_owned()
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum End {
    Exit(i32),
    Signal(i32),
}

pub struct Sim {
    pub sh: *mut Shared,
    pub out: *mut Out,
    pub wall: u32,
    pub quiet: bool,
}

unsafe impl Sync for Sim {}

struct ThreadArg {
    ops: *const Vec<String>,
    objs: *const Vec<ops::Obj>,
    out: *mut Out,
    budgets: *const Vec<u64>,
    sh: *mut Shared,
    t: usize,
    contained: bool,
}
unsafe impl Send for ThreadArg {}

/// What a library has no business to change for the whole process.
#[derive(PartialEq)]
struct Process {
    environment: u64,
    directory: Vec<u8>,
    signals: Vec<usize>,
    files: u64,
    locale: Vec<u8>,
}

impl Process {
    fn now() -> Process {
        unsafe {
            let mut h = Hash::new();
            extern "C" {
                static environ: *const *const libc::c_char;
            }
            let mut e = environ;
            while !e.is_null() && !(*e).is_null() {
                h.bytes(std::ffi::CStr::from_ptr(*e).to_bytes());
                e = e.add(1);
            }
            let mut dir = vec![0u8; 4096];
            libc::getcwd(dir.as_mut_ptr().cast(), dir.len());
            let signals = (1..32)
                .map(|n| {
                    let mut a: libc::sigaction = std::mem::zeroed();
                    libc::sigaction(n, std::ptr::null(), &mut a);
                    a.sa_sigaction
                })
                .collect();
            let files = (0..64).fold(0, |s, n| s | ((libc::fcntl(n, libc::F_GETFD) >= 0) as u64) << n);
            let l = libc::setlocale(libc::LC_ALL, std::ptr::null());
            let locale = if l.is_null() { vec![] } else { std::ffi::CStr::from_ptr(l).to_bytes().to_vec() };
            Process { environment: h.0, directory: dir, signals, files, locale }
        }
    }

    fn difference(&self, o: &Process) -> Option<&'static str> {
        [
            (self.environment != o.environment, "the environment variables"),
            (self.directory != o.directory, "the working directory"),
            (self.signals != o.signals, "a signal handler"),
            (self.files != o.files, "the open files"),
            (self.locale != o.locale, "the locale"),
        ]
        .iter()
        .find(|d| d.0)
        .map(|d| d.1)
    }
}

static PANICS: AtomicU32 = AtomicU32::new(0);

fn watch_panics() {
    let d = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        PANICS.fetch_add(1, Ordering::Relaxed);
        d(i)
    }));
}

/// Whether a panic still reaches the program's own panic hook.
fn panics_are_watched() -> bool {
    let n = PANICS.load(Ordering::Relaxed);
    let _ = std::panic::catch_unwind(|| panic!("still here?"));
    PANICS.load(Ordering::Relaxed) == n + 1
}

/// The rounding mode and what else is set for the floating-point unit of this thread.
fn float_mode() -> (u32, u16) {
    let (mut sse, mut x87) = (0u32, 0u16);
    unsafe {
        std::arch::asm!("stmxcsr [{}]", in(reg) &mut sse);
        std::arch::asm!("fnstcw [{}]", in(reg) &mut x87);
    }
    (sse & 0xffc0, x87)
}

fn run_ops(a: ThreadArg) {
    unsafe {
        let mode = float_mode();
        let objs = &*a.objs;
        let mut cx = ops::Ctx::new(&objs[..]);
        let id = sim_my_id() as usize;
        for (i, op) in (*a.ops).iter().enumerate() {
            if let Some(b) = (&*a.budgets).get(i) {
                (*a.sh).thread_budget[id] = *b;
            }
            (*a.sh).cur_op[id] = i as i32;
            let o = ops::exec(op, &mut cx);
            (*a.out).ops[a.t][i] = o;
            if a.contained && float_mode() != mode {
                (*a.out).violation(&format!("thread {} `{op}`: the call changed the floating-point mode of its thread", a.t));
            }
        }
        (*a.sh).thread_budget[id] = 0;
        ops::finish(&mut cx);
        (*a.sh).cur_op[id] = -1;
    }
}

fn thread_name(e: &Env, t: u64) -> std::thread::Builder {
    let b = std::thread::Builder::new();
    match (e.hash >> 24) ^ t {
        h if e.hash == 0 || h % 3 == 0 => b,
        h => b.name("worker-x7-0123456789abcdef"[(h % 5) as usize..(h % 21) as usize + 5].to_string()),
    }
}

fn child(sc: &Scenario, sim: &Sim, budgets: &Vec<Vec<u64>>) {
    unsafe {
        let sh = sim.sh;
        let out = &mut *sim.out;
        sim_set_shared(sh);
        watch_panics();
        sim_start();
        let before = Process::now();
        ops::REFERENCE.store(sc.prop == "ref", std::sync::atomic::Ordering::Relaxed);
        if !sc.merge.is_empty() || sc.prop == "L07" {
            l07::run(sc, out);
        } else {
            let mut objs = vec![];
            for (i, s) in sc.setup.iter().enumerate() {
                let (o, r) = ops::make_obj(s);
                out.setup[i] = r;
                objs.push(o);
            }
            for rep in 0..sc.reps.max(1) {
                let arg = |t: usize| ThreadArg {
                    ops: &sc.threads[t],
                    objs: &objs,
                    out: sim.out,
                    budgets: &budgets[t],
                    sh,
                    t,
                    contained: sc.prop == "L05",
                };
                if sc.threads.len() == 1 && !sc.spawn {
                    run_ops(arg(0));
                } else {
                    let mut hs = vec![];
                    for t in 0..sc.threads.len() {
                        let a = arg(t);
                        match thread_name(&sc.env, 1 + t as u64).spawn(move || run_ops(a)) {
                            Ok(h) => hs.push(h),
                            Err(_) => libc::_exit(96),
                        }
                    }
                    for h in hs {
                        if h.join().is_err() {
                            libc::_exit(95);
                        }
                    }
                }
                if (rep as usize) < 16 {
                    out.live_bytes[rep as usize] = sim_live_bytes();
                    out.live_count[rep as usize] = sim_live_count();
                }
                if (*sh).n_threads as usize + sc.threads.len() >= MAXTHREADS && sc.spawn {
                    // thread numbers are used up: the remaining repetitions are not needed
                    out.probes[15] = rep as u64 + 1;
                    break;
                }
                out.probes[15] = rep as u64 + 1;
            }
            for o in objs.drain(..) {
                ops::drop_obj(o);
            }
        }
        sim_heap_check();
        sim_stop();
        if sc.prop == "L05" {
            if let Some(d) = before.difference(&Process::now()) {
                out.violation(&format!("after the calls: {d} changed"));
            } else if !panics_are_watched() {
                out.violation("after the calls: the panic hook of the program is no longer in place");
            }
        }
        out.done = 1;
        libc::_exit(0);
    }
}

pub fn clear<T>(p: *mut T) {
    unsafe { std::ptr::write_bytes(p.cast::<u8>(), 0, std::mem::size_of::<T>()) }
}

impl Sim {
    pub fn new() -> Sim {
        Sim { sh: map_shared(1), out: map_shared(1), wall: 60, quiet: std::env::var_os("CORESIM_VERBOSE").is_none() }
    }

    pub fn sh(&self) -> &'static Shared {
        unsafe { &*self.sh }
    }
    pub fn out(&self) -> &'static Out {
        unsafe { &*self.out }
    }

    pub fn run(&self, sc: &Scenario, budget: u64, budgets: &Vec<Vec<u64>>) -> End {
        unsafe {
            clear(self.sh);
            // only the header of the results needs to be cleared; every slot has a kind
            let o = &mut *self.out;
            o.done = 0;
            o.viol = 0;
            o.viol_len = 0;
            o.probes = [0; 16];
            o.live_bytes = [0; 16];
            o.live_count = [0; 16];
            for s in o.setup.iter_mut() {
                s.kind = K_NOTRUN;
            }
            for (t, ops) in sc.threads.iter().enumerate() {
                for i in 0..ops.len() {
                    o.ops[t][i].kind = K_NOTRUN;
                }
            }
            let s = &mut *self.sh;
            let (e, c) = (&sc.env, &sc.sched);
            s.sched_seed = c.seed;
            s.sched_mode = c.mode;
            s.sched_points = c.points;
            s.sched_mean = c.mean;
            s.est_steps = c.est;
            s.event_switch_permille = c.evp;
            s.newedge_permille = c.newedge;
            s.burst_len = c.burst_len;
            s.burst_mean = c.burst_mean;
            s.n_replay = c.list.len().min(MAXSWITCH) as u32;
            for (i, (a, b)) in c.list.iter().take(MAXSWITCH).enumerate() {
                s.replay[i] = Switch { step: *a, target: *b, site: 0 };
            }
            s.heap_seed = e.heap_seed;
            s.heap_base_pages = e.base;
            s.heap_reuse = e.reuse;
            s.heap_fill_alloc = e.fill_alloc;
            s.heap_fill_free = e.fill_free;
            s.heap_pad = e.pad;
            s.heap_two_ended = e.two;
            s.hash_seed = e.hash;
            s.clock_base = e.clock;
            s.clock_rate = e.rate;
            s.clock_jump = e.jump;
            s.cpus = e.cpus;
            s.budget = budget;
            for (t, m, k) in &sc.stalls {
                s.stall[*t as usize] = StallAt { mode: *m, at: *k };
            }
            s.n_fault = sc.faults.len().min(MAXFAULT) as u32;
            for (i, (k, a, b)) in sc.faults.iter().take(MAXFAULT).enumerate() {
                s.fault[i] = Fault { kind: *k, from: *a, to: *b };
            }
            s.fault_thread = -1;
            s.cur_op = [-1; MAXTHREADS];
            let pid = libc::fork();
            if pid < 0 {
                eprintln!("coresim: fork failed");
                libc::_exit(3);
            }
            if pid == 0 {
                libc::alarm(self.wall);
                if self.quiet {
                    let n = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
                    libc::dup2(n, 2);
                }
                // the environment also decides where stacks are, which numbers threads have and
                // what they are called
                let h = sc.env.hash;
                if h != 0 {
                    let len = 4096 * (1 + (h >> 8) % 512) as usize;
                    libc::mmap(std::ptr::null_mut(), len, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
                    for _ in 0..(h >> 20) % 4 {
                        let _ = std::thread::spawn(|| ()).join();
                    }
                }
                // on a fresh thread: thread local state of this process (hash keys) is not inherited
                std::thread::scope(|s| {
                    let b = thread_name(&sc.env, 0).stack_size(8 << 20);
                    let _ = b.spawn_scoped(s, || child(sc, self, budgets)).map(|h| h.join());
                });
                libc::_exit(0);
            }
            let mut st = 0;
            while libc::waitpid(pid, &mut st, 0) < 0 {}
            if libc::WIFSIGNALED(st) {
                End::Signal(libc::WTERMSIG(st))
            } else {
                End::Exit(libc::WEXITSTATUS(st))
            }
        }
    }
}

// ---------------------------------------------------------------- references

#[repr(C)]
pub struct RefSlot {
    state: AtomicU32,
    key: [u64; 2],
    val: Outcome,
}

pub const REFSLOTS: usize = 1 << 17;

pub struct Refs {
    table: *mut RefSlot,
    local: HashMap<String, Outcome>,
    pub computed: u64,
    pub hits: u64,
}

impl Refs {
    pub fn table() -> *mut RefSlot {
        map_shared(REFSLOTS)
    }
    pub fn new(table: *mut RefSlot) -> Refs {
        Refs { table, local: HashMap::new(), computed: 0, hits: 0 }
    }

    /// Whether the process lives on when the first request at a place fails during a call.
    pub fn survives(&mut self, sim: &Sim, op: &str, fault: u32, place: u64) -> bool {
        self.get(sim, &format!("{op} |{fault} {place}")).kind != K_CRASH
    }

    pub fn get(&mut self, sim: &Sim, op: &str) -> Outcome {
        if let Some(o) = self.local.get(op) {
            self.hits += 1;
            return *o;
        }
        let k = hash_str(op);
        let mut free = None;
        unsafe {
            for p in 0..16 {
                let s = &mut *self.table.add((k.0 as usize + p) % REFSLOTS);
                match s.state.load(Ordering::Acquire) {
                    2 if s.key == [k.0, k.1] => {
                        self.hits += 1;
                        let v = s.val;
                        self.remember(op, v);
                        return v;
                    }
                    0 => {
                        free = Some(s);
                        break;
                    }
                    _ => {}
                }
            }
            let v = compute(sim, op);
            self.computed += 1;
            if let Some(s) = free {
                if s.state.compare_exchange(0, 1, Ordering::AcqRel, Ordering::Relaxed).is_ok() {
                    s.key = [k.0, k.1];
                    s.val = v;
                    s.state.store(2, Ordering::Release);
                }
            }
            self.remember(op, v);
            v
        }
    }

    fn remember(&mut self, op: &str, v: Outcome) {
        if self.local.len() > 20000 {
            self.local.clear();
        }
        self.local.insert(op.to_string(), v);
    }
}

fn compute(sim: &Sim, op: &str) -> Outcome {
    let mut sc = Scenario {
        prop: "ref".into(),
        reps: 1,
        threads: vec![vec![op.to_string()]],
        ..Default::default()
    };
    if let Some((o, f)) = op.split_once(" |") {
        let (k, place) = f.split_once(' ').unwrap_or_default();
        sc.threads = vec![vec![format!("{o} +o")]];
        sc.faults = vec![(k.parse().unwrap_or(0), place.parse().unwrap_or(0), 0)];
    }
    let end = sim.run(&sc, REF_BUDGET, &vec![vec![]]);
    let (sh, out) = (sim.sh(), sim.out());
    let mut o = out.ops[0][0];
    if end != End::Exit(0) || o.kind == K_NOTRUN || sh.violation != 0 {
        o = Outcome::new(K_CRASH, &describe_end(end, sh));
        o.h = Hash::new();
        o.steps = sh.steps;
    }
    o.allocs = sh.n_alloc;
    o.sites = sh.n_site;
    o
}

pub fn viol_msg(sh: &Shared) -> String {
    let n = sh.viol_msg.iter().position(|c| *c == 0).unwrap_or(512);
    String::from_utf8_lossy(&sh.viol_msg[..n]).into_owned()
}

pub fn describe_end(end: End, sh: &Shared) -> String {
    if sh.violation != 0 {
        return viol_msg(sh);
    }
    match end {
        End::Signal(s) => {
            let n = match s {
                libc::SIGSEGV => "SIGSEGV",
                libc::SIGABRT => "SIGABRT",
                libc::SIGBUS => "SIGBUS",
                libc::SIGILL => "SIGILL",
                libc::SIGFPE => "SIGFPE",
                libc::SIGALRM => "SIGALRM (a call hangs)",
                libc::SIGKILL => "SIGKILL",
                _ => "another signal",
            };
            format!("the process was ended by {n}")
        }
        End::Exit(c) => format!("the process exited with status {c}"),
    }
}
