//! Bindings of the simulation runtime (rt/simrt.c) and the global allocator.
use std::alloc::{GlobalAlloc, Layout};

pub const MAXTHREADS: usize = 16;
pub const MAXSWITCH: usize = 4096;
pub const MAXFAULT: usize = 64;

pub const V_HEAP: u32 = 1;
pub const V_DEADLOCK: u32 = 2;
pub const V_BUDGET: u32 = 3;

#[repr(C)]
pub struct StallAt {
    pub mode: u32,
    pub at: u64,
}

#[repr(C)]
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Switch {
    pub step: u64,
    pub target: u32,
    pub site: u32,
}

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Fault {
    pub kind: u32,
    pub from: u64,
    pub to: u64,
}

#[repr(C)]
pub struct Shared {
    pub sched_seed: u64,
    pub sched_mode: u32,
    pub sched_points: u32,
    pub sched_mean: u64,
    pub est_steps: u64,
    pub event_switch_permille: u32,
    pub newedge_permille: u32,
    pub burst_len: u32,
    pub burst_mean: u32,
    pub n_replay: u32,
    pub replay: [Switch; MAXSWITCH],
    pub heap_seed: u64,
    pub heap_base_pages: u64,
    pub heap_reuse: u32,
    pub heap_fill_alloc: u32,
    pub heap_fill_free: u32,
    pub heap_pad: u32,
    pub heap_two_ended: u32,
    pub hash_seed: u64,
    pub clock_base: u64,
    pub clock_rate: u64,
    pub clock_jump: u32,
    pub cpus: u32,
    pub budget: u64,
    pub thread_budget: [u64; MAXTHREADS],
    pub stall: [StallAt; MAXTHREADS],
    pub n_fault: u32,
    pub fault: [Fault; MAXFAULT],
    pub fault_thread: i32,
    // outputs
    pub steps: u64,
    pub tsteps: [u64; MAXTHREADS],
    pub inter_sig: u64,
    pub n_switch: u32,
    pub n_forced: u32,
    pub log: [Switch; MAXSWITCH],
    pub n_alloc: [u64; 2],
    pub armed_alloc: [u64; 2],
    pub n_fault_fired: [u64; 2],
    pub n_fault_site: u64,
    pub n_site: [[u32; 4]; 2],
    pub n_entropy: u64,
    pub n_clock: u64,
    pub n_clock_jump: u64,
    pub n_futex_wait: u64,
    pub n_threads: u64,
    pub n_yield: u64,
    pub n_spurious: u64,
    pub violation: u32,
    pub viol_thread: u32,
    pub viol_step: u64,
    pub viol_msg: [u8; 512],
    pub stalled: u32,
    pub cov_edges: u64,
    pub cov_hash: u64,
    pub cur_op: [i32; MAXTHREADS],
    pub sig: u32,
    pub sig_addr: u64,
    pub sig_pc: u64,
}

extern "C" {
    pub fn sim_init();
    pub fn sim_shared_size() -> usize;
    pub fn sim_set_shared(s: *mut Shared);
    pub fn sim_start();
    pub fn sim_stop();
    pub fn sim_enter();
    pub fn sim_leave();
    pub fn sim_event(site: u32);
    pub fn sim_my_steps() -> u64;
    pub fn sim_my_id() -> i32;
    pub fn sim_fault_arm();
    pub fn sim_fault_disarm();
    pub fn sim_live_bytes() -> u64;
    pub fn sim_live_count() -> u64;
    pub fn sim_heap_check() -> i32;
    fn sim_rust_alloc(size: usize, align: usize, zero: i32) -> *mut u8;
    fn sim_rust_realloc(p: *mut u8, size: usize, align: usize, old: usize) -> *mut u8;
    fn sim_rust_free_sized(p: *mut u8, n: usize);
}

pub struct SimAlloc;

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        sim_rust_alloc(l.size(), l.align(), 0)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        sim_rust_alloc(l.size(), l.align(), 1)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        sim_rust_free_sized(p, l.size())
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        sim_rust_realloc(p, n, l.align(), l.size())
    }
}

/// Zeroed memory that stays shared across fork.
pub fn map_shared<T>(n: usize) -> *mut T {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            n * std::mem::size_of::<T>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        if p == libc::MAP_FAILED {
            eprintln!("coresim: mmap failed");
            std::process::exit(3);
        }
        p.cast()
    }
}
