//! Mirror of rt/simfs.h.
use std::sync::OnceLock;

pub const MAXFAULT: usize = 512;
pub const MAXLOG: usize = 8192;
pub const MAXPATH: usize = 64;
pub const PATHLEN: usize = 256;
pub const MAXOUT: usize = 65536;

pub const F_SHORT: u32 = 1;
pub const F_EINTR: u32 = 2;
pub const F_ERR: u32 = 3;
pub const F_ERR_ON: u32 = 4;
pub const F_KILL: u32 = 5;
pub const F_KILL_MID: u32 = 6;

pub const O_OPENR: u8 = 1;
pub const O_OPENW: u8 = 2;
pub const O_READ: u8 = 3;
pub const O_WRITE: u8 = 4;
pub const O_SEEK: u8 = 5;
#[allow(dead_code)]
pub const O_STAT: u8 = 6;
#[allow(dead_code)]
pub const O_NAME: u8 = 9;
pub const O_STDOUT: u8 = 11;
#[allow(dead_code)]
pub const O_STDERR: u8 = 12;
pub const OPS: [&str; 13] = ["", "open", "open-write", "read", "write", "seek", "stat", "truncate", "sync", "name", "close", "stdout", "stderr"];

pub const V_ESCAPE: u32 = 1;
pub const V_ENDLESS: u32 = 2;

#[repr(C)]
#[derive(Clone, Copy, Debug)]
pub struct Fault {
    pub op: u32,
    pub kind: u32,
    pub arg: i64,
}

#[repr(C)]
#[derive(Clone, Copy, Debug)]
pub struct Op {
    pub ty: u8,
    pub inj: u8,
    pub err: i16,
    pub path: i32,
    pub req: i64,
    pub ret: i64,
}

#[repr(C)]
pub struct Shared {
    pub root: [u8; PATHLEN],
    pub irr_seed: u64,
    pub p_short: u32,
    pub p_eintr: u32,
    pub chunk: u32,
    pub n_fault: u32,
    pub fault: [Fault; MAXFAULT],
    pub capacity: i64,
    pub hash_seed: u64,
    pub clock_base: u64,
    pub max_ops: u32,
    pub pad0: u32,
    pub n_ops: u32,
    pub n_log: u32,
    pub n_path: u32,
    pub violation: u32,
    pub fired: [u32; 16],
    pub n_entropy: u32,
    pub n_clock: u32,
    pub killed: u32,
    pub last_nops: u32,
    pub bytes_in: u64,
    pub bytes_out: u64,
    pub viol_msg: [u8; 256],
    pub path: [[u8; PATHLEN]; MAXPATH],
    pub path_made: [u8; MAXPATH],
    pub log: [Op; MAXLOG],
    pub out_len: u32,
    pub err_len: u32,
    pub out: [u8; MAXOUT],
    pub err: [u8; MAXOUT],
}

pub fn cstr(b: &[u8]) -> String {
    name(&b[..b.iter().position(|c| *c == 0).unwrap_or(b.len())])
}

/// The inverse of `scenario::os`.
pub fn name(b: &[u8]) -> String {
    let mut s = String::new();
    for c in b.utf8_chunks() {
        s.push_str(c.valid());
        s.extend(c.invalid().iter().map(|b| char::from_u32(0xE000 + *b as u32).unwrap()));
    }
    s
}

impl Shared {
    pub fn path(&self, i: usize) -> String {
        cstr(&self.path[i])
    }
    pub fn ops(&self) -> &[Op] {
        &self.log[..self.n_log as usize]
    }
}

pub fn map<T>(fd: i32) -> *mut T {
    unsafe {
        let n = std::mem::size_of::<T>().max(1);
        let f = if fd < 0 { libc::MAP_SHARED | libc::MAP_ANONYMOUS } else { libc::MAP_SHARED };
        let p = libc::mmap(std::ptr::null_mut(), n, libc::PROT_READ | libc::PROT_WRITE, f, fd, 0);
        if p == libc::MAP_FAILED {
            eprintln!("clisim: mmap failed");
            libc::_exit(3);
        }
        p.cast()
    }
}

/// Where the tool and the shim are.
pub struct Tool {
    pub exe: String,
    pub shim: String,
    pub scratch: String,
}
pub static TOOL: OnceLock<Tool> = OnceLock::new();
pub fn tool() -> &'static Tool {
    TOOL.get().unwrap()
}
