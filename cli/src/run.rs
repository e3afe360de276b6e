//! Executes one run of the tool on a scratch disk and records everything that can be observed.

use crate::scenario::{os, Scenario};
use crate::shared::*;
use std::collections::BTreeMap;
use std::ffi::CString;

pub const MAX_OPS: u32 = 100_000;

#[derive(Clone, PartialEq, Debug)]
pub enum Node {
    File(Vec<u8>),
    Dir,
    Other,
}

pub type Tree = BTreeMap<String, Node>;

#[derive(Clone)]
pub struct Obs {
    pub status: i32,
    pub before: Tree,
    pub after: Tree,
    pub out: Vec<u8>,
    pub err: Vec<u8>,
    pub ops: Vec<Op>,
    pub paths: Vec<String>,
    pub made: Vec<bool>,
    pub violation: u32,
    pub msg: String,
    pub fired: [u32; 16],
    pub entropy: u32,
    pub clock: u32,
    pub killed: bool,
    pub bytes: (u64, u64),
}

impl Obs {
    pub fn exit(&self) -> Option<i32> {
        libc::WIFEXITED(self.status).then(|| libc::WEXITSTATUS(self.status))
    }
    pub fn signal(&self) -> Option<i32> {
        libc::WIFSIGNALED(self.status).then(|| libc::WTERMSIG(self.status))
    }
    pub fn ended(&self) -> String {
        match (self.exit(), self.signal()) {
            (Some(c), _) => format!("status {c}"),
            (_, Some(s)) => format!("signal {s}"),
            _ => "?".into(),
        }
    }
    /// Identifies the sequence of operations and their outcomes.
    pub fn signature(&self) -> u64 {
        let mut h = crate::spec::Hash::new();
        for o in &self.ops {
            let p = if o.path >= 0 { self.paths[o.path as usize].as_bytes() } else { b"" };
            h.bytes(p);
            h.u64(o.ty as u64 | (o.inj as u64) << 8 | (o.err as u16 as u64) << 16);
            h.u64(o.ret as u64);
        }
        h.u64(self.status as u64);
        h.0
    }
}

fn walk(root: &str, rel: &str, t: &mut Tree) {
    let dir = if rel.is_empty() { root.to_string() } else { format!("{root}/{rel}") };
    for e in std::fs::read_dir(os(&dir)).unwrap().flatten() {
        let name = name(e.file_name().as_encoded_bytes());
        let r = if rel.is_empty() { name } else { format!("{rel}/{name}") };
        let ty = e.file_type().unwrap();
        if ty.is_dir() {
            t.insert(r.clone(), Node::Dir);
            walk(root, &r, t);
        } else if ty.is_file() {
            t.insert(r.clone(), Node::File(std::fs::read(e.path()).unwrap_or_default()));
        } else {
            t.insert(r, Node::Other);
        }
    }
}

pub struct World {
    pub root: String,
    shm: String,
    sh: *mut Shared,
}

impl World {
    pub fn new(id: u64) -> World {
        let base = format!("{}/w{id}", tool().scratch);
        std::fs::create_dir_all(&base).unwrap();
        let shm = format!("{base}/control");
        unsafe {
            let p = CString::new(shm.clone()).unwrap();
            let fd = libc::open(p.as_ptr(), libc::O_RDWR | libc::O_CREAT | libc::O_TRUNC, 0o600);
            if fd < 0 || libc::ftruncate(fd, std::mem::size_of::<Shared>() as i64) != 0 {
                eprintln!("clisim: cannot make the control file");
                libc::_exit(3);
            }
            let sh = map(fd);
            libc::close(fd);
            World { root: format!("{base}/disk"), shm, sh }
        }
    }

    fn put(&self, rel: &str, b: &[u8]) {
        std::fs::write(os(&format!("{}/{rel}", self.root)), b).unwrap();
    }

    pub fn run(&self, s: &Scenario) -> Obs {
        let root = &self.root;
        let _ = std::fs::remove_dir_all(root);
        for d in ["in", "out", "cwd"] {
            std::fs::create_dir_all(format!("{root}/{d}")).unwrap();
        }
        let outs = s.outputs();
        // bystanders
        self.put(&format!("in/{}.bak", s.in_name), b"a bystander");
        self.put("out/other.png", b"another picture");
        self.put("cwd/notes.txt", b"notes");
        self.put("notes.txt", b"notes");
        let stem = s.out_name.split('.').next().unwrap_or("x");
        for n in [format!("{stem}.tmp"), format!("{stem}_channel_9_ABCDEF.png"), format!("{}~", s.out_name)] {
            if s.dir() != "out" || !outs.contains(&n) {
                self.put(&format!("out/{n}"), b"something else");
            }
        }
        match s.input_bytes() {
            Some(b) => self.put(&format!("in/{}", s.in_name), &b),
            None if s.mode == "dir" => std::fs::create_dir_all(os(&format!("{root}/in/{}", s.in_name))).unwrap(),
            None => {}
        }
        for (i, k) in &s.pre {
            let Some(n) = outs.get(*i as usize) else { continue };
            if s.dir() == "out/new" || (s.dir() == "in" && *n == s.in_name) {
                continue;
            }
            let n = format!("{}/{n}", s.dir());
            match k.split_once(':').map_or((k.as_str(), 0), |(k, l)| (k, l.parse().unwrap())) {
                ("long", _) => self.put(&n, &vec![0x5a; 300_000]),
                ("short", _) => self.put(&n, b"old"),
                ("empty", _) => self.put(&n, b""),
                ("len", l) => self.put(&n, &vec![0x5a; l]),
                ("dir", _) => std::fs::create_dir_all(os(&format!("{root}/{n}"))).unwrap(),
                _ => {}
            }
        }
        let mut before = Tree::new();
        walk(root, "", &mut before);

        let d = s.dir();
        let near = if d == "in" { "in" } else { "out" };
        let (cwd, inp, out) = match s.cwd {
            0 => (format!("{root}/cwd"), format!("{root}/in/{}", s.in_name), format!("{root}/{d}/{}", s.out_name)),
            1 => (root.clone(), format!("in/{}", s.in_name), format!("{d}/{}", s.out_name)),
            2 => (
                format!("{root}/{near}"),
                if near == "in" { s.in_name.clone() } else { format!("../in/{}", s.in_name) },
                format!("{d}/{}", s.out_name)[near.len() + 1..].to_string(),
            ),
            _ => (format!("{root}/cwd"), format!("../in/{}", s.in_name), format!("../{d}/{}", s.out_name)),
        };
        let mut argv: Vec<String> = vec!["image-palette-recoloring-cli".into()];
        if s.cmd == "palette" {
            argv.push("generate-palette".into());
            argv.extend(s.opts.iter().cloned());
            argv.push(inp);
        } else {
            argv.push("recolor-image".into());
            for (f, v) in [("-d", &s.dp), ("-i", &inp), ("-r", &s.rp), ("-o", &out)] {
                argv.push(f.into());
                argv.push(v.clone());
            }
            if s.channels {
                argv.push("-c".into());
            }
        }
        unsafe {
            std::ptr::write_bytes(self.sh.cast::<u8>(), 0, std::mem::size_of::<Shared>());
            let sh = &mut *self.sh;
            sh.root[..root.len()].copy_from_slice(root.as_bytes());
            sh.irr_seed = s.irr;
            sh.p_short = s.p_short;
            sh.p_eintr = s.p_eintr;
            sh.chunk = s.chunk;
            sh.n_fault = s.faults.len().min(MAXFAULT) as u32;
            for (i, (op, k, a)) in s.faults.iter().take(MAXFAULT).enumerate() {
                sh.fault[i] = Fault { op: *op, kind: *k, arg: *a };
            }
            sh.capacity = s.cap;
            sh.hash_seed = s.hash;
            sh.clock_base = s.clock;
            sh.max_ops = MAX_OPS;
        }
        let status = self.spawn(&argv, &cwd);
        let mut after = Tree::new();
        walk(root, "", &mut after);
        let sh = unsafe { &*self.sh };
        let n = sh.n_path as usize;
        Obs {
            status,
            before,
            after,
            out: sh.out[..sh.out_len as usize].to_vec(),
            err: sh.err[..sh.err_len as usize].to_vec(),
            ops: sh.ops().to_vec(),
            paths: (0..n).map(|i| sh.path(i).strip_prefix(&format!("{root}/")).map(|x| x.to_string()).unwrap_or(sh.path(i))).collect(),
            made: sh.path_made[..n].iter().map(|x| *x != 0).collect(),
            violation: sh.violation,
            msg: cstr(&sh.viol_msg).replace(root, "<scratch>"),
            fired: sh.fired,
            entropy: sh.n_entropy,
            clock: sh.n_clock,
            killed: sh.killed == 1,
            bytes: (sh.bytes_in, sh.bytes_out),
        }
    }

    fn spawn(&self, argv: &[String], cwd: &str) -> i32 {
        let c = |s: &str| CString::new(os(s).into_encoded_bytes()).unwrap();
        let exe = c(&tool().exe);
        let args: Vec<CString> = argv.iter().map(|a| c(a)).collect();
        let env: Vec<CString> = vec![
            c(&format!("LD_PRELOAD={}", tool().shim)),
            c(&format!("SIMFS={}", self.shm)),
            c("RAYON_NUM_THREADS=1"),
            c("HOME=/nonexistent"),
            c("PATH=/nonexistent"),
            c("LC_ALL=C"),
        ];
        let mut ap: Vec<*const libc::c_char> = args.iter().map(|a| a.as_ptr()).collect();
        ap.push(std::ptr::null());
        let mut ep: Vec<*const libc::c_char> = env.iter().map(|a| a.as_ptr()).collect();
        ep.push(std::ptr::null());
        let cw = c(cwd);
        unsafe {
            let pid = libc::fork();
            if pid < 0 {
                eprintln!("clisim: fork failed");
                libc::_exit(3);
            }
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                libc::personality(0x0040000);
                let n = libc::open(c"/dev/null".as_ptr(), libc::O_RDWR);
                for fd in 0..3 {
                    libc::dup2(n, fd);
                }
                libc::alarm(60);
                if libc::chdir(cw.as_ptr()) == 0 {
                    libc::execve(exe.as_ptr(), ap.as_ptr(), ep.as_ptr());
                }
                libc::_exit(99);
            }
            let mut st = 0;
            while libc::waitpid(pid, &mut st, 0) < 0 {}
            st
        }
    }
}

impl Drop for World {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(std::path::Path::new(&self.root).parent().unwrap());
    }
}
