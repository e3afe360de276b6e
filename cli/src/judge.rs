//! Generators and oracles for K01, K02 and K03.

use crate::model::*;
use crate::run::*;
use crate::scenario::*;
use crate::shared::*;
use crate::spec::{self, Rng};
use std::collections::HashMap;

pub struct Verdict {
    pub class: String,
    pub msg: String,
}

fn v(class: &str, msg: String) -> Option<Verdict> {
    Some(Verdict { class: class.into(), msg })
}

/// The same command on a perfect disk, from a fixed directory, with fixed seeds.
pub fn base(s: &Scenario) -> Scenario {
    Scenario {
        pre: vec![], cwd: 0, hash: 0, clock: 1_700_000_000_000_000_000, irr: 0, p_short: 0, p_eintr: 0, chunk: 0, faults: vec![], cap: -1,
        prop: String::new(),
        ..s.clone()
    }
}

#[derive(Default)]
pub struct Bases {
    cache: HashMap<String, Obs>,
    pub computed: u64,
}

impl Bases {
    pub fn get(&mut self, s: &Scenario, w: &World) -> Obs {
        let b = base(s);
        let k = b.text();
        if let Some(o) = self.cache.get(&k) {
            return o.clone();
        }
        if self.cache.len() > 300 {
            self.cache.clear();
        }
        self.computed += 1;
        let o = w.run(&b);
        self.cache.insert(k, o.clone());
        o
    }
}

fn pal_for(r: &mut Rng) -> (String, usize) {
    let p = match r.below(16) {
        0 => spec::palette(&format!("dup:6:{}", r.below(20))),
        1 => spec::palette(&format!("small:{}:{}", r.range(1, 3), r.below(20))),
        2 | 3 => spec::palette(&format!("box:8:{}", r.below(50))),
        4 | 5 => spec::palette(&format!("tet:4:{}", r.below(50))),
        6 => spec::palette(&format!("ball:{}:{}", r.range(9, 24), r.below(50))),
        _ => spec::palette(&format!("ball:{}:{}", r.range(4, 8), r.below(50))),
    };
    (hex(&p), p.len())
}

/// `cmd_seed` decides the command, `seed` everything else: some faults are tried for every command,
/// whose fault-free run is shared.
pub fn generate(prop: &str, cmd_seed: u64, seed: u64, w: &World, bases: &mut Bases) -> Scenario {
    let r = &mut Rng::new(seed);
    let mut s = Scenario { prop: prop.into(), cap: -1, ..Default::default() };
    let q = &mut Rng::new(cmd_seed);
    s.cmd = if q.chance(2, 5) { "palette" } else { "recolor" }.into();
    let kind = *q.pick(&["rand", "pal", "cube", "grad", "octa", "ball", "prism", "rand", "octa", "ball", "near"]);
    let kind = if q.chance(1, 25) { "gray" } else { kind };
    let (iw, ih) = match q.below(10) {
        0 if s.cmd == "palette" => (q.range(40, 120), q.range(40, 90)),
        0 if q.chance(1, 2) => (q.range(60, 110), q.range(50, 80)),
        0 | 1 => (q.range(12, 40), q.range(8, 30)),
        _ => (q.range(3, 9), q.range(3, 7)),
    };
    let kind = if iw * ih > 150 { *q.pick(&["pal", "cube"]) } else { kind };
    s.img = format!("{kind}:{iw}:{ih}:{}", q.below(60));
    s.enc = q.pick(&["png", "png", "bmp", "ppm", "jpg", "tiff", "qoi", "gif", "tga"]).to_string();
    s.px = q.pick(&["rgb", "rgb", "rgb", "rgb", "rgba", "rgba", "rgb16", "rgb16", "rgb", "gray"]).to_string();
    s.mode = match q.below(if prop == "K03" { 12 } else { 30 }) {
        0 => "missing".into(),
        1 => format!("trunc:{}", q.below(100)),
        2 => q.pick(&["empty", "dir", "garbage:1", "garbage:2"]).to_string(),
        3 => format!("flip:{}", q.below(4000)),
        4 => format!("more:{}", q.log(1.0, 20000.0) as u64),
        _ => "ok".into(),
    };
    let stem = *q.pick(&["a", "photo.final", "x y", "in_channel_0_00FF00", "o", "caf\u{E0E9}", "ロゴ"]);
    s.in_name = format!("{stem}.{}", if q.chance(1, 15) { "png" } else { &s.enc });
    if q.chance(1, 40) {
        s.in_name = "noextension".into();
    }
    let (dp, n) = pal_for(q);
    s.dp = dp;
    let m = if q.chance(1, 20) { n + 1 } else { n };
    s.rp = if q.chance(1, 3) { s.dp.clone() } else { hex(&spec::palette(&format!("any:{m}:{}", q.below(30)))) };
    let ext = *q.pick(&["png", "png", "bmp", "ppm", "jpg", "tiff", "gif", "qoi", "tga", "PNG", "jpeg", "pam"]);
    let ext = if q.chance(1, 9) { *q.pick(&["xyz", "pgm", "webp", "hdr", "ico", "ff", "avif", "exr", "pbm", ""]) } else { ext };
    let ostem = *q.pick(&["r", "out.v2", "two words", "o", "r\u{E0FF}x", "ü"]);
    s.out_name = if ext.is_empty() { ostem.replace('.', "_") } else { format!("{ostem}.{ext}") };
    s.channels = q.chance(1, 2);
    if s.cmd == "palette" {
        if q.chance(1, 2) {
            s.opts.extend(["-e".into(), q.pick(&["0", "0.001", "0.05", "0.3", "1", "0.02", "0.1", "1e-9", "x"]).to_string()]);
        }
        if q.chance(1, 2) {
            s.opts.extend(["-m".into(), q.pick(&["4", "5", "6", "8", "7", "4", "5", "3"]).to_string()]);
        }
        if q.chance(1, 2) {
            s.opts.extend(["--max-size".into(), q.pick(&["4", "7", "12", "255"]).to_string()]);
        }
    }
    if s.cmd == "recolor" {
        match q.below(12) {
            0 => s.dir = "out/new".into(),
            1 => s.dir = "in".into(),
            2 => {
                s.dir = "in".into();
                s.out_name = s.in_name.clone();
            }
            _ => {}
        }
    }
    let b = bases.get(&s, w);
    let n_out = s.outputs().len() as u64;
    if n_out > 0 && r.chance(2, 3) {
        let kinds = if prop == "K02" { vec!["long", "short", "empty"] } else { vec!["long", "short", "long", "dir"] };
        let names = s.outputs();
        for i in 0..n_out {
            if r.chance(1, 2) {
                let k = if r.chance(1, 12) { *r.pick(&kinds) } else { *r.pick(&kinds[..3]) };
                let k = match file(&b.after, &s, &names[i as usize]) {
                    Some(f) if r.chance(1, 4) => format!("len:{}", f.len()),
                    _ => k.into(),
                };
                s.pre.push((i as u32, k));
            }
        }
    }
    s.cwd = r.below(4) as u32;
    s.hash = r.next() >> 1;
    s.clock = *r.pick(&[0u64, 1_700_000_000_000_000_000, 4_000_000_000_000_000_000, 946684800_000000000]);
    let irregular = |r: &mut Rng, s: &mut Scenario| {
        s.irr = r.next() >> 1 | 1;
        s.p_short = *r.pick(&[0u32, 20, 200, 700, 1000]);
        s.p_eintr = *r.pick(&[0u32, 20, 200, 600]);
        s.chunk = *r.pick(&[0u32, 0, 0, 1, 3, 64, 512, 4096]);
        if s.chunk > 0 && s.chunk < 64 && b.bytes.0 + b.bytes.1 > 20_000 {
            s.chunk = 512;
        }
    };
    let n = b.ops.len() as u64;
    let by = |ty: u8| b.ops.iter().enumerate().filter(|o| o.1.ty == ty).map(|o| o.0 as u64).collect::<Vec<_>>();
    let spot = |r: &mut Rng| -> u64 {
        match r.below(6) {
            0 => r.below(n + 2),
            k => {
                let c = by([O_OPENR, O_OPENW, O_READ, O_WRITE, O_STDOUT][k as usize - 1]);
                if c.is_empty() { r.below(n.max(1)) } else { *r.pick(&c) }
            }
        }
    };
    let errno = |r: &mut Rng, ty: u8| -> i64 {
        (match ty {
            O_OPENR => *r.pick(&[libc::EACCES, libc::EMFILE, libc::EIO, libc::ENOENT, libc::ENFILE]),
            O_OPENW => *r.pick(&[libc::EACCES, libc::ENOSPC, libc::EROFS, libc::EMFILE, libc::EDQUOT, libc::EIO]),
            O_READ => *r.pick(&[libc::EIO, libc::EIO, libc::ENOMEM]),
            O_WRITE => *r.pick(&[libc::ENOSPC, libc::EIO, libc::EDQUOT, libc::EFBIG]),
            O_STDOUT => *r.pick(&[libc::EPIPE, libc::EIO, libc::ENOSPC]),
            _ => libc::EIO,
        }) as i64
    };
    let ty_at = |k: u64| b.ops.get(k as usize).map_or(0, |o| o.ty);
    match prop {
        "K01" => {
            if r.chance(1, 3) {
                irregular(r, &mut s);
            }
            for _ in 0..r.range(0, 2) {
                let k = spot(r);
                let ty = ty_at(k);
                if r.chance(1, 3) && (ty == O_WRITE || ty == O_STDOUT) {
                    // a part is written first
                    let len = b.ops[k as usize].req;
                    s.faults.push((k as u32, F_SHORT, r.below(len.max(1) as u64) as i64));
                    s.faults.push((k as u32 + 1, F_ERR, errno(r, ty)));
                } else if r.chance(1, 4) {
                    // (where the message goes is spared)
                    let t = if ty == 0 || ty == O_STDERR { O_WRITE } else { ty };
                    s.faults.push((k as u32, F_ERR_ON, (t as i64) << 16 | errno(r, t)));
                } else {
                    s.faults.push((k as u32, F_ERR, errno(r, ty)));
                }
            }
            if r.chance(1, 3) {
                s.cap = match r.below(4) {
                    0 => 0,
                    1 => r.below(b.bytes.1 + 1) as i64,
                    2 => b.bytes.1 as i64 - r.below(5) as i64,
                    _ => r.log(1.0, b.bytes.1 as f64 + 2.0) as i64,
                }
                .max(0);
            }
        }
        "K02" => {
            if r.chance(7, 8) {
                irregular(r, &mut s);
            }
        }
        _ => {
            if r.chance(1, 4) {
                irregular(r, &mut s);
            }
            match r.below(5) {
                0 => {}
                1 | 2 => {
                    let k = spot(r);
                    if r.chance(1, 2) {
                        s.faults.push((k as u32, F_KILL, 0));
                    } else {
                        let len = b.ops.get(k as usize).map_or(0, |o| o.req).max(1);
                        s.faults.push((k as u32, F_KILL_MID, r.below(len as u64 + 1) as i64));
                    }
                }
                3 => {
                    let k = spot(r);
                    let e = errno(r, ty_at(k));
                    s.faults.push((k as u32, F_ERR, e));
                }
                _ => {
                    let c = [by(O_OPENR), by(O_READ), by(O_SEEK)].concat();
                    if !c.is_empty() {
                        let k = *r.pick(&c);
                        let e = errno(r, ty_at(k));
                        s.faults.push((k as u32, F_ERR, e));
                    }
                    if r.chance(1, 3) {
                        s.cap = r.below(b.bytes.1 + 2) as i64;
                    }
                }
            }
        }
    }
    s
}

fn same_image(got: &[u8], want: &[u8], name: &str) -> bool {
    if got == want {
        return true;
    }
    let Some(f) = Scenario::format(name) else { return false };
    match (image::load_from_memory_with_format(got, f), image::load_from_memory_with_format(want, f)) {
        (Ok(a), Ok(b)) => a.width() == b.width() && a.height() == b.height() && a.to_rgba8() == b.to_rgba8(),
        _ => false,
    }
}

fn file<'a>(t: &'a Tree, s: &Scenario, n: &str) -> Option<&'a [u8]> {
    match t.get(&format!("{}/{n}", s.dir())) {
        Some(Node::File(b)) => Some(b),
        _ => None,
    }
}

/// Why the outputs are not complete.
fn incomplete(s: &Scenario, e: &Expect, o: &Obs) -> Option<String> {
    match e {
        Expect::Fail(w) => Some(format!("it can't succeed ({w})")),
        Expect::Palette(p) => {
            let t = String::from_utf8_lossy(&o.out);
            if t.contains('\n') && t.lines().any(|l| l == p) && (t.ends_with(&format!("{p}\n")) || t.contains(&format!("{p}\n"))) {
                None
            } else {
                Some(format!("the palette {p} was not completely written to standard output"))
            }
        }
        Expect::Images(v) => {
            for (n, want) in s.outputs().iter().zip(v) {
                match file(&o.after, s, n) {
                    None => return Some(format!("{n} does not exist")),
                    Some(got) if !same_image(got, want, n) => {
                        return Some(format!("{n} ({} bytes) is not the image that the library computes ({} bytes)", got.len(), want.len()))
                    }
                    _ => {}
                }
            }
            None
        }
        Expect::Unknown(_) => None,
    }
}

pub fn judge(s: &Scenario, e: &Expect, o: &Obs, b: Option<&Obs>) -> Option<Verdict> {
    if o.exit() == Some(98) || o.exit() == Some(99) {
        return v("harness", "the tool can't be started".into());
    }
    let endless = o.violation == V_ENDLESS || o.signal() == Some(libc::SIGALRM);
    match s.prop.as_str() {
        "K01" => {
            if matches!(e, Expect::Unknown(_)) {
                return None;
            }
            if endless {
                return v("endless", "the tool does not end after an error".into());
            }
            if o.exit() == Some(0) {
                if let Some(w) = incomplete(s, e, o) {
                    return v("false-success", format!("the tool reports success, but {w}"));
                }
                // (attributes, positions and closing: the standard library goes on without them)
                let ours = |x: &Op| match x.ty {
                    O_STDOUT => true,
                    O_OPENR | O_READ => (x.ty == O_OPENR || x.req > 0) && x.path >= 0 && o.paths[x.path as usize] == format!("in/{}", s.in_name),
                    O_OPENW | O_WRITE => x.path >= 0 && s.outputs().iter().any(|n| o.paths[x.path as usize] == format!("{}/{n}", s.dir())),
                    _ => false,
                };
                if let Some(x) = o.ops.iter().find(|x| x.err != 0 && (x.inj == F_ERR as u8 || x.inj == F_ERR_ON as u8) && ours(x)) {
                    return v("ignored-error", format!("the tool reports success, although an error was reported for the {} of {}", OPS[x.ty as usize],
                        if x.path >= 0 { &o.paths[x.path as usize] } else { "standard output" }));
                }
            } else if o.signal().is_some() && !o.killed && o.signal() != Some(libc::SIGABRT) {
                return v("crash", format!("the tool ends with {}", o.ended()));
            } else if !o.killed && o.err.is_empty() && o.out.is_empty() && o.violation == 0 {
                return v("silent", format!("the tool ends with {} and without any message", o.ended()));
            }
            None
        }
        "K02" => {
            let b = b?;
            if matches!(e, Expect::Unknown(_)) || b.violation == V_ENDLESS || b.signal().is_some() {
                return None;
            }
            if endless {
                return v("endless", "the tool does not end".into());
            }
            if b.status != o.status {
                return v("status", format!("the tool ends with {} instead of {}", o.ended(), b.ended()));
            }
            if b.out != o.out {
                return v("stdout", format!("standard output is {:?} instead of {:?}", String::from_utf8_lossy(&o.out), String::from_utf8_lossy(&b.out)));
            }
            if o.exit() == Some(0) {
                for n in s.outputs() {
                    let (x, y) = (file(&o.after, s, &n), file(&b.after, s, &n));
                    if x != y {
                        let l = |z: Option<&[u8]>| z.map_or("missing".into(), |z| format!("{} bytes", z.len()));
                        return v("bytes", format!("{n} differs: {} instead of {}", l(x), l(y)));
                    }
                }
            }
            None
        }
        _ => {
            if o.violation == V_ESCAPE {
                return v("foreign", format!("a file that is not an output was {}", o.msg));
            }
            let outs = s.outputs();
            let allowed = |p: &str| p.strip_prefix(s.dir()).and_then(|n| n.strip_prefix('/')).map_or(false, |n| outs.iter().any(|x| x == n));
            for (p, m) in o.paths.iter().zip(&o.made) {
                if *m && !allowed(p) {
                    return v("foreign", format!("{p} was created, removed or replaced; it is not an output"));
                }
            }
            for p in o.before.keys().chain(o.after.keys()) {
                if !allowed(p) && o.before.get(p) != o.after.get(p) {
                    return v("foreign", format!("{p} was {}; it is not an output", match (o.before.get(p), o.after.get(p)) {
                        (None, _) => "created",
                        (_, None) => "removed",
                        _ => "changed",
                    }));
                }
            }
            let input = format!("in/{}", s.in_name);
            // (a position that is not known doesn't keep the input from being read)
            let read_failed = o.exit() != Some(0)
                && o.ops.iter().any(|x| {
                    x.inj == F_ERR as u8 && x.err != 0 && (x.ty == O_OPENR || (x.ty == O_READ && x.req > 0)) && x.path >= 0 && o.paths[x.path as usize] == input
                });
            let why = match e {
                Expect::Fail(w) => Some(w.clone()),
                _ if read_failed => Some("the input can't be read".into()),
                _ => None,
            };
            if let Some(w) = why {
                for n in &outs {
                    let p = format!("{}/{n}", s.dir());
                    if o.before.contains_key(&p) && o.before.get(&p) != o.after.get(&p) {
                        return v("spoiled", format!("the existing {n} was changed although the run can't succeed ({w})"));
                    }
                }
            }
            None
        }
    }
}
