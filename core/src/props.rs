//! Generators and oracles, property by property.

use crate::exec::*;
use crate::ffi::*;
use crate::ops::*;
use crate::spec::{self, hash_str, mix, Rng};

/// Images with pixels that are only found after the search's tolerance has been widened.
const WIDENING: [&str; 22] = [
    "line:6:5:8793", "line:8:8:118", "mono:3:4:6260", "mono:4:4:1627", "mono:4:4:17401", "mono:6:5:10998",
    "mono:6:5:11707", "mono:6:5:16633", "mono:8:8:1643", "mono:8:8:5357", "text:3:4:1334", "text:4:4:11077",
    "text:4:4:19585", "text:4:4:3983", "text:4:4:6523", "text:6:5:3834", "text:6:5:6283", "text:6:5:8955",
    "text:8:8:2653", "tri:3:4:13496", "tri:6:5:2793", "tri:6:5:6440",
];

pub struct Pool {
    imgs: Vec<String>,
    bad_imgs: Vec<String>,
    pals: Vec<String>,
    bad_pals: Vec<String>,
    pts: Vec<(usize, String)>,
    bad_pts: Vec<(usize, String)>,
    errs: Vec<String>,
    nest: bool,
}

fn err_bound(r: &mut Rng) -> String {
    match r.below(6) {
        0 => "0".into(),
        1 => "0.01".into(),
        2 => "0.1".into(),
        3 => "1".into(),
        _ => format!("0x{:016x}", r.log(1e-6, 0.5).to_bits()),
    }
}

impl Pool {
    pub fn new(r: &mut Rng) -> Pool {
        let (mut w, mut h) = (r.range(2, 7), r.range(2, 5));
        let mut kinds = vec!["rand", "grad", "pal", "cube", "octa", "prism", "ball", "near", "text", "mono", "photo", "tri", "shell"];
        match r.below(40) {
            0 => {
                w = r.range(8, 16);
                h = r.range(5, 9);
                kinds = vec!["pal", "cube", "grad", "rand"];
            }
            1 => {
                w = r.range(20, 40);
                h = r.range(2, 4);
                kinds = vec!["pal", "cube", "grad"];
            }
            2 => {
                w = 2;
                h = r.range(12, 30);
                kinds = vec!["pal", "cube", "near"];
            }
            3 => {
                w = 16;
                h = 16;
                kinds = vec!["pal", "cube"];
            }
            _ => {}
        }
        if w * h < 7 {
            w += 3;
        }
        let mut imgs: Vec<String> = vec![];
        for i in 0..r.range(2, 4) {
            if i > 0 && r.chance(1, 2) {
                let b = imgs[0].clone();
                let m = match r.below(5) {
                    0 => format!("{b}:m{}", r.below(w * h)),
                    4 => format!("{b}:x{}", r.below(w * h)),
                    1 => format!("{b}:r"),
                    2 => format!("{b}:s{}", r.below(w * h)),
                    _ => format!("{b}:m{}", w * h - 1),
                };
                imgs.push(m);
            } else {
                let (mut w2, mut h2) = (w, h);
                if i > 0 && r.chance(1, 4) {
                    if r.chance(1, 2) {
                        std::mem::swap(&mut w2, &mut h2);
                    } else if w2 * h2 < 40 {
                        w2 += 1;
                    }
                }
                imgs.push(if r.chance(1, 14) {
                    r.pick(&WIDENING).to_string()
                } else {
                    format!("{}:{w2}:{h2}:{}", r.pick(&kinds), r.below(400))
                });
            }
        }
        let bad_imgs = vec![
            format!("flat:{w}:{h}:{}", r.below(9)),
            format!("gray:{w}:{h}:{}", r.below(9)),
            format!("plane:{w}:{h}:{}", r.below(9)),
            format!("rand:1:{}:{}", r.range(1, 6), r.below(9)),
        ];
        let mut pals: Vec<String> = vec![];
        for i in 0..r.range(2, 4) {
            if i > 0 && r.chance(1, 2) {
                let b = pals[0].clone();
                pals.push(if r.chance(1, 2) { format!("{b}:p{}", r.range(1, 3)) } else { format!("{b}:m{}", r.below(8)) });
            } else {
                pals.push(match r.below(5) {
                    0 => "cube:8:0".into(),
                    1 => format!("box:8:{}", r.below(50)),
                    2 => format!("tet:4:{}", r.below(50)),
                    _ if r.chance(1, 10) => format!("ball:{}:{}", if r.chance(1, 4) { r.range(25, 100) } else { r.range(10, 25) }, r.below(50)),
                    _ => format!("ball:{}:{}", r.range(4, 9), r.below(50)),
                });
            }
        }
        let bad_pals = vec![
            format!("dup:6:{}", r.below(20)),
            format!("twice:6:{}", r.below(20)),
            format!("flat:{}:{}", r.range(4, 7), r.below(20)),
            format!("small:{}:{}", r.below(4), r.below(20)),
        ];
        let mut pts = vec![];
        let n = r.range(8, 24);
        for _ in 0..r.range(2, 3) {
            let d = *r.pick(&[2usize, 3, 3, 4, 5]);
            let k = *r.pick(&["rand", "grid", "lattice", "sphere", "clust", "simplex", "twice", "big"]);
            let n = match r.below(12) {
                0 => r.range(30, 70),
                1..=4 => r.range(8, 30),
                _ => n,
            };
            pts.push((d, format!("{k}:{}:{}", n.max(d as u64 + 3), r.below(200))));
        }
        let d = *r.pick(&[2usize, 3, 5]);
        let bad_pts = vec![(d, format!("flat:{}:{}", r.range(7, 15), r.below(20))), (d, format!("few:{d}:{}", r.below(20)))];
        let errs = (0..2).map(|_| err_bound(r)).collect();
        Pool { imgs, bad_imgs, pals, bad_pals, pts, bad_pts, errs, nest: true }
    }

    fn img(&self, r: &mut Rng, bad: u64) -> String {
        if r.chance(bad, 100) { r.pick(&self.bad_imgs).clone() } else { r.pick(&self.imgs).clone() }
    }
    fn pal(&self, r: &mut Rng, bad: u64) -> String {
        if r.chance(bad, 100) { r.pick(&self.bad_pals).clone() } else { r.pick(&self.pals).clone() }
    }
    fn pal2(&self, r: &mut Rng, pal: &str) -> String {
        let n = spec::palette(pal).len();
        if r.chance(1, 5) {
            return pal.to_string();
        }
        let n = if r.chance(1, 25) { n + 1 } else { n };
        format!("any:{n}:{}", r.below(6))
    }
    fn pts(&self, r: &mut Rng, bad: u64) -> (usize, String) {
        if r.chance(bad, 100) { r.pick(&self.bad_pts).clone() } else { r.pick(&self.pts).clone() }
    }
    fn eps(&self, r: &mut Rng) -> &'static str {
        *r.pick(&["1e-10", "1e-10", "1e-8", "1e-4", "2.220446049250313e-16"])
    }

    /// One operation of the Rust interface.
    fn op(&self, r: &mut Rng, kinds: &[&str], bad: u64, fail: u64) -> String {
        let mut o = match *r.pick(kinds) {
            "pal" => {
                let min = r.range(3, 8);
                let max = if r.chance(1, 10) { r.range(1, 4) } else { min + r.below(8) };
                format!("pal {} {min} {max} {}", self.img(r, bad), r.pick(&self.errs))
            }
            "wts" => format!("wts {}", self.img(r, bad)),
            "dec" => {
                let p = self.pal(r, bad);
                format!("dec {} {p} {}", self.img(r, bad), self.pal2(r, &p))
            }
            k @ ("hul" | "hui" | "rhu" | "rhv" | "tri" | "rtr" | "rtv") => {
                let (d, p) = self.pts(r, bad);
                format!("{k} {d} {p}")
            }
            "loc" => {
                let (d, p) = self.pts(r, bad);
                format!("loc {d} {p} {}:{} {}", r.range(1, 30), r.below(50), self.eps(r))
            }
            k => panic!("{k}"),
        };
        if r.chance(fail, 100) && (o.starts_with("pal") || o.starts_with("wts") || o.starts_with("dec")) {
            let f: Vec<&str> = o.split(&[' ', ':'][..]).collect();
            let n = f[2].parse::<u64>().unwrap() * f[3].parse::<u64>().unwrap();
            let k = match r.below(4) {
                0 => r.below(3),
                1 => n.saturating_sub(1) + r.below(3),
                _ => r.below(2 * n + 1),
            };
            o += &format!(" +f{k}");
        } else if self.nest && r.chance(1, 12) && (o.starts_with("pal") || o.starts_with("wts") || o.starts_with("dec")) {
            // the image source calls the library itself while it is read
            let f: Vec<&str> = o.split(&[' ', ':'][..]).collect();
            let n = f[2].parse::<u64>().unwrap() * f[3].parse::<u64>().unwrap();
            o += &format!(" +n{}:{}", r.below(2 * n), r.below(8));
        }
        o
    }

    /// The same operation with one argument changed.
    fn sibling(&self, r: &mut Rng, op: &str) -> String {
        let (a, _) = split_flags(op);
        let mut a: Vec<String> = a.iter().map(|s| s.to_string()).collect();
        let vary = |r: &mut Rng, img: &str| {
            if img.starts_with('@') {
                return img.to_string();
            }
            match r.below(6) {
                0 => format!("{img}:m{}", r.below(30)),
                1 => format!("{img}:r"),
                2 => format!("{img}:s{}", r.below(30)),
                3 => self.img(r, 5),
                _ => format!("{img}:x{}", r.below(30)),
            }
        };
        match (a[0].as_str(), r.below(3)) {
            ("pal", 0) => a[1] = vary(r, &a[1]),
            ("pal", 1) => {
                let k = r.range(2, 3) as usize;
                let n: u64 = a[k].parse().unwrap();
                a[k] = if r.chance(1, 2) { n + r.range(1, 3) } else { n.saturating_sub(r.range(1, 3)).max(1) }.to_string();
            }
            ("pal", _) => a[4] = if r.chance(1, 2) { err_bound(r) } else { r.pick(&self.errs).clone() },
            ("wts", _) => a[1] = vary(r, &a[1]),
            ("dec", 0) => a[1] = vary(r, &a[1]),
            ("dec", 1) => {
                let n = spec::palette(&a[2]).len();
                let p = if r.chance(1, 2) { format!("{}:p{}", a[2], r.range(1, 3)) } else { format!("{}:m{}", a[2], r.below(8)) };
                let p = if r.chance(1, 4) { self.pal(r, 10) } else { p };
                if spec::palette(&p).len() != n {
                    a[3] = self.pal2(r, &p);
                }
                a[2] = p;
            }
            ("dec" | "rec", _) => {
                let k = a.len() - 1;
                let f: Vec<String> = a[k].split(':').map(|s| s.to_string()).collect();
                if f[0] == "any" {
                    a[k] = format!("any:{}:{}", f[1], r.below(12));
                }
            }
            ("hul" | "hui" | "rhu" | "rhv" | "tri" | "rtr" | "rtv", _) => {
                let k = *r.pick(&["hul", "hui", "rhu", "rhv", "tri", "rtr", "rtv"]);
                a[0] = k.into();
            }
            ("loc", 0) if !a[1].starts_with('@') => a[4] = self.eps(r).into(),
            ("loc", _) => {
                let k = a.len() - 2;
                a[k] = format!("{}:{}", r.range(1, 30), r.below(50));
            }
            _ => {}
        }
        a.join(" ")
    }

    fn setup(&self, r: &mut Rng, n: u64) -> Vec<String> {
        (0..n)
            .map(|_| match r.below(5) {
                0 | 1 => format!("W {}", r.pick(&self.imgs)),
                2 => format!("D {} {}", r.pick(&self.imgs), r.pick(&self.pals)),
                3 => {
                    let (d, p) = r.pick(&self.pts);
                    format!("T {d} {p}")
                }
                _ => {
                    let (d, p) = r.pick(&self.pts);
                    format!("H {d} {p}")
                }
            })
            .collect()
    }

    /// An operation on a shared object.
    fn shared_op(&self, r: &mut Rng, setup: &[String], bad: u64) -> Option<String> {
        if setup.is_empty() {
            return None;
        }
        let i = r.below(setup.len() as u64) as usize;
        let w: Vec<&str> = setup[i].split(' ').collect();
        Some(match w[0] {
            "W" => {
                let p = self.pal(r, bad);
                format!("dec @{i} {p} {}", self.pal2(r, &p))
            }
            "D" => format!("rec @{i} {}", self.pal2(r, w[2])),
            "H" => format!("hq @{i}"),
            "T" => {
                if r.chance(1, 4) {
                    format!("tq @{i}")
                } else {
                    format!("loc @{i} {}:{} {}", r.range(1, 40), r.below(50), self.eps(r))
                }
            }
            _ => return None,
        })
    }
}

pub fn rand_env(r: &mut Rng) -> Env {
    Env {
        heap_seed: r.next() >> 1,
        base: r.below(1 << 18),
        reuse: r.below(3) as u32,
        fill_alloc: r.below(5) as u32,
        fill_free: r.below(3) as u32,
        pad: *r.pick(&[0u32, 0, 1, 7, 40]),
        two: r.below(2) as u32,
        hash: r.next() >> 1,
        clock: *r.pick(&[0u64, 1_700_000_000_000_000_000, 4_000_000_000_000_000_000, 946684800_000000000]),
        rate: *r.pick(&[0u64, 0, 1, 1000, 1_000_000, 1_000_000_000]),
        jump: *r.pick(&[0u32, 0, 20, 200, 1000]),
        cpus: *r.pick(&[0u32, 1, 2, 3, 7, 64, 256]),
    }
}

fn rand_sched(r: &mut Rng, total: u64) -> Sched {
    let mut s = Sched { seed: r.next() >> 1, est: total.max(1), ..Default::default() };
    match r.below(10) {
        0..=2 => {
            s.mode = 1;
            let lo = (total / 3000).max(20) as f64;
            s.mean = r.log(lo, (total as f64).max(lo * 2.0)) as u64;
        }
        3..=5 => {
            s.mode = 2;
            s.points = r.range(1, 60) as u32;
        }
        6..=7 => {
            s.mode = 2;
            s.points = r.range(1, 30) as u32;
            s.burst_len = r.range(2, 60) as u32;
            s.burst_mean = *r.pick(&[2u32, 5, 20, 100, 1000]);
        }
        _ => {
            s.mode = 2;
            s.points = r.range(0, 10) as u32;
            s.newedge = *r.pick(&[5u32, 20, 60, 200]);
        }
    }
    if r.chance(1, 3) {
        s.newedge = s.newedge.max(*r.pick(&[2u32, 10, 50]));
    }
    if r.chance(1, 3) {
        s.evp = *r.pick(&[1u32, 5, 30]);
    }
    s
}

fn subset<'a>(r: &mut Rng, all: &[&'a str]) -> Vec<&'a str> {
    loop {
        let v: Vec<&str> = all.iter().filter(|_| r.chance(1, 2)).copied().collect();
        if !v.is_empty() {
            return v;
        }
    }
}

const ALL: [&str; 11] = ["pal", "dec", "dec", "wts", "hul", "hui", "tri", "loc", "rhu", "rtr", "rhv"];

/// Error bounds on both sides of a decision of the palette computation, as adjacent numbers.
fn thresholds(r: &mut Rng, refs: &mut Refs, sim: &Sim, img: &str, min: u64, max: u64) -> Option<(String, String)> {
    let op = |b: u64| format!("pal {img} {min} {max} 0x{b:016x}");
    let hi_v = if r.chance(1, 2) { 1.0 } else { r.log(1e-4, 0.6) };
    let (mut lo, mut hi) = (0f64.to_bits(), hi_v.to_bits());
    let (mut a, mut b) = (refs.get(sim, &op(lo)), refs.get(sim, &op(hi)));
    if a.kind != K_OK || b.kind != K_OK || a.same(&b) || a.steps > 20_000_000 {
        return None;
    }
    while hi - lo > 1 {
        let m = lo + (hi - lo) / 2;
        let c = refs.get(sim, &op(m));
        if c.same(&a) || (!c.same(&b) && r.chance(1, 2)) {
            lo = m;
            a = c;
        } else {
            hi = m;
            b = c;
        }
    }
    Some((format!("0x{lo:016x}"), format!("0x{hi:016x}")))
}

fn max_refs(sc: &Scenario, refs: &mut Refs, sim: &Sim) -> (u64, Vec<Vec<Option<Outcome>>>) {
    let mut total = 0;
    let v = sc
        .refs()
        .iter()
        .map(|t| {
            t.iter()
                .map(|o| {
                    o.as_ref().map(|o| {
                        let x = refs.get(sim, o);
                        total += x.steps;
                        x
                    })
                })
                .collect()
        })
        .collect();
    (total, v)
}

/// Removes the operations whose reference satisfies `f`.
fn drop_ops(sc: &mut Scenario, refs: &mut Refs, sim: &Sim, f: impl Fn(&Outcome) -> bool) {
    for _ in 0..2 {
        let (_, v) = max_refs(sc, refs, sim);
        for (t, ops) in sc.threads.iter_mut().enumerate() {
            let mut i = 0;
            ops.retain(|_| {
                let k = v[t][i].as_ref().map_or(true, |o| !f(o));
                i += 1;
                k
            });
        }
    }
    while !sc.well_formed() {
        let v = sc.refs();
        for (t, ops) in sc.threads.iter_mut().enumerate() {
            let mut i = 0;
            ops.retain(|o| {
                i += 1;
                v[t][i - 1].is_some() || !needs_reference(o)
            });
        }
    }
}

fn c_history(r: &mut Rng, p: &Pool, setup: &[String], n: u64, refs: &mut Refs, sim: &Sim) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    let mut sl = Slots::default();
    // operations that are to come next
    let mut plan: Vec<String> = vec![];
    for _ in 0..n {
        let ws: Vec<usize> = (0..8).filter(|i| sl.w[*i].is_some()).collect();
        let ds: Vec<usize> = (0..8).filter(|i| sl.d[*i].is_some()).collect();
        let cws: Vec<usize> = (0..setup.len()).filter(|i| setup[*i].starts_with("CW")).collect();
        let cds: Vec<usize> = (0..setup.len()).filter(|i| setup[*i].starts_with("CD")).collect();
        let follow = out.last().filter(|o| (o.starts_with("cr") || o.starts_with("cg")) && !o.contains('@') && r.chance(1, 4)).cloned();
        if let (Some(o), true) = (follow, plan.is_empty()) {
            // the object is replaced by one like it, and the same is asked of that
            let k: usize = o.split(' ').nth(1).unwrap().parse().unwrap();
            let (i, pal) = sl.d[k].clone().unwrap();
            let m = spec::image(&i);
            let like: Vec<usize> = ws
                .iter()
                .filter(|w| {
                    let n = spec::image(sl.w[**w].as_ref().unwrap());
                    (n.w, n.h) == (m.w, m.h)
                })
                .copied()
                .collect();
            let pal2 = match r.below(3) {
                0 => format!("{pal}:p{}", r.range(1, 3)),
                1 => format!("{pal}:m{}", r.below(8)),
                _ => pal,
            };
            plan.push(o);
            let w = if like.is_empty() || r.chance(1, 2) { r.below(3) as usize } else { *r.pick(&like) };
            plan.push(format!("cd {k} {w} {pal2}"));
            let cw = format!("cw {w} {i}:{}", match r.below(3) {
                0 => "r".into(),
                1 => format!("x{}", r.below(20)),
                _ => format!("m{}", r.below(20)),
            });
            let new = !like.contains(&w);
            if new && r.chance(1, 2) {
                plan.push(cw.clone());
            }
            plan.push(format!("fd {k}"));
            if new && plan.len() == 3 {
                plan.push(cw);
            }
        }
        let op = match r.below(12) {
            _ if !plan.is_empty() => {
                let o = plan.pop().unwrap();
                let w: Vec<&str> = o.split(' ').collect();
                match w[0] {
                    "cr" | "cg" => match sl.d[w[1].parse::<usize>().unwrap()].as_ref() {
                        Some((i, _)) => format!("{} {} {} {}", w[0], w[1], w[2], dims(i)),
                        None => continue,
                    },
                    _ => o,
                }
            }
            0 | 1 => {
                let s = r.below(3);
                format!("cw {s} {}", p.img(r, 0))
            }
            2 | 3 => {
                let s = r.below(4);
                let w = if !cws.is_empty() && (ws.is_empty() || r.chance(1, 2)) {
                    format!("@{}", r.pick(&cws))
                } else if !ws.is_empty() {
                    r.pick(&ws).to_string()
                } else {
                    continue;
                };
                format!("cd {s} {w} {}", p.pal(r, 25))
            }
            4 | 5 | 6 | 7 | 8 => {
                let (h, i, pal) = if !cds.is_empty() && (ds.is_empty() || r.chance(1, 2)) {
                    let k = *r.pick(&cds);
                    let w: Vec<&str> = setup[k].split(' ').collect();
                    (format!("@{k}"), w[1].to_string(), w[2].to_string())
                } else if !ds.is_empty() {
                    let k = *r.pick(&ds);
                    let (i, pal) = sl.d[k].clone().unwrap();
                    (k.to_string(), i, pal)
                } else {
                    continue;
                };
                let n = spec::palette(&pal).len() as u64;
                match r.below(5) {
                    0 => format!("cq {h}"),
                    1 | 2 => format!("cr {h} any:{n}:{} {}", r.below(6), dims(&i)),
                    _ => {
                        let c = match r.below(16) {
                            0 => n,
                            1 => r.pick(&[n + 1, 127, 128, 129, 254, 255]).to_owned(),
                            2 => r.below(256),
                            // a valid number and one of the higher bits
                            3 => (r.below(n) + (16 << r.below(4))).min(255),
                            _ => r.below(n),
                        };
                        format!("cg {h} {c} {}", dims(&i))
                    }
                }
            }
            9 => format!("cp {} {} {} {}", p.img(r, 0), r.range(3, 8), r.range(3, 12), r.pick(&p.errs)),
            10 if !ws.is_empty() => format!("fw {}", r.pick(&ws)),
            11 if !ds.is_empty() => format!("fd {}", r.pick(&ds)),
            _ => continue,
        };
        // only well-formed histories: slots are followed here as well
        let before = sl.clone();
        match reference(&op, setup, &mut sl) {
            Some(rf) => {
                if op.starts_with("cd") {
                    // whether there is a handle must be as expected
                    let o = refs.get(sim, &rf);
                    let w: Vec<&str> = op.split(' ').collect();
                    let have = sl.d[w[1].parse::<usize>().unwrap()].is_some();
                    if o.kind != if have { K_OK } else { K_ERR } {
                        sl = before;
                        continue;
                    }
                } else if op.starts_with("cw") && refs.get(sim, &rf).kind != K_OK {
                    sl = before;
                    continue;
                }
                out.push(op);
            }
            None if op.starts_with('f') => out.push(op),
            None => sl = before,
        }
    }
    out
}

/// An object that clients of the C interface share, if it can be made.
fn c_setup(r: &mut Rng, p: &Pool, setup: &mut Vec<String>, refs: &mut Refs, sim: &Sim) {
    let (i, q) = (r.pick(&p.imgs).clone(), r.pick(&p.pals).clone());
    if r.chance(1, 2) {
        if refs.get(sim, &format!("wts {i}")).kind == K_OK {
            setup.push(format!("CW {i}"));
        }
    } else if refs.get(sim, &format!("rq {i} {q}")).kind == K_OK {
        setup.push(format!("CD {i} {q}"));
    }
}

/// The k-th of a fixed set of small operations.
fn few_ops(k: u64) -> String {
    let mut r = Rng::new(k + 0x5004);
    let mut p = Pool::new(&mut r);
    p.nest = false;
    let mut best = String::new();
    let mut least = u64::MAX;
    for _ in 0..6 {
        let o = p.op(&mut r, &["pal", "pal", "dec", "wts", "loc", "tri", "hul", "rtr"], 0, 0);
        // the number of pixels or points
        let n = match o.split(' ').next() {
            Some("pal" | "wts" | "dec") => o.split(' ').nth(1).map_or(0, |i| i.split(':').skip(1).take(2).map(|x| x.parse::<u64>().unwrap_or(9)).product()),
            _ => o.split(' ').nth(2).and_then(|i| i.split(':').nth(1)).and_then(|x| x.parse().ok()).unwrap_or(0),
        };
        if n < least {
            least = n;
            best = o;
        }
    }
    best
}

/// The life of some handles of the C interface.
fn few_c_ops(r: &mut Rng) -> Vec<String> {
    let (i, s) = (r.below(8), r.below(4));
    let img = ["cube", "tet", "rand", "prism"][(i % 4) as usize];
    let (w, h) = (3 + i % 2, 4 - i % 2);
    let img = format!("{img}:{w}:{h}:{i}");
    vec![
        format!("cw 0 {img}"),
        format!("cd 0 0 tet:4:{s}"),
        "cq 0".into(),
        format!("cr 0 any:4:{s} {w}x{h}"),
        format!("cg 0 {s} {w}x{h}"),
        format!("cp {img} 4 6 0.1"),
        "fd 0".into(),
        format!("cd 0 0 tet:4:{}", s + 1),
        format!("cg 0 1 {w}x{h}"),
    ]
}

pub fn generate(prop: &str, seed: u64, refs: &mut Refs, sim: &Sim) -> Scenario {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let mut p = Pool::new(r);
    p.nest = prop != "L04";
    let mut sc = Scenario { prop: prop.into(), reps: 1, env: rand_env(r), ..Default::default() };
    match prop {
        "L01" | "L05" | "L08" => {
            let nt = *r.pick(&[2u64, 2, 2, 3, 3, 4]);
            let kinds = subset(r, &ALL);
            let n_setup = r.below(4);
            sc.setup = p.setup(r, n_setup);
            let (bad, fail) = match prop {
                "L05" => (r.range(10, 60), r.range(10, 60)),
                "L08" => (5, 15),
                _ => (3, 3),
            };
            let same = r.chance(1, 4);
            for t in 0..nt {
                if same && t > 0 {
                    // everyone does the same
                    let o = sc.threads[0].clone();
                    sc.threads.push(o);
                    continue;
                }
                let mut ops = vec![];
                for _ in 0..r.range(1, 4) {
                    let earlier: Vec<&String> = sc.threads.iter().flatten().chain(&ops).collect();
                    if !earlier.is_empty() && r.chance(1, 6) {
                        let o = r.pick(&earlier).to_string();
                        ops.push(p.sibling(r, &o));
                        continue;
                    }
                    let o = if r.chance(1, 2) { p.shared_op(r, &sc.setup, bad) } else { None };
                    ops.push(o.unwrap_or_else(|| p.op(r, &kinds, bad, fail)));
                }
                sc.threads.push(ops);
            }
            if prop == "L08" || r.chance(1, 8) {
                for t in sc.threads.iter_mut() {
                    for o in t.iter_mut() {
                        let img = o.starts_with("pal") || o.starts_with("wts") || (o.starts_with("dec") && !o.contains('@'));
                        if img && r.chance(1, 4) {
                            *o += " +slow";
                        }
                    }
                }
            }
            if prop != "L05" {
                drop_ops(&mut sc, refs, sim, |o| o.kind == K_CRASH && o.steps < REF_BUDGET);
            }
            let (total, rf) = max_refs(&sc, refs, sim);
            sc.sched = rand_sched(r, total);
            if prop == "L08" && r.chance(3, 4) {
                // one of the threads stalls, or all but one do
                let mut who: Vec<u64> = (0..nt).collect();
                let wait = r.chance(1, 3);
                if wait {
                    sc.sched.newedge = sc.sched.newedge.max(*r.pick(&[5, 30, 100, 300]));
                }
                while !wait && who.len() as u64 > if r.chance(1, 3) { nt - 1 } else { 1 } {
                    who.remove(r.below(who.len() as u64) as usize);
                }
                for t in who {
                    let steps: Vec<u64> = rf[t as usize].iter().flatten().map(|o| o.steps).collect();
                    let own: u64 = steps.iter().sum();
                    let (mode, k) = match r.below(7) {
                        _ if wait => (4, r.below(3)),
                        0 => (1, r.below(own.max(1))),
                        1 => (1, r.log(1.0, own.max(2) as f64) as u64),
                        2 => (1, own.saturating_sub(r.log(1.0, own.max(2) as f64) as u64)),
                        3 if !steps.is_empty() => {
                            let i = r.below(steps.len() as u64) as usize;
                            (1, steps[..i].iter().sum::<u64>() + r.below(steps[i].max(1)))
                        }
                        3 | 4 | 5 => (2, r.log(1.0, 4000.0) as u64 - 1),
                        _ => (3, r.log(1.0, 10000.0) as u64 - 1),
                    };
                    sc.stalls.push((t as u32 + 1, mode, k));
                }
            }
            sc.spawn = true;
        }
        "L02" => {
            let nt = r.range(1, 3);
            let kinds = subset(r, &ALL);
            sc.spawn = r.chance(1, 2);
            let n_setup = r.below(3);
            sc.setup = p.setup(r, n_setup);
            let mut extra = vec![];
            if r.chance(1, 4) {
                // Finding such bounds is expensive: mostly one of a few cases, in another history.
                let mut q = Rng::new(if r.chance(1, 6) { r.next() } else { 0x7468 + r.below(60) });
                let q = &mut q;
                let k = *q.pick(&["cube", "octa", "prism", "pal", "ball", "shell", "shell", "shell"]);
                let img = if q.chance(1, 2) {
                    format!("{k}:{}:3:{}", q.range(3, 5), q.below(9))
                } else {
                    format!("{k}:{}:{}:{}", q.range(3, 7), q.range(3, 5), q.below(9))
                };
                // the later the error is looked at, the more pixels have one
                let min = q.range(4, 6);
                let max = min + if q.chance(1, 2) { q.below(2) } else { q.below(4) };
                if let Some((a, b)) = thresholds(q, refs, sim, &img, min, max) {
                    extra.push(format!("pal {img} {min} {max} {a}"));
                    extra.push(format!("pal {img} {min} {max} {b}"));
                    for _ in 0..q.below(3) {
                        let e = q.pick(&[&a, &b]).to_string();
                        extra.push(format!("pal {img}:x{} {min} {max} {e}", q.below(20)));
                    }
                }
            }
            for _ in 0..nt {
                let mut ops: Vec<String> = vec![];
                if r.chance(1, 6) {
                    // one call after the other, each with something else than the first
                    let first = p.op(r, &kinds, 5, 5);
                    for _ in 0..r.range(3, 9) {
                        ops.push(p.sibling(r, &first));
                    }
                    ops.push(first);
                    sc.threads.push(ops);
                    continue;
                }
                for _ in 0..r.range(2, 6) {
                    if !ops.is_empty() && r.chance(1, 5) {
                        let o = r.pick(&ops).clone();
                        ops.push(o);
                    } else if !ops.is_empty() && r.chance(1, 4) {
                        let o = r.pick(&ops).clone();
                        ops.push(p.sibling(r, &o));
                    } else if !extra.is_empty() && r.chance(1, 2) {
                        let o = r.pick(&extra).clone();
                        ops.push(o);
                    } else {
                        let o = if r.chance(1, 3) { p.shared_op(r, &sc.setup, 20) } else { None };
                        ops.push(o.unwrap_or_else(|| p.op(r, &kinds, 15, 15)));
                    }
                }
                sc.threads.push(ops);
            }
            drop_ops(&mut sc, refs, sim, |o| o.kind == K_CRASH);
        }
        "L03" => {
            sc.reps = 6;
            let kinds = subset(r, &ALL);
            let n_setup = r.below(3);
            sc.setup = p.setup(r, n_setup);
            sc.spawn = r.chance(1, 4);
            let nt = if sc.spawn { r.range(1, 2) } else { 1 };
            if r.chance(1, 3) {
                // histories of the C interface
                sc.setup = vec![];
                if r.chance(1, 2) {
                    c_setup(r, &p, &mut sc.setup, refs, sim);
                    c_setup(r, &p, &mut sc.setup, refs, sim);
                }
                for _ in 0..nt {
                    let n = r.range(5, 25);
                    let h = c_history(r, &p, &sc.setup, n, refs, sim);
                    sc.threads.push(h);
                }
                drop_ops(&mut sc, refs, sim, |o| o.kind == K_CRASH || o.kind == K_PANIC);
            } else {
                for _ in 0..nt {
                    let mut ops = vec![];
                    for _ in 0..r.range(1, 4) {
                        let o = if r.chance(1, 3) { p.shared_op(r, &sc.setup, 30) } else { None };
                        ops.push(o.unwrap_or_else(|| p.op(r, &kinds, 30, 40)));
                    }
                    sc.threads.push(ops);
                }
                drop_ops(&mut sc, refs, sim, |o| o.kind == K_CRASH);
            }
        }
        "L04" => {
            // One of a few small calls alone, so that many different failures of it are tried, or any call
            // within a history. (Most calls end with the process when Rust gets no memory.)
            let alone = r.chance(7, 8);
            sc.reps = if alone { 2 } else { 4 };
            let kinds = subset(r, &ALL);
            let n_setup = if alone { 0 } else { r.below(2) };
            sc.setup = p.setup(r, n_setup);
            let mut ops = vec![];
            let mut c = if alone && r.chance(1, 6) { few_c_ops(r) } else { vec![] };
            let mut sl = Slots::default();
            let usable = c.iter().all(|o| reference(o, &[], &mut sl).map_or(o.starts_with('f'), |rf| refs.get(sim, &rf).kind == K_OK));
            if !usable {
                c.clear();
            }
            if !alone && r.chance(1, 2) {
                ops.push(p.op(r, &kinds, 5, 0));
            }
            let o = if !alone && r.chance(1, 4) { p.shared_op(r, &sc.setup, 5) } else { None };
            let o = o.unwrap_or_else(|| match alone {
                true => few_ops(r.below(60)),
                false => p.op(r, &kinds, 8, 5),
            });
            let mut o_through_c = o.starts_with('c');
            let o = if c.is_empty() {
                ops.push(format!("{o} +o"));
                ops.push(o.clone());
                o
            } else {
                let k = r.below(c.len() as u64) as usize;
                ops.extend(c);
                let mut sl = Slots::default();
                let rf: Vec<_> = ops.iter().map(|o| reference(o, &sc.setup, &mut sl)).collect();
                ops[k] += " +o";
                o_through_c = true;
                rf[k].clone().unwrap_or_else(|| few_ops(0))
            };
            if !alone && r.chance(1, 2) {
                ops.push(p.op(r, &kinds, 5, 0));
            }
            sc.threads.push(ops);
            drop_ops(&mut sc, refs, sim, |o| o.kind == K_CRASH);
            if max_refs(&sc, refs, sim).0 > 6_000_000 && r.chance(7, 8) {
                // one long run takes the time of a hundred short ones
                return generate(prop, r.next(), refs, sim);
            }
            let at_op = reference(&o, &sc.setup, &mut Slots::default()).unwrap_or(o);
            let rf = refs.get(sim, &at_op);
            let kind = if alone { r.chance(3, 4) } else { r.chance(1, 5) } as usize;
            // (the reference of a call through C asks for less than the call itself: a few requests more)
            let more = 3 * o_through_c as u64;
            let n = rf.allocs[kind].max(1) + more;
            for _ in 0..r.range(1, 2) {
                if r.chance(1, 2) {
                    // at a certain request of a certain place
                    let d = r.below(4);
                    let mut place = r.below(rf.sites[kind][d as usize].max(1) as u64 + more);
                    // mostly where the process does not end by it at once
                    for _ in 0..if alone && more == 0 { r.below(30) } else { 0 } {
                        if refs.survives(sim, &at_op, kind as u32 | (d as u32 + 1) << 1, place) {
                            break;
                        }
                        place = r.below(rf.sites[kind][d as usize].max(1) as u64);
                    }
                    let nth = match r.below(4) {
                        0 | 1 => 0,
                        2 => r.below(3),
                        _ => r.below(40),
                    };
                    sc.faults.push((kind as u32 | (d as u32 + 1) << 1, place, nth | (r.chance(1, 6) as u64) << 32));
                    continue;
                }
                let at = match r.below(5) {
                    0 => r.below(12.min(n)),
                    1 => n.saturating_sub(1 + r.below(12.min(n))),
                    _ => r.below(n),
                };
                let to = match r.below(6) {
                    0 => u64::MAX >> 1,
                    1 => at + r.range(2, 5),
                    _ => at + 1,
                };
                sc.faults.push((kind as u32, at, to));
            }
        }
        "L06" => {
            // now and then the whole history is repeated: freed objects are really gone
            sc.reps = if r.chance(1, 10) { 6 } else { 1 };
            let nt = if sc.reps > 1 { 1 } else { r.range(1, 3) };
            for _ in 0..r.below(4) {
                c_setup(r, &p, &mut sc.setup, refs, sim);
            }
            for _ in 0..nt {
                let n = r.range(4, 30);
                let h = c_history(r, &p, &sc.setup, n, refs, sim);
                sc.threads.push(h);
            }
            drop_ops(&mut sc, refs, sim, |o| o.kind == K_CRASH || o.kind == K_PANIC);
            let (total, _) = max_refs(&sc, refs, sim);
            if nt > 1 {
                sc.sched = rand_sched(r, total);
            }
            sc.spawn = nt > 1 || r.chance(1, 2);
        }
        "L07" => {
            let d = *r.pick(&[2usize, 2, 3, 3, 5, 5]);
            let k = *r.pick(&["rand", "rand", "grid", "lattice", "sphere", "clust", "simplex", "twice", "big"]);
            let n = r.range(d as u64 + 3, if d == 5 { 30 } else { 60 });
            sc.setup.push(format!("S {d} {k}:{n}:{}", r.below(3000)));
            let nc = r.range(1, 4);
            let qk = subset(r, &["in", "sx", "fc", "vx", "ve", "out", "cut", "far", "any", "in", "sx"]);
            let settings = r.range(2, 30);
            for _ in 0..nc {
                let mut ops = vec![];
                if r.chance(5, 6) {
                    ops.push(format!("eps {}", r.pick(&["1e-10", "1e-9", "1e-7"])));
                }
                for _ in 0..r.range(4, 40) {
                    if r.chance(settings, 100) {
                        ops.push(match r.below(4) {
                            0 => format!("bf {}", r.below(2)),
                            1 => "clr".into(),
                            _ => format!("eps {}", r.pick(&["1e-10", "1e-10", "1e-8", "1e-6", "1e-3", "0.5", "10", "2.220446049250313e-16"])),
                        });
                    } else {
                        let o = *r.pick(&["q", "q", "q", "q", "f", "b"]);
                        ops.push(format!("{o} {}:{}", r.pick(&qk), r.below(100000)));
                    }
                }
                ops.truncate(MAXOPS);
                sc.threads.push(ops);
            }
            let mut left: Vec<usize> = sc.threads.iter().map(|t| t.len()).collect();
            let sticky = r.range(1, 8);
            let mut c = 0;
            while left.iter().sum::<usize>() > 0 {
                if r.chance(1, sticky) || left[c] == 0 {
                    c = r.below(nc) as usize;
                }
                if left[c] > 0 {
                    left[c] -= 1;
                    sc.merge.push(c as u32);
                }
            }
        }
        _ => panic!("unknown property"),
    }
    sc
}

pub struct Verdict {
    /// stays the same while a failure is minimised
    pub class: String,
    pub msg: String,
}

fn v(class: &str, msg: String) -> Option<Verdict> {
    Some(Verdict { class: class.into(), msg })
}

pub fn budgets(sc: &Scenario, refs: &mut Refs, sim: &Sim) -> (u64, Vec<Vec<u64>>) {
    let (total, rf) = max_refs(sc, refs, sim);
    let mut b: Vec<Vec<u64>> = vec![vec![]; sc.threads.len()];
    if sc.prop == "L08" {
        for (t, ops) in sc.threads.iter().enumerate() {
            b[t] = ops
                .iter()
                .enumerate()
                .map(|(i, _)| rf[t][i].as_ref().map_or(0, |o| if o.kind == K_CRASH { 0 } else { o.steps * 4 + 200_000 }))
                .collect();
        }
    }
    (total * 8 * sc.reps.max(1) as u64 + 400_000_000, b)
}

/// Runs a scenario and judges it.
pub fn run_and_judge(sc: &Scenario, refs: &mut Refs, sim: &Sim) -> (End, Option<Verdict>) {
    let (_, rf) = max_refs(sc, refs, sim);
    // calls that don't even work alone
    for (t, ops) in rf.iter().enumerate() {
        for (i, o) in ops.iter().enumerate() {
            if let Some(o) = o {
                if o.kind == K_CRASH {
                    let op = &sc.threads[t][i];
                    if sc.prop == "L08" && o.steps >= REF_BUDGET {
                        return (End::Exit(0), v("alone-endless", format!("`{op}` alone does not end: {}", o.txt())));
                    }
                    if sc.prop == "L05" {
                        return (End::Exit(0), v("alone-crash", format!("`{op}` alone: {}", o.txt())));
                    }
                }
            }
        }
    }
    let (budget, b) = budgets(sc, refs, sim);
    let end = sim.run(sc, budget, &b);
    (end, judge(sc, &rf, end, sim.sh(), sim.out()))
}

fn growing(l: &[u64; 16], n: usize) -> bool {
    n >= 4 && l[n - 1] > l[n - 2] && l[n - 2] > l[n - 3] && (n < 5 || l[n - 3] > l[n - 4])
}

fn judge(sc: &Scenario, rf: &[Vec<Option<Outcome>>], end: End, sh: &Shared, out: &Out) -> Option<Verdict> {
    let where_ = || {
        let mut s = String::new();
        for t in 0..sc.threads.len() {
            let id = if sc.threads.len() == 1 && !sc.spawn { 0 } else { t + 1 };
            let k = sh.cur_op[id];
            if k >= 0 {
                if let Some(o) = sc.threads[t].get(k as usize) {
                    if out.ops[t][k as usize].kind == K_NOTRUN || sc.reps > 1 {
                        s += &format!(" [thread {t}: {o}]");
                    }
                }
            }
        }
        s
    };
    if sh.violation == V_HEAP {
        return v("heap", format!("{}{}", viol_msg(sh), where_()));
    }
    if sh.violation == V_DEADLOCK {
        return v("deadlock", format!("{}{}", viol_msg(sh), where_()));
    }
    if sh.violation == V_BUDGET {
        return v("endless", format!("{}{}", viol_msg(sh), where_()));
    }
    if out.viol != 0 {
        let m = out.msg();
        let class = m.rsplit(": ").next().unwrap_or("").to_string();
        return v(&class, m);
    }
    let fired = sh.n_fault_fired[0] + sh.n_fault_fired[1] > 0;
    match end {
        End::Exit(0) if out.done == 1 => {}
        End::Exit(77) if sh.stalled != 0 => {}
        // giving up in an orderly way is one of the allowed reactions to memory exhaustion
        End::Signal(libc::SIGABRT) if fired => return None,
        End::Exit(c) if fired && c != 0 && c != 77 && c < 90 => return None,
        _ => return v(if end == End::Signal(libc::SIGALRM) { "hang" } else { "crash" }, format!("{}{}", describe_end(end, sh), where_())),
    }
    for (t, ops) in sc.threads.iter().enumerate() {
        if sc.prop == "L07" {
            break;
        }
        let stalled_here = sh.stalled >> (t + 1) & 1 == 1;
        for (i, op) in ops.iter().enumerate() {
            let o = &out.ops[t][i];
            if o.kind == K_BAD {
                return v(&format!("bad {}", o.txt()), format!("thread {t} `{op}`: {}", o.txt()));
            }
            let Some(r) = &rf[t][i] else { continue };
            if o.kind == K_NOTRUN && stalled_here {
                break;
            }
            if r.kind == K_CRASH {
                continue;
            }
            let armed = op.ends_with("+o");
            let w0 = op.split(' ').next().unwrap();
            let c_op = matches!(w0, "cw" | "cd" | "cq" | "cr" | "cg" | "cp");
            let shared = op.contains('@');
            if o.kind == K_SKIP {
                // the shared object could not be made, or a handle is missing
                if c_op && !shared {
                    continue;
                }
                let k: usize = op.split('@').nth(1).and_then(|s| s.split(' ').next()).and_then(|s| s.parse().ok()).unwrap_or(99);
                let made = out.setup.get(k).map_or(K_OK, |s| s.kind);
                let expect_fail = r.kind == K_PANIC || r.kind == K_ERR || matches!(w0, "dec");
                if made == K_PANIC && !expect_fail {
                    return v("setup", format!("`{}` failed although `{op}` alone works", sc.setup[k]));
                }
                continue;
            }
            let same = match w0 {
                "cw" => (o.kind == K_OK) == (r.kind == K_OK),
                "cd" => (o.kind == K_OK) == (r.kind == K_OK),
                "cq" => o.kind == r.kind && o.txt() == r.txt(),
                "cr" | "cg" => o.kind == r.kind && (o.kind != K_OK || o.h == r.h),
                _ => o.same(r),
            };
            if same {
                continue;
            }
            if armed && fired && (o.kind == K_PANIC || o.kind == K_ERR) {
                continue;
            }
            let how = if o.kind == K_NOTRUN { "never-returned" } else { "differs" };
            return v(
                &format!("{how} {w0}"),
                format!("thread {t} `{op}`: {} instead of {} (the same call alone)", o.show(), r.show()),
            );
        }
    }
    if sc.reps >= 4 {
        let n = out.probes[15].min(16) as usize;
        if growing(&out.live_bytes, n) || growing(&out.live_count, n) {
            return v(
                "leak",
                format!(
                    "the heap grows with every repetition: {:?} bytes in {:?} blocks",
                    &out.live_bytes[..n], &out.live_count[..n]
                ),
            );
        }
    }
    None
}

/// What makes a run count as distinct and non-trivial.
pub fn key(sc: &Scenario, sh: &Shared, out: &Out) -> Option<u64> {
    let text = hash_str(&format!("{:?}{:?}", sc.setup, sc.threads)).0;
    match sc.prop.as_str() {
        "L01" | "L05" => (sh.n_switch > sh.n_forced).then(|| mix(sh.inter_sig, text)),
        "L08" => (sh.n_switch > sh.n_forced || sh.stalled != 0).then(|| mix(sh.inter_sig ^ sh.stalled as u64, text)),
        "L06" => (sc.threads.iter().map(|t| t.len()).sum::<usize>() > 1).then(|| mix(sh.inter_sig, text)),
        "L02" => (sc.threads.iter().map(|t| t.len()).sum::<usize>() > 1).then(|| mix(text, hash_str(&format!("{:?}", sc.env)).0)),
        "L03" => (out.probes[15] >= 4 && sh.n_alloc[0] + sh.n_alloc[1] > 0).then(|| mix(text, sh.cov_hash)),
        "L04" => (sh.n_fault_fired[0] + sh.n_fault_fired[1] > 0).then(|| mix(text, hash_str(&format!("{:?}", sc.faults)).0)),
        "L07" => (out.probes[0] > 0 && sc.merge.len() > 3).then(|| mix(text, hash_str(&format!("{:?}", sc.merge)).0)),
        _ => None,
    }
}
