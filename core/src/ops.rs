//! Executes the operations of a scenario against the real library.
//!
//! An operation is a line of words.  Flags at its end: `+f<k>` the image source panics at its k-th
//! access, `+slow` the image source takes long, `+n<k>:<j>` the image source makes a call of the
//! library of its own at its k-th access, `+o` the allocation faults of the run are armed.

use crate::ffi::*;
use crate::spec::{self, Hash, Img, Rng};
use image::{GenericImageView, Rgb};
use image_palette_recoloring::{compute_palette, DecomposedImage, ImageWeights};
use nalgebra::{Const, OVector, SVector};
use qhull_rs::{ConvexHull, Delaunay, RawDelaunay, RawHull};
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const TEXT: usize = 120;

pub const K_NOTRUN: u32 = 0;
pub const K_OK: u32 = 1;
pub const K_ERR: u32 = 2;
pub const K_PANIC: u32 = 3;
pub const K_SKIP: u32 = 4;
pub const K_BAD: u32 = 5; // the harness saw a violation in the call itself
pub const K_CRASH: u32 = 6; // references only: the process ended

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Outcome {
    pub kind: u32,
    pub len: u32,
    pub h: Hash,
    pub steps: u64,
    pub allocs: [u64; 2],
    pub sites: [[u32; 4]; 2],
    pub text: [u8; TEXT],
}

impl Outcome {
    pub fn new(kind: u32, text: &str) -> Outcome {
        let mut o = Outcome { kind, len: 0, h: Hash::new(), steps: 0, allocs: [0; 2], sites: [[0; 4]; 2], text: [0; TEXT] };
        o.set(text);
        o
    }
    pub fn set(&mut self, text: &str) {
        let b = text.as_bytes();
        let n = b.len().min(TEXT);
        self.text[..n].copy_from_slice(&b[..n]);
        self.len = n as u32;
    }
    pub fn txt(&self) -> String {
        String::from_utf8_lossy(&self.text[..self.len as usize]).into_owned()
    }
    pub fn same(&self, o: &Outcome) -> bool {
        self.kind == o.kind && self.h == o.h && self.text[..] == o.text[..] && self.len == o.len
    }
    pub fn show(&self) -> String {
        match self.kind {
            K_NOTRUN => "never returned".into(),
            K_OK => format!("ok {} {:016x}", self.txt(), self.h.0),
            K_ERR => format!("error \"{}\"", self.txt()),
            K_PANIC => format!("panic \"{}\"", self.txt()),
            K_SKIP => "skipped".into(),
            K_BAD => format!("bad: {}", self.txt()),
            _ => format!("crash {}", self.txt()),
        }
    }
}

/// What the closure that runs inside the library reports.
pub enum Res {
    Ok(Hash),
    OkText(Hash, String),
    Err(String),
}

pub struct Source<'a> {
    img: &'a Img,
    fail_at: Option<u64>,
    slow: bool,
    nested: Option<(u64, u64)>,
    n: Cell<u64>,
}

thread_local! {
    /// What the call that the image source made has returned.
    static NESTED: Cell<Option<u64>> = const { Cell::new(None) };
    /// Whether the source was read so far that it makes its call.
    static REACHED: Cell<bool> = const { Cell::new(false) };
}

/// In references, the calls that image sources make come before the operation.
pub static REFERENCE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

fn plain(img: &Img) -> Source<'_> {
    Source { img, fail_at: None, slow: false, nested: None, n: Cell::new(0) }
}

/// A call that an image source makes while it is asked for a pixel.
fn nested_call(j: u64) -> u64 {
    let r = catch_unwind(|| {
        let mut h = Hash::new();
        h.u64(j);
        let recolor = |h: &mut Hash, img: &str, pal: &str| {
            let w = ImageWeights::new(&plain(&spec::image(img)));
            match DecomposedImage::new(&w, &rgb(&spec::palette(pal))) {
                Ok(d) => match observe(&d, &rgb(&spec::palette(pal))) {
                    Res::Ok(k) => h.u64(k.0),
                    _ => h.u64(1),
                },
                Err(e) => h.bytes(e.as_bytes()),
            }
        };
        match j % 8 {
            0 => h.u64(ImageWeights::new(&plain(&spec::image("rand:3:3:5"))).width() as u64),
            1 => {
                for c in compute_palette(&plain(&spec::image("rand:4:3:7")), 4, 6, 0.05) {
                    h.bytes(&c.0);
                }
            }
            2 => recolor(&mut h, "rand:3:3:9", "cube:8:0"),
            3 => ConvexHull::<Const<3>>::from_arrays(&arr(&spec::points("rand:9:3", 3))).obs(&mut h),
            4 => Delaunay::<Const<3>>::from_arrays(&arr(&spec::points("rand:9:4", 3))).loc("6:1", 1e-10, &mut h),
            5 => ConvexHull::<Const<3>>::from_arrays(&arr(&spec::points("flat:9:2", 3))).obs(&mut h),
            6 => recolor(&mut h, "rand:3:3:9", "dup:6:1"),
            _ => recolor(&mut h, "rand:4:2:2", "tet:4:1"),
        }
        h.0
    });
    match r {
        Ok(h) => h,
        Err(p) => {
            let mut h = Hash::new();
            if let Some(s) = p.downcast_ref::<String>() {
                h.bytes(s.as_bytes());
            }
            h.0
        }
    }
}

impl<'a> GenericImageView for Source<'a> {
    type Pixel = Rgb<u8>;
    fn dimensions(&self) -> (u32, u32) {
        (self.img.w, self.img.h)
    }
    fn bounds(&self) -> (u32, u32, u32, u32) {
        (0, 0, self.img.w, self.img.h)
    }
    fn get_pixel(&self, x: u32, y: u32) -> Rgb<u8> {
        let k = self.n.get();
        self.n.set(k + 1);
        unsafe { sim_event(0xE000_0001) };
        if self.slow {
            for _ in 0..4 {
                std::thread::yield_now();
            }
        }
        if let Some((at, j)) = self.nested {
            if at == k && !REACHED.get() {
                REACHED.set(true);
                if NESTED.get().is_none() {
                    NESTED.set(Some(nested_call(j)));
                }
            }
        }
        if self.fail_at == Some(k) {
            panic!("the image source failed");
        }
        if x >= self.img.w || y >= self.img.h {
            panic!("pixel out of bounds");
        }
        Rgb(self.img.px[(y * self.img.w + x) as usize])
    }
}

pub struct Flags {
    pub fail_at: Option<u64>,
    pub slow: bool,
    pub nested: Option<(u64, u64)>,
    pub armed: bool,
}

pub fn split_flags(op: &str) -> (Vec<&str>, Flags) {
    let mut f = Flags { fail_at: None, slow: false, nested: None, armed: false };
    let mut words = vec![];
    for w in op.split_whitespace() {
        if let Some(k) = w.strip_prefix("+f") {
            f.fail_at = k.parse().ok();
        } else if let Some((k, j)) = w.strip_prefix("+n").and_then(|n| n.split_once(':')) {
            f.nested = k.parse().ok().zip(j.parse().ok());
        } else if w == "+slow" {
            f.slow = true;
        } else if w == "+o" {
            f.armed = true;
        } else {
            words.push(w);
        }
    }
    (words, f)
}

pub trait HullObs {
    fn obs(&self, h: &mut Hash);
}
pub trait TriObs {
    fn obs(&self, h: &mut Hash);
    fn loc(&self, spec: &str, eps: f64, h: &mut Hash);
}

macro_rules! dims {
    ($($n:literal $p:literal),*) => { $(
        impl HullObs for ConvexHull<Const<$n>> {
            fn obs(&self, h: &mut Hash) {
                for v in self.vertices() {
                    h.u64(v.index() as u64);
                    for x in v.point().iter() { h.f64(*x) }
                }
                for f in self.facets() {
                    h.u64(f.index() as u64);
                    for v in f.vertices() { h.u64(v.index() as u64) }
                    for g in f.neighbors() { h.u64(g.index() as u64) }
                    for x in f.normal().iter() { h.f64(*x) }
                    h.f64(f.offset());
                }
            }
        }
        impl HullObs for RawHull<Const<$n>> {
            fn obs(&self, h: &mut Hash) {
                for v in self.vertices() {
                    for x in v.point().iter() { h.f64(*x) }
                }
                for f in self.facets() {
                    for v in f.vertices() { for x in v.point().iter() { h.f64(*x) } }
                    for x in f.normal()[..$n].iter() { h.f64(*x) }
                    h.f64(f.offset());
                    h.u64(f.neighbors().count() as u64);
                }
            }
        }
        impl HullObs for RawDelaunay<Const<$n>> {
            fn obs(&self, h: &mut Hash) {
                let cache = self.compute_barycentric_solver_cache();
                let mut qs: Vec<SVector<f64, $n>> = vec![];
                for f in self.simplices() {
                    if f.is_upper_delaunay() { continue }
                    let mut q = SVector::<f64, $n>::zeros();
                    for (i, v) in f.vertices().enumerate() {
                        for (k, x) in v.point()[..$n].iter().enumerate() {
                            h.f64(*x);
                            q[k] += *x * (i as f64 + 1.0) * 2.0 / ($p * ($p + 1)) as f64;
                        }
                    }
                    if qs.len() < 12 { qs.push(q) }
                    h.u64(f.neighbors().filter(|n| n.is_upper_delaunay()).count() as u64);
                }
                let mut hint = None;
                for q in qs {
                    let mut c = OVector::<f64, Const<$p>>::zeros();
                    let s = match hint.as_mut() {
                        Some(f) => self.find_best_simplex(q, &cache, Some(1e-10), Some(&mut c), Some(f)),
                        None => self.find_best_simplex(q, &cache, Some(1e-10), Some(&mut c), None),
                    };
                    match s {
                        None => h.u64(7),
                        Some(s) => {
                            for v in s.vertices() { for x in v.point()[..$n].iter() { h.f64(*x) } }
                            for x in c.iter() { h.f64(*x) }
                            hint = Some(s);
                        }
                    }
                }
            }
        }
        impl TriObs for Delaunay<Const<$n>> {
            fn obs(&self, h: &mut Hash) {
                for v in self.vertices() {
                    h.u64(v.index() as u64);
                    for x in v.point().iter() { h.f64(*x) }
                }
                let z = OVector::<f64, Const<$p>>::from_element(0.37);
                for s in self.simplices() {
                    h.u64(s.index() as u64);
                    for v in s.vertices() { h.u64(v.index() as u64) }
                    for n in s.neighbors() { h.u64(n.map_or(u64::MAX, |n| n.index() as u64)) }
                    h.f64(s.plane_distance(&z));
                }
            }
            fn loc(&self, spec: &str, eps: f64, h: &mut Hash) {
                let f: Vec<&str> = spec.split(':').collect();
                let n: u64 = f[0].parse().unwrap();
                let mut r = Rng::new(f[1].parse().unwrap());
                let verts: Vec<SVector<f64, $n>> = self.vertices().map(|v| *v.point()).collect();
                let mut se = self.simplex_searcher();
                se.set_eps(eps);
                for _ in 0..n {
                    let mut q = SVector::<f64, $n>::zeros();
                    let mut tot = 0.0;
                    for _ in 0..$p {
                        let w = r.f() + if r.chance(1, 6) { -0.3 } else { 0.05 };
                        q += r.pick(&verts) * w;
                        tot += w;
                    }
                    q /= if tot.abs() > 0.1 { tot } else { 1.0 };
                    let mut c = OVector::<f64, Const<$p>>::zeros();
                    match se.find_simplex_mut(&q, &mut c) {
                        None => h.u64(u64::MAX),
                        Some(s) => {
                            h.u64(s.index() as u64);
                            for x in c.iter() { h.f64(*x) }
                        }
                    }
                }
            }
        }
    )* }
}
dims!(2 3, 3 4, 4 5, 5 6);

pub fn arr<const N: usize>(p: &[Vec<f64>]) -> Vec<[f64; N]> {
    p.iter()
        .map(|v| {
            let mut a = [0.0; N];
            a.copy_from_slice(v);
            a
        })
        .collect()
}

fn vecs<const N: usize>(p: &[Vec<f64>]) -> Vec<SVector<f64, N>> {
    arr::<N>(p).into_iter().map(SVector::<f64, N>::from).collect()
}

enum Pts {
    D2(Vec<[f64; 2]>, Vec<SVector<f64, 2>>),
    D3(Vec<[f64; 3]>, Vec<SVector<f64, 3>>),
    D4(Vec<[f64; 4]>, Vec<SVector<f64, 4>>),
    D5(Vec<[f64; 5]>, Vec<SVector<f64, 5>>),
}

fn pts(dim: &str, spec: &str) -> Pts {
    let d: usize = dim.parse().unwrap();
    let p = spec::points(spec, d);
    match d {
        2 => Pts::D2(arr(&p), vecs(&p)),
        3 => Pts::D3(arr(&p), vecs(&p)),
        4 => Pts::D4(arr(&p), vecs(&p)),
        _ => Pts::D5(arr(&p), vecs(&p)),
    }
}

macro_rules! each {
    ($e:expr, $n:ident, $a:ident, $v:ident, $body:expr) => {
        match $e {
            Pts::D2($a, $v) => { const $n: usize = 2; let _ = &$v; let _ = &$a; $body }
            Pts::D3($a, $v) => { const $n: usize = 3; let _ = &$v; let _ = &$a; $body }
            Pts::D4($a, $v) => { const $n: usize = 4; let _ = &$v; let _ = &$a; $body }
            Pts::D5($a, $v) => { const $n: usize = 5; let _ = &$v; let _ = &$a; $body }
        }
    };
}

/// An object shared by all threads of a scenario.
pub enum Obj {
    Failed,
    W(ImageWeights),
    D(DecomposedImage),
    H(Box<dyn HullObs>),
    T(Box<dyn TriObs>),
    CW(usize),
    CD(usize),
}

extern "C" {
    fn create_image_weights(w: u32, h: u32, bytes: *const u8) -> *const libc::c_void;
    fn free_image_weights(p: *const libc::c_void);
    fn create_decomposed_image(w: *const libc::c_void, n: u8, pal: *const [u8; 3]) -> *const libc::c_void;
    fn free_decomposed_image(p: *const libc::c_void);
    fn get_decomposed_image_width(p: *const libc::c_void) -> u32;
    fn get_decomposed_image_height(p: *const libc::c_void) -> u32;
    fn get_decomposed_image_num_channels(p: *const libc::c_void) -> u8;
    fn reconstruct_image(p: *const libc::c_void, pal: *const [u8; 3], out: *mut u8) -> u8;
    fn grayscale_image_channel(p: *const libc::c_void, n: u8, out: *mut u8) -> u8;
    #[link_name = "compute_palette"]
    fn c_compute_palette(w: u32, h: u32, bytes: *const u8, min: u8, max: u8, err: f64, n: *mut u8) -> *mut [u8; 3];
    fn free_computed_palette(p: *mut [u8; 3], n: u8);
}

/// Memory that ends at an inaccessible page.
pub struct Guarded {
    base: *mut u8,
    total: usize,
    pub p: *mut u8,
    n: usize,
}

impl Guarded {
    pub fn new(n: usize, fill: impl Fn(usize) -> u8) -> Guarded {
        let pages = (n + 4095) / 4096 + 1;
        let total = (pages + 1) * 4096;
        unsafe {
            let base = libc::mmap(
                std::ptr::null_mut(), total, libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0,
            ) as *mut u8;
            if base as isize == -1 {
                libc::_exit(98);
            }
            libc::mprotect(base.add(pages * 4096).cast(), 4096, libc::PROT_NONE);
            std::ptr::write_bytes(base, 0x5A, pages * 4096 - n);
            let p = base.add(pages * 4096 - n);
            for i in 0..n {
                *p.add(i) = fill(i);
            }
            Guarded { base, total, p, n }
        }
    }
    pub fn bytes(b: &[u8]) -> Guarded {
        let g = Guarded::new(b.len(), |i| b[i]);
        unsafe { libc::mprotect(g.base.cast(), g.total - 4096, libc::PROT_READ) };
        g
    }
    pub fn colors(c: &[[u8; 3]]) -> Guarded {
        let v: Vec<u8> = c.iter().flatten().copied().collect();
        Guarded::bytes(&v)
    }
    pub fn slice(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.p, self.n) }
    }
    /// Nothing was written before the buffer.
    pub fn front_intact(&self) -> bool {
        unsafe {
            let k = (self.p as usize - self.base as usize).min(4096);
            std::slice::from_raw_parts(self.p.sub(k), k).iter().all(|b| *b == 0x5A)
        }
    }
}

impl Drop for Guarded {
    fn drop(&mut self) {
        unsafe {
            libc::munmap(self.base.cast(), self.total);
        }
    }
}

/// What one thread keeps between operations: handles of the C interface.
pub struct Ctx<'a> {
    pub objs: &'a [Obj],
    pub w: [usize; 8],
    pub d: [usize; 8],
}

impl<'a> Ctx<'a> {
    pub fn new(objs: &'a [Obj]) -> Ctx<'a> {
        Ctx { objs, w: [0; 8], d: [0; 8] }
    }
}

fn call<F: FnOnce() -> Res>(armed: bool, f: F) -> Outcome {
    let before = unsafe { sim_my_steps() };
    let r = unsafe {
        if armed {
            sim_fault_arm();
        }
        sim_enter();
        let r = catch_unwind(AssertUnwindSafe(f));
        sim_leave();
        if armed {
            sim_fault_disarm();
        }
        r
    };
    let steps = unsafe { sim_my_steps() } - before;
    let mut o = match r {
        Ok(Res::Ok(h)) => {
            let mut o = Outcome::new(K_OK, "");
            o.h = h;
            o
        }
        Ok(Res::OkText(h, s)) => {
            let mut o = Outcome::new(K_OK, &s);
            o.h = h;
            o
        }
        Ok(Res::Err(s)) => Outcome::new(K_ERR, &s),
        Err(p) => {
            let msg = if let Some(s) = p.downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = p.downcast_ref::<String>() {
                s.clone()
            } else {
                "?".into()
            };
            drop(p);
            Outcome::new(K_PANIC, &msg)
        }
    };
    o.steps = steps;
    o
}

fn rgb(p: &[[u8; 3]]) -> Vec<Rgb<u8>> {
    p.iter().map(|c| Rgb(*c)).collect()
}

fn observe(d: &DecomposedImage, pal2: &[Rgb<u8>]) -> Res {
    let mut h = Hash::new();
    h.u64(d.num_channels() as u64);
    h.u64(d.width() as u64);
    h.u64(d.height() as u64);
    match d.reconstruct(pal2) {
        None => h.u64(0),
        Some(i) => {
            h.u64(1);
            h.bytes(i.as_raw());
            // leave the pixel data at once: reconstruct again later must give the same
        }
    }
    for n in 0..d.num_channels() {
        match d.get_channel_grayscale(n) {
            None => h.u64(0),
            Some(i) => h.bytes(i.as_raw()),
        }
    }
    h.u64(d.get_channel_grayscale(d.num_channels()).is_some() as u64);
    if !pal2.is_empty() {
        h.u64(d.reconstruct(&pal2[1..]).is_some() as u64);
    }
    Res::Ok(h)
}

fn f64arg(s: &str) -> f64 {
    if let Some(x) = s.strip_prefix("0x") {
        f64::from_bits(u64::from_str_radix(x, 16).unwrap())
    } else {
        s.parse().unwrap()
    }
}

/// Builds an object that threads share; part of the simulation.
pub fn make_obj(op: &str) -> (Obj, Outcome) {
    let (a, fl) = split_flags(op);
    let mut obj = Obj::Failed;
    let slot = &mut obj;
    let o = match a[0] {
        "W" | "D" => {
            let img = spec::image(a[1]);
            let pal = if a[0] == "D" { rgb(&spec::palette(a[2])) } else { vec![] };
            let d = a[0] == "D";
            call(fl.armed, || {
                let src = Source { img: &img, fail_at: fl.fail_at, slow: fl.slow, nested: None, n: Cell::new(0) };
                let w = ImageWeights::new(&src);
                if !d {
                    *slot = Obj::W(w);
                    return Res::Ok(Hash::new());
                }
                match DecomposedImage::new(&w, &pal) {
                    Ok(d) => {
                        *slot = Obj::D(d);
                        Res::Ok(Hash::new())
                    }
                    Err(e) => Res::Err(e),
                }
            })
        }
        "H" => each!(pts(a[1], a[2]), N, p, v, call(fl.armed, || {
            *slot = Obj::H(Box::new(ConvexHull::<Const<N>>::from_arrays(&p)));
            Res::Ok(Hash::new())
        })),
        "T" => each!(pts(a[1], a[2]), N, p, v, call(fl.armed, || {
            *slot = Obj::T(Box::new(Delaunay::<Const<N>>::from_arrays(&p)));
            Res::Ok(Hash::new())
        })),
        "CW" | "CD" => {
            let img = spec::image(a[1]);
            let pal = if a[0] == "CD" { spec::palette(a[2]) } else { vec![] };
            let d = a[0] == "CD";
            let (g, gp) = (Guarded::colors(&img.px), Guarded::colors(&pal));
            call(fl.armed, || unsafe {
                let w = create_image_weights(img.w, img.h, g.p);
                if w.is_null() {
                    return Res::Err("null".into());
                }
                if !d {
                    *slot = Obj::CW(w as usize);
                    return Res::Ok(Hash::new());
                }
                let d = create_decomposed_image(w, pal.len() as u8, gp.p.cast());
                free_image_weights(w);
                if d.is_null() {
                    return Res::Err("null".into());
                }
                *slot = Obj::CD(d as usize);
                Res::Ok(Hash::new())
            })
        }
        _ => Outcome::new(K_SKIP, ""),
    };
    (obj, o)
}

pub fn drop_obj(o: Obj) {
    unsafe {
        sim_enter();
        match o {
            Obj::CW(p) => free_image_weights(p as *const _),
            Obj::CD(p) => free_decomposed_image(p as *const _),
            o => drop(o),
        }
        sim_leave();
    }
}

fn idx(s: &str) -> Option<usize> {
    s.strip_prefix('@').and_then(|s| s.parse().ok())
}

/// Executes one operation.
pub fn exec(op: &str, cx: &mut Ctx) -> Outcome {
    let (a, fl) = split_flags(op);
    NESTED.set(None);
    REACHED.set(false);
    let mut more = 0;
    if let (Some((_, j)), true) = (fl.nested, REFERENCE.load(std::sync::atomic::Ordering::Relaxed)) {
        let before = unsafe { sim_my_steps() };
        unsafe { sim_enter() };
        NESTED.set(Some(nested_call(j)));
        unsafe { sim_leave() };
        more = unsafe { sim_my_steps() } - before;
    }
    let mut o = exec_words(&a, &fl, cx);
    if fl.nested.is_some() {
        o.h.u64(if REACHED.get() { NESTED.get().unwrap_or(2) } else { 1 });
    }
    o.steps += more;
    o
}

fn exec_words(a: &[&str], fl: &Flags, cx: &mut Ctx) -> Outcome {
    let skip = Outcome::new(K_SKIP, "");
    let objs = cx.objs;
    macro_rules! src {
        ($img:expr) => {
            Source { img: &$img, fail_at: fl.fail_at, slow: fl.slow, nested: fl.nested, n: Cell::new(0) }
        };
    }
    match a[0] {
        // pal IMG MIN MAX ERR
        "pal" => {
            let img = spec::image(a[1]);
            let (min, max, err) = (a[2].parse().unwrap(), a[3].parse().unwrap(), f64arg(a[4]));
            call(fl.armed, || {
                let p = compute_palette(&src!(img), min, max, err);
                let mut h = Hash::new();
                for c in &p {
                    h.bytes(&c.0);
                }
                Res::OkText(h, p.len().to_string())
            })
        }
        // wts IMG
        "wts" => {
            let img = spec::image(a[1]);
            call(fl.armed, || {
                let w = ImageWeights::new(&src!(img));
                let mut h = Hash::new();
                h.u64(w.width() as u64);
                h.u64(w.height() as u64);
                Res::Ok(h)
            })
        }
        // dec IMG|@i PAL PAL2, rec @i PAL2
        "dec" => {
            let pal = rgb(&spec::palette(a[2]));
            let pal2 = rgb(&spec::palette(a[3]));
            if let Some(i) = idx(a[1]) {
                let Some(Obj::W(w)) = objs.get(i) else { return skip };
                call(fl.armed, || match DecomposedImage::new(w, &pal) {
                    Ok(d) => observe(&d, &pal2),
                    Err(e) => Res::Err(e),
                })
            } else {
                let img = spec::image(a[1]);
                call(fl.armed, || {
                    let w = ImageWeights::new(&src!(img));
                    match DecomposedImage::new(&w, &pal) {
                        Ok(d) => {
                            drop(w);
                            observe(&d, &pal2)
                        }
                        Err(e) => Res::Err(e),
                    }
                })
            }
        }
        "rec" => {
            let pal2 = rgb(&spec::palette(a[2]));
            let Some(Obj::D(d)) = idx(a[1]).and_then(|i| objs.get(i)) else { return skip };
            call(fl.armed, || observe(d, &pal2))
        }
        // hul DIM PTS
        "hul" | "hui" | "rhu" | "rhv" => {
            let which = a[0];
            each!(pts(a[1], a[2]), N, p, v, call(fl.armed, || {
                let mut h = Hash::new();
                match which {
                    "hul" => ConvexHull::<Const<N>>::from_arrays(&p).obs(&mut h),
                    "hui" => v.iter().cloned().collect::<ConvexHull<Const<N>>>().obs(&mut h),
                    "rhu" => RawHull::<Const<N>>::from_arrays(&p).obs(&mut h),
                    _ => RawHull::<Const<N>>::from_vectors(&v).obs(&mut h),
                }
                Res::Ok(h)
            }))
        }
        "hq" => {
            let Some(Obj::H(x)) = idx(a[1]).and_then(|i| objs.get(i)) else { return skip };
            call(fl.armed, || {
                let mut h = Hash::new();
                x.obs(&mut h);
                Res::Ok(h)
            })
        }
        // tri DIM PTS
        "tri" | "rtr" | "rtv" => {
            let which = a[0];
            each!(pts(a[1], a[2]), N, p, v, call(fl.armed, || {
                let mut h = Hash::new();
                match which {
                    "tri" => Delaunay::<Const<N>>::from_arrays(&p).obs(&mut h),
                    "rtr" => RawDelaunay::<Const<N>>::from_arrays(&p).obs(&mut h),
                    _ => RawDelaunay::<Const<N>>::from_vectors(&v).obs(&mut h),
                }
                Res::Ok(h)
            }))
        }
        "tq" => {
            let Some(Obj::T(x)) = idx(a[1]).and_then(|i| objs.get(i)) else { return skip };
            call(fl.armed, || {
                let mut h = Hash::new();
                x.obs(&mut h);
                Res::Ok(h)
            })
        }
        // loc DIM PTS N:SEED EPS, or loc @i N:SEED EPS
        "loc" => {
            if let Some(i) = idx(a[1]) {
                let Some(Obj::T(x)) = objs.get(i) else { return skip };
                let eps = f64arg(a[3]);
                let q = a[2];
                call(fl.armed, || {
                    let mut h = Hash::new();
                    x.loc(q, eps, &mut h);
                    Res::Ok(h)
                })
            } else {
                let eps = f64arg(a[4]);
                let q = a[3];
                each!(pts(a[1], a[2]), N, p, v, call(fl.armed, || {
                    let mut h = Hash::new();
                    let t = Delaunay::<Const<N>>::from_arrays(&p);
                    t.loc(q, eps, &mut h);
                    Res::Ok(h)
                }))
            }
        }
        // references of the C interface: rq IMG PAL, rr IMG PAL PAL2, rg IMG PAL N
        "rq" | "rr" | "rg" => {
            let img = spec::image(a[1]);
            let pal = rgb(&spec::palette(a[2]));
            let pal2 = if a[0] == "rr" { rgb(&spec::palette(a[3])) } else { vec![] };
            let n: usize = if a[0] == "rg" { a[3].parse().unwrap() } else { 0 };
            let which = a[0];
            call(false, || {
                let w = ImageWeights::new(&src!(img));
                let d = match DecomposedImage::new(&w, &pal) {
                    Ok(d) => d,
                    Err(e) => return Res::Err(e),
                };
                let mut h = Hash::new();
                match which {
                    "rq" => Res::OkText(h, format!("{}x{} {}", d.width(), d.height(), d.num_channels())),
                    "rr" => match d.reconstruct(&pal2) {
                        Some(i) => {
                            h.bytes(i.as_raw());
                            Res::Ok(h)
                        }
                        None => Res::Err("none".into()),
                    },
                    _ => match d.get_channel_grayscale(n) {
                        Some(i) => {
                            h.bytes(i.as_raw());
                            Res::Ok(h)
                        }
                        None => Res::Err("none".into()),
                    },
                }
            })
        }
        _ => exec_c(a, fl, cx),
    }
}

fn handle(cx: &Ctx, s: &str, w: bool) -> Option<usize> {
    let p = if let Some(i) = idx(s) {
        match cx.objs.get(i) {
            Some(Obj::CW(p)) if w => *p,
            Some(Obj::CD(p)) if !w => *p,
            _ => 0,
        }
    } else {
        let i: usize = s.parse().ok()?;
        if w { cx.w[i] } else { cx.d[i] }
    };
    if p == 0 {
        None
    } else {
        Some(p)
    }
}

/// Operations of the C interface: `cw S IMG`, `cd S W PAL`, `cq D`, `cr D PAL2 WxH`, `cg D N WxH`,
/// `cp IMG MIN MAX ERR`, `fw S`, `fd S`; handles are slots of the thread or `@i`.
fn exec_c(a: &[&str], fl: &Flags, cx: &mut Ctx) -> Outcome {
    let skip = Outcome::new(K_SKIP, "");
    let bad = |s: &str| Outcome::new(K_BAD, s);
    match a[0] {
        "cw" => {
            let s: usize = a[1].parse().unwrap();
            if cx.w[s] != 0 {
                return skip;
            }
            let img = spec::image(a[2]);
            let g = Guarded::colors(&img.px);
            let mut p = 0;
            let o = call(fl.armed, || unsafe {
                p = create_image_weights(img.w, img.h, g.p) as usize;
                if p == 0 { Res::Err("null".into()) } else { Res::Ok(Hash::new()) }
            });
            cx.w[s] = p;
            o
        }
        "cd" => {
            let s: usize = a[1].parse().unwrap();
            let Some(w) = handle(cx, a[2], true) else { return skip };
            if cx.d[s] != 0 {
                return skip;
            }
            let pal = spec::palette(a[3]);
            let g = Guarded::colors(&pal);
            let mut p = 0;
            let o = call(fl.armed, || unsafe {
                p = create_decomposed_image(w as *const _, pal.len() as u8, g.p.cast()) as usize;
                if p == 0 { Res::Err("null".into()) } else { Res::Ok(Hash::new()) }
            });
            cx.d[s] = p;
            o
        }
        "cq" => {
            let Some(d) = handle(cx, a[1], false) else { return skip };
            call(fl.armed, || unsafe {
                let d = d as *const _;
                Res::OkText(Hash::new(), format!("{}x{} {}", get_decomposed_image_width(d),
                    get_decomposed_image_height(d), get_decomposed_image_num_channels(d)))
            })
        }
        "cr" | "cg" => {
            let Some(d) = handle(cx, a[1], false) else { return skip };
            let (w, h) = a[3].split_once('x').unwrap();
            let (w, h): (usize, usize) = (w.parse().unwrap(), h.parse().unwrap());
            let rec = a[0] == "cr";
            let pal = if rec { spec::palette(a[2]) } else { vec![] };
            let n: u8 = if rec { 0 } else { a[2].parse().unwrap() };
            let pat = |i: usize| (i as u8).wrapping_mul(37) ^ 0xE7;
            let gp = Guarded::colors(&pal);
            let out = Guarded::new(if rec { 3 * w * h } else { w * h }, pat);
            let mut ret = 0;
            let mut o = call(fl.armed, || unsafe {
                ret = if rec {
                    reconstruct_image(d as *const _, gp.p.cast(), out.p)
                } else {
                    grayscale_image_channel(d as *const _, n, out.p)
                };
                if ret == 0 { Res::Err("none".into()) } else { Res::Ok(Hash::new()) }
            });
            if o.kind == K_PANIC {
                return o;
            }
            if !out.front_intact() {
                return bad("wrote before the output buffer");
            }
            if ret == 0 {
                if (0..out.slice().len()).any(|i| out.slice()[i] != pat(i)) {
                    return bad("a call that reported failure wrote to the output buffer");
                }
            } else {
                let mut h = Hash::new();
                h.bytes(out.slice());
                o.h = h;
            }
            o
        }
        "cp" => {
            let img = spec::image(a[1]);
            let (min, max, err) = (a[2].parse().unwrap(), a[3].parse().unwrap(), f64arg(a[4]));
            let g = Guarded::colors(&img.px);
            let size = Guarded::new(1, |_| 0xEE);
            let mut null = false;
            let mut pal: Vec<u8> = Vec::with_capacity(3 * 256);
            let mut o = call(fl.armed, || unsafe {
                let p = c_compute_palette(img.w, img.h, g.p, min, max, err, size.p);
                if p.is_null() {
                    null = true;
                    return Res::Err("null".into());
                }
                pal.extend_from_slice(std::slice::from_raw_parts(p.cast::<u8>(), 3 * *size.p as usize));
                free_computed_palette(p, *size.p);
                Res::Ok(Hash::new())
            });
            if o.kind == K_OK && !null {
                if !size.front_intact() {
                    return bad("wrote outside the palette size");
                }
                let mut h = Hash::new();
                for c in pal.chunks(3) {
                    h.bytes(c);
                }
                o.h = h;
                let t = (pal.len() / 3).to_string();
                o.set(&t);
            }
            o
        }
        "fw" => {
            let s: usize = a[1].parse().unwrap();
            let p = std::mem::take(&mut cx.w[s]);
            if p == 0 {
                return skip;
            }
            call(fl.armed, || unsafe {
                free_image_weights(p as *const _);
                Res::Ok(Hash::new())
            })
        }
        "fd" => {
            let s: usize = a[1].parse().unwrap();
            let p = std::mem::take(&mut cx.d[s]);
            if p == 0 {
                return skip;
            }
            call(fl.armed, || unsafe {
                free_decomposed_image(p as *const _);
                Res::Ok(Hash::new())
            })
        }
        _ => {
            eprintln!("coresim: unknown operation {}", a[0]);
            unsafe { libc::_exit(97) }
        }
    }
}

/// Frees the handles that a thread still has.
pub fn finish(cx: &mut Ctx) {
    for i in 0..8 {
        let (w, d) = (std::mem::take(&mut cx.w[i]), std::mem::take(&mut cx.d[i]));
        if w != 0 {
            drop_obj(Obj::CW(w));
        }
        if d != 0 {
            drop_obj(Obj::CD(d));
        }
    }
}

/// Which object each slot of a thread holds.
#[derive(Default, Clone)]
pub struct Slots {
    pub w: [Option<String>; 8],
    pub d: [Option<(String, String)>; 8],
}

pub fn dims(img: &str) -> String {
    let m = spec::image(img);
    format!("{}x{}", m.w, m.h)
}

/// Operations of the C interface that have no meaning without the object they name.
pub fn needs_reference(op: &str) -> bool {
    matches!(op.split(' ').next().unwrap(), "cw" | "cd" | "cq" | "cr" | "cg")
}

/// The same operation as the only call of a process, if it has a meaning by itself.
/// `slots` follows which object each slot of the thread holds.
pub fn reference(op: &str, setup: &[String], s: &mut Slots) -> Option<String> {
    let (a, fl) = split_flags(op);
    let obj = |w: &str| -> Option<Vec<String>> {
        setup.get(idx(w)?).map(|l| split_flags(l).0.iter().map(|x| x.to_string()).collect())
    };
    let mut f = fl.fail_at.map_or(String::new(), |k| format!(" +f{k}"));
    if let Some((k, j)) = fl.nested {
        f += &format!(" +n{k}:{j}");
    }
    let wspec = |s: &Slots, w: &str| -> Option<String> {
        if idx(w).is_some() {
            let o = obj(w)?;
            (o[0] == "CW").then(|| o[1].clone())
        } else {
            s.w[w.parse::<usize>().ok()?].clone()
        }
    };
    let dspec = |s: &Slots, w: &str| -> Option<(String, String)> {
        if idx(w).is_some() {
            let o = obj(w)?;
            (o[0] == "CD").then(|| (o[1].clone(), o[2].clone()))
        } else {
            s.d[w.parse::<usize>().ok()?].clone()
        }
    };
    Some(match a[0] {
        "dec" if idx(a[1]).is_some() => {
            let o = obj(a[1])?;
            if o[0] != "W" {
                return None;
            }
            format!("dec {} {} {}", o[1], a[2], a[3])
        }
        "rec" => {
            let o = obj(a[1])?;
            if o[0] != "D" {
                return None;
            }
            format!("dec {} {} {}", o[1], o[2], a[2])
        }
        "hq" => {
            let o = obj(a[1])?;
            if o[0] != "H" {
                return None;
            }
            format!("hul {} {}", o[1], o[2])
        }
        "tq" => {
            let o = obj(a[1])?;
            if o[0] != "T" {
                return None;
            }
            format!("tri {} {}", o[1], o[2])
        }
        "loc" if idx(a[1]).is_some() => {
            let o = obj(a[1])?;
            if o[0] != "T" {
                return None;
            }
            format!("loc {} {} {} {}", o[1], o[2], a[2], a[3])
        }
        "cw" => {
            let i: usize = a[1].parse().unwrap();
            if s.w[i].is_some() {
                return None;
            }
            s.w[i] = Some(a[2].to_string());
            format!("wts {}", a[2])
        }
        "cd" => {
            let i: usize = a[1].parse().unwrap();
            let w = wspec(s, a[2])?;
            if s.d[i].is_some() {
                return None;
            }
            // a palette that can't be used gives no handle
            let k = a[3].split(':').next().unwrap();
            if !matches!(k, "dup" | "twice" | "small" | "flat") {
                s.d[i] = Some((w.clone(), a[3].to_string()));
            }
            format!("rq {} {}", w, a[3])
        }
        "cq" => {
            let (i, p) = dspec(s, a[1])?;
            format!("rq {i} {p}")
        }
        "cr" => {
            let (i, p) = dspec(s, a[1])?;
            // the buffers must have the sizes this object calls for
            if dims(&i) != a[3] || spec::palette(&p).len() != spec::palette(a[2]).len() {
                return None;
            }
            format!("rr {i} {p} {}", a[2])
        }
        "cg" => {
            let (i, p) = dspec(s, a[1])?;
            if dims(&i) != a[3] {
                return None;
            }
            format!("rg {i} {p} {}", a[2])
        }
        "cp" => format!("pal {} {} {} {}", a[1], a[2], a[3], a[4]),
        "fw" => {
            s.w[a[1].parse::<usize>().unwrap()] = None;
            return None;
        }
        "fd" => {
            s.d[a[1].parse::<usize>().unwrap()] = None;
            return None;
        }
        _ => format!("{}{}", a.join(" "), f),
    })
}
