//! What the tool has to produce: computed with the library, in a process of its own.

use crate::scenario::Scenario;
use image::{DynamicImage, GrayImage, ImageFormat, ImageOutputFormat, RgbImage};
use image_palette_recoloring::{compute_palette, DecomposedImage, ImageWeights};
use std::collections::HashMap;
use std::io::{Cursor, Read, Write};
use std::os::fd::FromRawFd;

#[derive(Clone, Debug)]
pub enum Expect {
    /// can't succeed, for a reason that is known before anything is written
    Fail(String),
    Palette(String),
    /// encoded images, in the order of `Scenario::outputs`
    Images(Vec<Vec<u8>>),
    /// the library does not answer
    Unknown(String),
}

fn encode(d: &DynamicImage, name: &str) -> Option<Vec<u8>> {
    use image::codecs::pnm::{PnmSubtype, SampleEncoding};
    let f = ImageFormat::from_path(name).ok()?;
    let o = match f {
        ImageFormat::Pnm => {
            let e = std::path::Path::new(name).extension()?.to_ascii_lowercase();
            ImageOutputFormat::Pnm(match e.to_str() {
                Some("pbm") => PnmSubtype::Bitmap(SampleEncoding::Binary),
                Some("pgm") => PnmSubtype::Graymap(SampleEncoding::Binary),
                Some("ppm") => PnmSubtype::Pixmap(SampleEncoding::Binary),
                _ => PnmSubtype::ArbitraryMap,
            })
        }
        f => f.into(),
    };
    let mut v = vec![];
    d.write_to(&mut Cursor::new(&mut v), o).ok()?;
    Some(v)
}

fn opt<'a>(s: &'a Scenario, names: &[&str]) -> Option<&'a str> {
    s.opts.iter().position(|o| names.contains(&o.as_str())).and_then(|i| s.opts.get(i + 1)).map(|x| x.as_str())
}

fn expect_inner(s: &Scenario) -> Expect {
    let fail = |w: &str| Expect::Fail(w.into());
    if s.cmd == "palette" {
        let e = opt(s, &["-e", "--error-bound"]).map_or(Ok(2.0 / 255.0), |x| x.parse::<f64>());
        let m = opt(s, &["-m", "--min-size"]).map_or(Ok(4), |x| x.parse::<u8>());
        let x = opt(s, &["--max-size"]).map_or(Ok(10), |x| x.parse::<u8>());
        let (Ok(e), Ok(m), Ok(x)) = (e, m, x) else { return fail("arguments") };
        if m < 4 {
            return fail("arguments");
        }
        let Some(img) = decode(s) else { return fail("input") };
        let p = compute_palette(&img, m as usize, x as usize, e);
        return Expect::Palette(p.iter().map(|c| format!("{:02x}{:02x}{:02x}", c.0[0], c.0[1], c.0[2])).collect::<Vec<_>>().join(","));
    }
    let (Some(dp), Some(rp)) = (Scenario::colors(&s.dp), Scenario::colors(&s.rp)) else { return fail("arguments") };
    if dp.len() != rp.len() {
        return fail("palette sizes differ");
    }
    let Some(img) = decode(s) else { return fail("input") };
    if s.mode == "dir" || s.out_name.is_empty() {
        return fail("input");
    }
    let dp: Vec<_> = dp.into_iter().map(image::Rgb).collect();
    let rp: Vec<_> = rp.into_iter().map(image::Rgb).collect();
    let w = ImageWeights::new(&img);
    let Ok(d) = DecomposedImage::new(&w, &dp) else { return fail("palette") };
    let Some(out) = d.reconstruct(&rp) else { return fail("palette") };
    let mut v = vec![];
    let names = s.outputs();
    match encode(&DynamicImage::ImageRgb8(RgbImage::from_raw(out.width(), out.height(), out.into_raw()).unwrap()), &names[0]) {
        Some(b) => v.push(b),
        None => return fail("output format"),
    }
    for (i, n) in names[1..].iter().enumerate() {
        let Some(c) = d.get_channel_grayscale(i) else { return fail("channel") };
        match encode(&DynamicImage::ImageLuma8(GrayImage::from_raw(c.width(), c.height(), c.into_raw()).unwrap()), n) {
            Some(b) => v.push(b),
            None => return fail("channel format"),
        }
    }
    Expect::Images(v)
}

fn decode(s: &Scenario) -> Option<RgbImage> {
    let b = s.input_bytes()?;
    let f = ImageFormat::from_path(&s.in_name).ok()?;
    Some(image::load_from_memory_with_format(&b, f).ok()?.into_rgb8())
}

#[derive(Default)]
pub struct Models {
    cache: HashMap<String, Expect>,
    pub computed: u64,
}

impl Models {
    pub fn get(&mut self, s: &Scenario) -> Expect {
        let key = format!("{} {} {} {} {} {} {} {} {} {:?} {}", s.cmd, s.img, s.enc, s.px, s.mode, s.in_name, s.out_name, s.dp, s.rp, s.opts, s.channels);
        if let Some(e) = self.cache.get(&key) {
            return e.clone();
        }
        if self.cache.len() > 3000 {
            self.cache.clear();
        }
        self.computed += 1;
        let e = unsafe { isolated(s) };
        self.cache.insert(key, e.clone());
        e
    }
}

unsafe fn isolated(s: &Scenario) -> Expect {
    let mut p = [0; 2];
    if libc::pipe(p.as_mut_ptr()) != 0 {
        libc::_exit(3);
    }
    let pid = libc::fork();
    if pid < 0 {
        libc::_exit(3);
    }
    if pid == 0 {
        libc::close(p[0]);
        libc::alarm(60);
        let n = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        libc::dup2(n, 2);
        let r = std::panic::catch_unwind(|| expect_inner(s)).unwrap_or(Expect::Fail("the library refuses the image".into()));
        let mut v: Vec<u8> = vec![];
        let mut put = |t: u8, parts: Vec<&[u8]>| {
            v.push(t);
            for b in parts {
                v.extend_from_slice(&(b.len() as u64).to_le_bytes());
                v.extend_from_slice(b);
            }
        };
        match &r {
            Expect::Fail(w) => put(1, vec![w.as_bytes()]),
            Expect::Palette(w) => put(2, vec![w.as_bytes()]),
            Expect::Images(i) => put(3, i.iter().map(|b| &b[..]).collect()),
            Expect::Unknown(w) => put(4, vec![w.as_bytes()]),
        }
        v.push(0xEE);
        let mut f = std::fs::File::from_raw_fd(p[1]);
        let _ = f.write_all(&v);
        libc::_exit(0);
    }
    libc::close(p[1]);
    let mut v = vec![];
    let _ = std::fs::File::from_raw_fd(p[0]).read_to_end(&mut v);
    let mut st = 0;
    while libc::waitpid(pid, &mut st, 0) < 0 {}
    if st != 0 || v.len() < 2 || v.pop() != Some(0xEE) {
        return Expect::Unknown(format!("the library ends with status {st}"));
    }
    let mut parts = vec![];
    let mut i = 1;
    while i + 8 <= v.len() {
        let n = u64::from_le_bytes(v[i..i + 8].try_into().unwrap()) as usize;
        parts.push(v[i + 8..i + 8 + n].to_vec());
        i += 8 + n;
    }
    let text = |p: &Vec<Vec<u8>>| String::from_utf8_lossy(p.first().map_or(&[][..], |x| &x[..])).into_owned();
    match v[0] {
        1 => Expect::Fail(text(&parts)),
        2 => Expect::Palette(text(&parts)),
        3 => Expect::Images(parts),
        _ => Expect::Unknown(text(&parts)),
    }
}
