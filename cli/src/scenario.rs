//! What one run of the tool looks like.

use crate::spec;
use image::{DynamicImage, ImageFormat, ImageOutputFormat, RgbImage};
use std::io::Cursor;

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Scenario {
    pub prop: String,
    /// recolor or palette
    pub cmd: String,
    /// image spec, encoding, pixel type, mode
    pub img: String,
    pub enc: String,
    pub px: String,
    pub mode: String,
    pub in_name: String,
    pub out_name: String,
    /// where the outputs belong: out (if empty), out/new (which does not exist), in
    pub dir: String,
    /// colour lists, in hex
    pub dp: String,
    pub rp: String,
    pub opts: Vec<String>,
    pub channels: bool,
    /// 0 absolute paths from another directory, 1 relative from the root, 2 from the output's
    /// directory, 3 relative from another directory
    pub cwd: u32,
    /// existing outputs: which, and what
    pub pre: Vec<(u32, String)>,
    pub hash: u64,
    pub clock: u64,
    pub irr: u64,
    pub p_short: u32,
    pub p_eintr: u32,
    pub chunk: u32,
    pub faults: Vec<(u32, u32, i64)>,
    pub cap: i64,
}

const KINDS: [&str; 7] = ["", "short", "eintr", "err", "err-on", "kill", "kill-mid"];

impl Scenario {
    pub fn text(&self) -> String {
        let mut s = format!(
            "prop {}\ncmd {}\ninput {} {} {} {}\nin {}\nout {}\ndir {}\ndp {}\nrp {}\nopts {}\nchannels {}\ncwd {}\n",
            self.prop, self.cmd, self.img, self.enc, self.px, self.mode, self.in_name, self.out_name, self.dir(), self.dp, self.rp,
            self.opts.join(" "), self.channels as u32, self.cwd
        );
        for (i, k) in &self.pre {
            s += &format!("pre {i} {k}\n");
        }
        s += &format!("seeds {} {}\nirr {} {} {} {}\n", self.hash, self.clock, self.irr, self.p_short, self.p_eintr, self.chunk);
        for (op, k, a) in &self.faults {
            s += &format!("fault {op} {} {a}\n", KINDS[*k as usize]);
        }
        s += &format!("cap {}\n", self.cap);
        s
    }

    pub fn parse(t: &str) -> Scenario {
        let mut s = Scenario { cap: -1, ..Default::default() };
        for l in t.lines() {
            let (k, rest) = l.split_once(' ').unwrap_or((l, ""));
            let w: Vec<&str> = rest.split_whitespace().collect();
            let n = |i: usize| w[i].parse::<u64>().unwrap();
            let rest = rest.trim().to_string();
            match k {
                "prop" => s.prop = rest,
                "cmd" => s.cmd = rest,
                "input" => {
                    s.img = w[0].into();
                    s.enc = w[1].into();
                    s.px = w[2].into();
                    s.mode = w[3].into();
                }
                "in" => s.in_name = rest,
                "out" => s.out_name = rest,
                "dir" => s.dir = if rest == "out" { String::new() } else { rest },
                "dp" => s.dp = rest,
                "rp" => s.rp = rest,
                "opts" => s.opts = w.iter().map(|x| x.to_string()).collect(),
                "channels" => s.channels = rest == "1",
                "cwd" => s.cwd = n(0) as u32,
                "pre" => s.pre.push((n(0) as u32, w[1].into())),
                "seeds" => (s.hash, s.clock) = (n(0), n(1)),
                "irr" => (s.irr, s.p_short, s.p_eintr, s.chunk) = (n(0), n(1) as u32, n(2) as u32, n(3) as u32),
                "fault" => {
                    let kind = KINDS.iter().position(|x| *x == w[1]).unwrap() as u32;
                    s.faults.push((n(0) as u32, kind, w[2].parse().unwrap()));
                }
                "cap" => s.cap = rest.parse().unwrap(),
                _ => {}
            }
        }
        s
    }

    /// The bytes of the input file (none: there is no such file; `dir`: a directory).
    pub fn input_bytes(&self) -> Option<Vec<u8>> {
        let i = spec::image(&self.img);
        let rgb = RgbImage::from_fn(i.w, i.h, |x, y| image::Rgb(i.px[(y * i.w + x) as usize]));
        let d = DynamicImage::ImageRgb8(rgb);
        let d = match self.px.as_str() {
            "rgba" => DynamicImage::ImageRgba8(d.to_rgba8()),
            "gray" => DynamicImage::ImageLuma8(d.to_luma8()),
            "rgb16" => DynamicImage::ImageRgb16(d.to_rgb16()),
            _ => d,
        };
        let f = match self.enc.as_str() {
            "png" => ImageOutputFormat::Png,
            "bmp" => ImageOutputFormat::Bmp,
            "gif" => ImageOutputFormat::Gif,
            "jpg" => ImageOutputFormat::Jpeg(90),
            "tiff" => ImageOutputFormat::Tiff,
            "tga" => ImageOutputFormat::Tga,
            "qoi" => ImageOutputFormat::Qoi,
            _ => ImageOutputFormat::Pnm(image::codecs::pnm::PnmSubtype::ArbitraryMap),
        };
        let mut v = vec![];
        if d.write_to(&mut Cursor::new(&mut v), f.clone()).is_err() {
            v.clear();
            let d = DynamicImage::ImageRgb8(d.to_rgb8());
            if d.write_to(&mut Cursor::new(&mut v), f.clone()).is_err() {
                v.clear();
                DynamicImage::ImageRgba8(d.to_rgba8()).write_to(&mut Cursor::new(&mut v), ImageOutputFormat::Png).unwrap();
            }
        }
        let (m, a) = self.mode.split_once(':').unwrap_or((&self.mode, "0"));
        let a: usize = a.parse().unwrap();
        match m {
            "missing" | "dir" => return None,
            "empty" => v.clear(),
            "trunc" => v.truncate(v.len() * (a % 100) / 100),
            "garbage" => {
                let mut r = spec::Rng::new(a as u64);
                v.iter_mut().for_each(|b| *b = r.next() as u8);
            }
            "flip" => {
                let n = v.len();
                v[(a * 7919) % n] ^= 1 << (a % 8);
            }
            "more" => v.extend_from_slice(&vec![0x41; a]),
            _ => {}
        }
        Some(v)
    }

    pub fn colors(list: &str) -> Option<Vec<[u8; 3]>> {
        list.split(',')
            .map(|c| {
                if c.len() != 6 || !c.is_ascii() {
                    return None;
                }
                let h = |i: usize| u8::from_str_radix(&c[i..i + 2], 16).ok();
                Some([h(0)?, h(2)?, h(4)?])
            })
            .collect()
    }

    pub fn format(name: &str) -> Option<ImageFormat> {
        ImageFormat::from_path(name).ok()
    }

    pub fn dir(&self) -> &str {
        if self.dir.is_empty() { "out" } else { &self.dir }
    }

    pub fn in_place(&self) -> bool {
        self.dir() == "in" && self.in_name == self.out_name
    }

    /// The names the tool may write, the output first.
    pub fn outputs(&self) -> Vec<String> {
        if self.cmd != "recolor" {
            return vec![];
        }
        let mut v = vec![self.out_name.clone()];
        if self.channels {
            let p = std::path::Path::new(&self.out_name);
            let stem = p.file_stem().unwrap_or_default().to_string_lossy().into_owned();
            let ext = p.extension().unwrap_or_default().to_string_lossy().into_owned();
            for (i, c) in Self::colors(&self.dp).unwrap_or_default().iter().enumerate() {
                v.push(format!("{stem}_channel_{i}_{:02X}{:02X}{:02X}.{ext}", c[0], c[1], c[2]));
            }
        }
        v
    }
}

/// A name as the file system has it: U+E080 to U+E0FF stand for bytes that are no UTF-8.
pub fn os(name: &str) -> std::ffi::OsString {
    let mut v = vec![];
    for c in name.chars() {
        if ('\u{E080}'..='\u{E0FF}').contains(&c) { v.push(c as u32 as u8) } else { v.extend_from_slice(c.to_string().as_bytes()) }
    }
    std::os::unix::ffi::OsStringExt::from_vec(v)
}

pub fn hex(p: &[[u8; 3]]) -> String {
    p.iter().map(|c| format!("{:02x}{:02x}{:02x}", c[0], c[1], c[2])).collect::<Vec<_>>().join(",")
}
