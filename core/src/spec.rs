//! Deterministic random numbers and the small languages that describe images, palettes and point
//! sets in scenarios.

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed ^ 0x5DEECE66D1CE4E5B);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
    pub fn range(&mut self, a: u64, b: u64) -> u64 {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    pub fn f(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    /// Log-uniform.
    pub fn log(&mut self, a: f64, b: f64) -> f64 {
        (a.ln() + self.f() * (b.ln() - a.ln())).exp()
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a.rotate_left(17) ^ b.wrapping_mul(0xD6E8FEB86659FD93));
    r.next()
}

pub fn hash_str(s: &str) -> (u64, u64) {
    let mut h = Hash::new();
    h.bytes(s.as_bytes());
    (h.0, h.1)
}

/// 128 bit hash of results.
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Hash(pub u64, pub u64);

impl Hash {
    pub fn new() -> Hash {
        Hash(0xcbf29ce484222325, 0x9E3779B97F4A7C15)
    }
    pub fn u64(&mut self, v: u64) {
        self.0 = (self.0 ^ v).wrapping_mul(0x100000001b3).rotate_left(23);
        self.1 = (self.1.rotate_left(31) ^ v).wrapping_mul(0xff51afd7ed558ccd);
        self.1 ^= self.1 >> 29;
    }
    pub fn bytes(&mut self, b: &[u8]) {
        self.u64(b.len() as u64);
        for c in b.chunks(8) {
            let mut v = [0u8; 8];
            v[..c.len()].copy_from_slice(c);
            self.u64(u64::from_le_bytes(v));
        }
    }
    pub fn f64(&mut self, v: f64) {
        self.u64(v.to_bits())
    }
}

pub struct Img {
    pub w: u32,
    pub h: u32,
    pub px: Vec<[u8; 3]>,
}

/// `kind:w:h:seed[:modifier...]`, modifiers: `m<k>` changes pixel k, `r` reverses the pixels,
/// `s<k>` swaps the first pixel with pixel k, `x<k>` gives all repeated pixels the colour of pixel k
/// (the same colours in other proportions).
pub fn image(spec: &str) -> Img {
    let f: Vec<&str> = spec.split(':').collect();
    let kind = f[0];
    let w: u32 = f[1].parse().unwrap();
    let h: u32 = f[2].parse().unwrap();
    let seed: u64 = f[3].parse().unwrap();
    let n = (w * h) as usize;
    let mut r = Rng::new(mix(hash_str(kind).0, seed));
    let mut px: Vec<[u8; 3]> = Vec::with_capacity(n);
    match kind {
        "rand" => {
            for _ in 0..n {
                px.push([r.next() as u8, r.next() as u8, r.next() as u8]);
            }
        }
        "grad" => {
            let (a, b, c) = (r.range(1, 60), r.range(1, 60), r.range(1, 9));
            for y in 0..h as u64 {
                for x in 0..w as u64 {
                    px.push([
                        (x * a + r.below(c + 1)).min(255) as u8,
                        (y * b + r.below(c + 1)).min(255) as u8,
                        ((x + y) * 7 + r.below(40)).min(255) as u8,
                    ]);
                }
            }
        }
        "pal" => {
            let k = r.range(5, 9);
            let cols: Vec<[u8; 3]> =
                (0..k).map(|_| [r.next() as u8, r.next() as u8, r.next() as u8]).collect();
            for i in 0..n {
                px.push(if i < cols.len() { cols[i] } else { *r.pick(&cols) });
            }
        }
        "cube" => {
            let (lo, hi) = *r.pick(&[(0u8, 255u8), (60, 200), (1, 254), (100, 160)]);
            let v = |b: u64| if b & 1 == 1 { hi } else { lo };
            let off = r.below(8);
            for i in 0..n {
                let k = if i < 8 { (i as u64 + off) % 8 } else { r.below(8) };
                px.push([v(k), v(k >> 1), v(k >> 2)]);
            }
        }
        "octa" => {
            let c = [[255, 128, 128], [1, 128, 128], [128, 255, 128], [128, 1, 128], [128, 128, 255], [128, 128, 1], [128, 128, 128]];
            for i in 0..n {
                px.push(if i < 7 { c[i] } else { *r.pick(&c) });
            }
        }
        "prism" => {
            // two parallel hexagons: many equally good collapses
            let c = [
                [200u8, 128, 60], [164, 190, 60], [92, 190, 60], [56, 128, 60], [92, 66, 60], [164, 66, 60],
                [200, 128, 200], [164, 190, 200], [92, 190, 200], [56, 128, 200], [92, 66, 200], [164, 66, 200],
            ];
            for i in 0..n {
                px.push(if i < 12 { c[i] } else { *r.pick(&c) });
            }
        }
        "ball" => {
            for _ in 0..n {
                let (a, b) = (r.f() * 6.283185307179586, r.f() * 2.0 - 1.0);
                let q = (1.0 - b * b).sqrt();
                px.push([
                    (128.0 + 120.0 * q * a.cos()) as u8,
                    (128.0 + 120.0 * q * a.sin()) as u8,
                    (128.0 + 120.0 * b) as u8,
                ]);
            }
        }
        "gray" => {
            for _ in 0..n {
                let v = r.next() as u8;
                px.push([v, v, v]);
            }
        }
        "plane" => {
            for _ in 0..n {
                px.push([r.next() as u8, r.next() as u8, 77]);
            }
        }
        "near" => {
            let b = [r.range(20, 230) as u8, r.range(20, 230) as u8, r.range(20, 230) as u8];
            for _ in 0..n {
                px.push([
                    b[0] + r.below(4) as u8,
                    b[1] + r.below(4) as u8,
                    b[2] + r.below(4) as u8,
                ]);
            }
        }
        // nearly linear in x and y
        "lin" => {
            let (a, b) = (r.range(1, 9), r.range(1, 9));
            let q = r.range(2, 30);
            for y in 0..h as u64 {
                for x in 0..w as u64 {
                    let c = [x * a, y * b, x * b + y * a];
                    px.push(c.map(|v| (v + r.chance(1, q) as u64).min(255) as u8));
                }
            }
        }
        // two colours, the shades between them, and a few other pixels
        "text" => {
            let (a, b) = ([r.next() as u8, r.next() as u8, r.next() as u8], [r.next() as u8, r.next() as u8, r.next() as u8]);
            for _ in 0..n {
                let t = r.below(5) as i32;
                let mut c = [0u8; 3];
                for i in 0..3 {
                    c[i] = (a[i] as i32 + (b[i] as i32 - a[i] as i32) * t / 4) as u8;
                }
                if r.chance(1, 9) {
                    c[r.below(3) as usize] ^= 1;
                }
                px.push(c);
            }
        }
        // smooth
        "photo" => {
            let mut k = || (r.f() * 0.6 + 0.05, r.f() * 0.6 + 0.05, r.f() * 6.0);
            let f: Vec<(f64, f64, f64)> = (0..6).map(|_| k()).collect();
            for y in 0..h {
                for x in 0..w {
                    let s = |i: usize| (f[i].0 * x as f64 + f[i].1 * y as f64 + f[i].2).sin();
                    px.push([0, 1, 2].map(|i| (127.5 + 80.0 * s(i) + 40.0 * s(i + 3)) as u8));
                }
            }
        }
        "mono" => {
            let q = r.range(3, 12);
            for _ in 0..n {
                let v = r.range(5, 250) as u8;
                let mut c = [v; 3];
                if r.chance(1, q) {
                    c[r.below(3) as usize] ^= 1;
                }
                px.push(c);
            }
        }
        "line" => {
            let (a, b) = ([r.next() as u8, r.next() as u8, r.next() as u8], [r.next() as u8, r.next() as u8, r.next() as u8]);
            let q = r.range(3, 12);
            for i in 0..n {
                let mut c = [0u8; 3];
                for k in 0..3 {
                    c[k] = (a[k] as i32 + (b[k] as i32 - a[k] as i32) * i as i32 / n as i32) as u8;
                }
                if r.chance(1, q) {
                    c[r.below(3) as usize] ^= 1;
                }
                px.push(c);
            }
        }
        "tri" => {
            let (a, b) = ([r.next() as u8, r.next() as u8, r.next() as u8], [r.next() as u8, r.next() as u8, r.next() as u8]);
            let q = r.range(2, 12);
            let m = r.range(2, 12) as i32;
            for _ in 0..n {
                let t = r.below(m as u64 + 1) as i32;
                let mut c = [0u8; 3];
                for i in 0..3 {
                    c[i] = (a[i] as i32 + (b[i] as i32 - a[i] as i32) * t / m) as u8;
                }
                if r.chance(1, q) {
                    c[r.below(3) as usize] ^= 1;
                }
                px.push(c);
            }
        }
        "gray" => {
            for _ in 0..n {
                let v = r.next() as u8;
                px.push([v, v, v]);
            }
        }
        "plane" => {
            for _ in 0..n {
                px.push([r.next() as u8, r.next() as u8, 77]);
            }
        }
        "near" => {
            let b = [r.range(20, 230) as u8, r.range(20, 230) as u8, r.range(20, 230) as u8];
            for _ in 0..n {
                px.push([
                    b[0] + r.below(4) as u8,
                    b[1] + r.below(4) as u8,
                    b[2] + r.below(4) as u8,
                ]);
            }
        }
        // all around the edge of the colour cube
        "shell" => {
            let q = 1.0 + 0.7 * r.f();
            for _ in 0..n {
                let v = [0, 1, 2].map(|_| r.f() + r.f() + r.f() - 1.5);
                let l = v.iter().map(|x| x * x).sum::<f64>().sqrt().max(1e-3);
                px.push(v.map(|x| (127.5 + 127.5 * q * x / l).clamp(0.0, 255.0) as u8));
            }
        }
        "flat" => {
            let c = [r.next() as u8, r.next() as u8, r.next() as u8];
            px.resize(n, c);
        }
        _ => panic!("unknown image kind {kind}"),
    }
    for m in &f[4..] {
        let k: usize = m[1..].parse().unwrap_or(0);
        match &m[..1] {
            "m" if n > 0 => {
                let p = &mut px[k % n];
                *p = [p[0] ^ 0x40, p[1].wrapping_add(37), p[2] ^ 0x81];
            }
            "r" => px.reverse(),
            "s" if n > 0 => px.swap(0, k % n),
            "x" if n > 0 => {
                let c = px[k % n];
                for i in (0..n).rev() {
                    if px[..i].contains(&px[i]) {
                        px[i] = c;
                    }
                }
            }
            _ => {}
        }
    }
    Img { w, h, px }
}

/// `kind:n:seed[:modifier...]`, modifiers: `p<k>` rotates by k, `m<k>` changes colour k a little.
pub fn palette(spec: &str) -> Vec<[u8; 3]> {
    let f: Vec<&str> = spec.split(':').collect();
    let kind = f[0];
    let n: usize = f[1].parse().unwrap();
    let seed: u64 = f[2].parse().unwrap();
    let mut r = Rng::new(mix(hash_str(kind).0, seed));
    let mut p: Vec<[u8; 3]> = vec![];
    match kind {
        // any colours (for reconstruction)
        "any" => {
            for _ in 0..n {
                p.push([r.next() as u8, r.next() as u8, r.next() as u8]);
            }
        }
        // vertices of their hull: on a sphere
        "ball" => {
            while p.len() < n {
                let (a, b) = (r.f() * 6.283185307179586, r.f() * 2.0 - 1.0);
                let q = (1.0 - b * b).sqrt();
                let c = [
                    (127.5 + 127.0 * q * a.cos()) as u8,
                    (127.5 + 127.0 * q * a.sin()) as u8,
                    (127.5 + 127.0 * b) as u8,
                ];
                if p.iter().all(|o: &[u8; 3]| (0..3).map(|i| (o[i] as i32 - c[i] as i32).pow(2)).sum::<i32>() > 900) {
                    p.push(c);
                }
            }
        }
        "cube" => {
            for k in 0..8u32 {
                let v = |b: u32| if (k >> b) & 1 == 1 { 255 } else { 0 };
                p.push([v(0), v(1), v(2)]);
            }
        }
        "box" => {
            let lo = [r.below(80) as u8, r.below(80) as u8, r.below(80) as u8];
            let hi = [r.range(150, 255) as u8, r.range(150, 255) as u8, r.range(150, 255) as u8];
            for k in 0..8usize {
                let v = |b: usize| if (k >> b) & 1 == 1 { hi[b] } else { lo[b] };
                p.push([v(0), v(1), v(2)]);
            }
        }
        "tet" => {
            p = vec![[0, 0, 0], [255, 0, 0], [0, 255, 0], [0, 0, 255]];
            let k = r.below(4) as usize;
            p[k] = [p[k][0] ^ r.below(32) as u8, p[k][1] ^ r.below(32) as u8, p[k][2] ^ r.below(32) as u8];
        }
        // one colour inside the hull of the others
        "dup" => {
            p = vec![[0, 0, 0], [255, 0, 0], [0, 255, 0], [0, 0, 255], [255, 255, 255]];
            let k = r.below(p.len() as u64 + 1) as usize;
            p.insert(k, [r.range(60, 110) as u8, r.range(60, 110) as u8, r.range(60, 110) as u8]);
        }
        // the same colour twice
        "twice" => {
            p = vec![[0, 0, 0], [255, 0, 0], [0, 255, 0], [0, 0, 255], [255, 255, 255]];
            let k = r.below(p.len() as u64) as usize;
            p.push(p[k]);
        }
        // all in a plane
        "flat" => {
            for _ in 0..n {
                p.push([r.next() as u8, r.next() as u8, 50]);
            }
        }
        "small" => {
            for _ in 0..n.min(3) {
                p.push([r.next() as u8, r.next() as u8, r.next() as u8]);
            }
        }
        _ => panic!("unknown palette kind {kind}"),
    }
    for m in &f[3..] {
        let k: usize = m[1..].parse().unwrap_or(0);
        let len = p.len().max(1);
        match &m[..1] {
            "p" => p.rotate_left(k % len),
            "m" if !p.is_empty() => {
                let c = &mut p[k % len];
                *c = [c[0] ^ 3, c[1] ^ 5, c[2] ^ 6];
            }
            _ => {}
        }
    }
    p
}

/// `kind:n:seed`
pub fn points(spec: &str, dim: usize) -> Vec<Vec<f64>> {
    let f: Vec<&str> = spec.split(':').collect();
    let kind = f[0];
    let n: usize = f[1].parse().unwrap();
    let seed: u64 = f[2].parse().unwrap();
    let mut r = Rng::new(mix(hash_str(kind).0, seed ^ (dim as u64) << 50));
    let mut p: Vec<Vec<f64>> = vec![];
    match kind {
        "rand" => {
            for _ in 0..n {
                p.push((0..dim).map(|_| r.f()).collect());
            }
        }
        "grid" => {
            let k = r.range(2, 4);
            for _ in 0..n {
                p.push((0..dim).map(|_| r.below(k) as f64 / k as f64 * 1.7).collect());
            }
        }
        "lattice" => {
            // a full lattice: cospherical points and degenerate simplices
            let k = r.range(2, 3);
            let total = (k as usize).pow(dim as u32);
            for i in 0..total.min(n.max(dim + 2)) {
                let mut i = i;
                let mut v = vec![];
                for _ in 0..dim {
                    v.push((i % k as usize) as f64);
                    i /= k as usize;
                }
                p.push(v);
            }
        }
        "sphere" => {
            for _ in 0..n {
                let v: Vec<f64> = (0..dim).map(|_| r.f() * 2.0 - 1.0).collect();
                let l = v.iter().map(|x| x * x).sum::<f64>().sqrt().max(1e-3);
                p.push(v.iter().map(|x| x / l).collect());
            }
        }
        "clust" => {
            for i in 0..n {
                let s = if i % 3 == 0 { 1.0 } else { 0.01 };
                p.push((0..dim).map(|_| 0.3 + s * r.f()).collect());
            }
        }
        "simplex" => {
            for i in 0..=dim {
                p.push((0..dim).map(|k| if k + 1 == i { 1.0 } else { 0.2 * r.f() }).collect());
            }
        }
        "twice" => {
            for i in 0..n {
                let v: Vec<f64> = (0..dim).map(|_| r.f()).collect();
                p.push(v.clone());
                if i % 3 == 0 {
                    p.push(v);
                }
            }
        }
        "big" => {
            for _ in 0..n {
                p.push((0..dim).map(|_| 1000.0 + 50.0 * r.f()).collect());
            }
        }
        // all in a hyperplane
        "flat" => {
            for _ in 0..n {
                let mut v: Vec<f64> = (0..dim).map(|_| r.f()).collect();
                v[dim - 1] = 0.5;
                p.push(v);
            }
        }
        "few" => {
            for _ in 0..n.min(dim) {
                p.push((0..dim).map(|_| r.f()).collect());
            }
        }
        _ => panic!("unknown point kind {kind}"),
    }
    p
}
