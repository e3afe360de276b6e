//! Histories of several clients on one stateful searcher (L07).
//!
//! setup 0 is `S DIM PTS`.  Client operations: `q KIND:SEED` (find_simplex_mut), `f KIND:SEED`
//! (find_simplex), `b KIND:SEED` (barycentric_coords of a random simplex), `eps X`, `bf 0|1`,
//! `clr`.  `merge` says whose operation is next.

use crate::exec::{Out, Scenario};
use crate::ffi::*;
use crate::ops::{arr, Outcome, K_OK, K_PANIC};
use crate::spec::{self, mix, Hash, Rng};
use nalgebra::{Const, OVector, SVector};
use qhull_rs::Delaunay;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Solves for barycentric coordinates by Gaussian elimination with pivoting; the second value says
/// how well conditioned the simplex is (smallest pivot over largest).
fn bary(verts: &[Vec<f64>], q: &[f64]) -> Option<(Vec<f64>, f64)> {
    let d = q.len();
    let n = d + 1;
    let mut m = vec![vec![0.0; n + 1]; n];
    let scale = verts.iter().flatten().fold(0f64, |a, x| a.max(x.abs())).max(1e-300);
    let o = &verts[0];
    for r in 0..d {
        for (c, v) in verts.iter().enumerate() {
            m[r][c] = (v[r] - o[r]) / scale;
        }
        m[r][n] = (q[r] - o[r]) / scale;
    }
    for c in 0..n {
        m[d][c] = 1.0;
    }
    m[d][n] = 1.0;
    let (mut lo, mut hi) = (f64::INFINITY, 0f64);
    for c in 0..n {
        let p = (c..n).max_by(|a, b| m[*a][c].abs().partial_cmp(&m[*b][c].abs()).unwrap())?;
        m.swap(c, p);
        let v = m[c][c];
        if !(v.abs() > 1e-300) {
            return None;
        }
        lo = lo.min(v.abs());
        hi = hi.max(v.abs());
        for r in 0..n {
            if r != c {
                let f = m[r][c] / v;
                for k in c..=n {
                    let x = m[c][k];
                    m[r][k] -= f * x;
                }
            }
        }
    }
    Some(((0..n).map(|i| m[i][n] / m[i][i]).collect(), lo / hi))
}

#[derive(PartialEq, Clone, Copy, Debug)]
enum Where {
    Inside,
    Outside,
    Unknown,
}

/// A query point, and where it is known to be.
fn query(spec: &str, verts: &[Vec<f64>], simplices: &[Vec<usize>], generic: bool) -> (Vec<f64>, Where) {
    let (kind, seed) = spec.split_once(':').unwrap();
    let mut r = Rng::new(mix(77, seed.parse().unwrap_or(0)));
    let d = verts[0].len();
    let n = verts.len();
    let cent: Vec<f64> = (0..d).map(|k| verts.iter().map(|v| v[k]).sum::<f64>() / n as f64).collect();
    let combo = |r: &mut Rng| {
        let mut q = vec![0.0; d];
        let mut tot = 0.0;
        let sharp = r.range(1, 6) as i32;
        for v in verts {
            let w = r.f().powi(sharp) + 1e-9;
            tot += w;
            for k in 0..d {
                q[k] += w * v[k];
            }
        }
        q.iter().map(|x| x / tot).collect::<Vec<_>>()
    };
    let shrink = if generic { 1e-6 } else { 1e-2 };
    let towards = |q: Vec<f64>, f: f64| -> Vec<f64> { (0..d).map(|k| q[k] + (cent[k] - q[k]) * f).collect() };
    let lo: Vec<f64> = (0..d).map(|k| verts.iter().fold(f64::INFINITY, |a, v| a.min(v[k]))).collect();
    let hi: Vec<f64> = (0..d).map(|k| verts.iter().fold(-f64::INFINITY, |a, v| a.max(v[k]))).collect();
    let diam = (0..d).map(|k| (hi[k] - lo[k]).powi(2)).sum::<f64>().sqrt();
    match kind {
        "in" => (towards(combo(&mut r), shrink), Where::Inside),
        // inside a particular simplex
        "sx" => {
            let s = r.pick(simplices);
            let mut q = vec![0.0; d];
            let mut tot = 0.0;
            for &i in s {
                let w = 0.02 + r.f();
                tot += w;
                for k in 0..d {
                    q[k] += w * verts[i][k];
                }
            }
            (towards(q.iter().map(|x| x / tot).collect(), shrink), Where::Inside)
        }
        // on a face between simplices
        "fc" => {
            let s = r.pick(simplices);
            let skip = r.below(s.len() as u64) as usize;
            let mut q = vec![0.0; d];
            let mut tot = 0.0;
            for (j, &i) in s.iter().enumerate() {
                if j != skip {
                    let w = 0.02 + r.f();
                    tot += w;
                    for k in 0..d {
                        q[k] += w * verts[i][k];
                    }
                }
            }
            (q.iter().map(|x| x / tot).collect(), Where::Unknown)
        }
        // a vertex, pulled in a little
        "vx" => (towards(r.pick(verts).clone(), shrink.max(1e-3)), Where::Inside),
        "ve" => (r.pick(verts).clone(), Where::Unknown),
        // clearly outside: beyond the bounding box or beyond a supporting plane
        "out" => {
            let k = r.below(d as u64) as usize;
            let mut q = combo(&mut r);
            let m = diam * (0.25 + r.f());
            q[k] = if r.chance(1, 2) { hi[k] + m } else { lo[k] - m };
            (q, Where::Outside)
        }
        "cut" => {
            let dir: Vec<f64> = (0..d).map(|_| r.f() * 2.0 - 1.0).collect();
            let l = dir.iter().map(|x| x * x).sum::<f64>().sqrt().max(1e-9);
            let dot = |v: &[f64]| (0..d).map(|k| v[k] * dir[k] / l).sum::<f64>();
            let best = verts.iter().map(|v| dot(v)).fold(-f64::INFINITY, f64::max);
            let q = combo(&mut r);
            let need = best - dot(&q) + diam * (0.21 + 0.3 * r.f());
            ((0..d).map(|k| q[k] + dir[k] / l * need).collect(), Where::Outside)
        }
        "far" => ((0..d).map(|k| cent[k] + (r.f() - 0.5) * 1e6 * diam).collect::<Vec<_>>(), Where::Unknown),
        // anywhere around
        _ => ((0..d).map(|k| lo[k] + (hi[k] - lo[k]) * (r.f() * 1.4 - 0.2)).collect(), Where::Unknown),
    }
}

macro_rules! run_dim {
    ($n:literal, $p:literal, $sc:expr, $out:expr, $pts:expr, $kind:expr) => {{
        let sc: &Scenario = $sc;
        let out: &mut Out = $out;
        let pts = arr::<$n>($pts);
        let inside_target = |f: &mut dyn FnMut()| unsafe {
            sim_enter();
            let r = catch_unwind(AssertUnwindSafe(|| f()));
            sim_leave();
            r.is_ok()
        };
        let mut tri: Option<Delaunay<Const<$n>>> = None;
        let ok = inside_target(&mut || tri = Some(Delaunay::<Const<$n>>::from_arrays(&pts)));
        let o = Outcome::new(if ok { K_OK } else { K_PANIC }, "");
        out.setup[0] = o;
        let Some(tri) = tri.filter(|t| ok && t.simplices().len() > 0) else { return };
        let verts: Vec<Vec<f64>> = tri.vertices().map(|v| v.point().iter().copied().collect()).collect();
        let simplices: Vec<Vec<usize>> = tri.simplices().map(|s| s.vertices().map(|v| v.index()).collect()).collect();
        let lo: Vec<f64> = (0..$n).map(|k| verts.iter().fold(f64::INFINITY, |a, v| a.min(v[k]))).collect();
        let hi: Vec<f64> = (0..$n).map(|k| verts.iter().fold(-f64::INFINITY, |a, v| a.max(v[k]))).collect();
        let diam = (0..$n).map(|k| (hi[k] - lo[k]).powi(2)).sum::<f64>().sqrt();
        let generic = matches!($kind, "rand" | "sphere" | "simplex");
        let mut se = None;
        if !inside_target(&mut || se = Some(tri.simplex_searcher())) {
            out.violation("a searcher can't be made for a triangulation");
            return;
        }
        let mut se = se.unwrap();
        let mut pos = vec![0usize; sc.threads.len()];
        // the tolerance and mode that were asked for last
        let mut eps = f64::EPSILON;
        let mut step = 0;
        for &c in &sc.merge {
            let c = c as usize;
            if c >= sc.threads.len() || pos[c] >= sc.threads[c].len() {
                continue;
            }
            let i = pos[c];
            pos[c] += 1;
            let op = &sc.threads[c][i];
            let (k, rest) = op.split_once(' ').unwrap_or((op, ""));
            step += 1;
            let mut h = Hash::new();
            let mut kind = K_OK;
            match k {
                "eps" => {
                    eps = rest.parse().unwrap();
                    inside_target(&mut || { se.set_eps(eps); });
                    if se.eps() != eps {
                        out.violation("the tolerance that was set is not the tolerance in use");
                    }
                }
                "bf" => {
                    let b = rest == "1";
                    inside_target(&mut || { se.set_bruteforce(b); });
                    if se.bruteforce() != b {
                        out.violation("the search mode that was set is not the mode in use");
                    }
                }
                "clr" => {
                    inside_target(&mut || { se.clear_start_hint(); });
                }
                "b" => {
                    let seed: u64 = rest.rsplit(':').next().unwrap().parse().unwrap();
                    let si = (mix(3, seed) % simplices.len() as u64) as usize;
                    let (q, _) = query(rest, &verts, &simplices, generic);
                    let qv = SVector::<f64, $n>::from_column_slice(&q);
                    let mut co = OVector::<f64, Const<$p>>::zeros();
                    let s = tri.simplices().nth(si).unwrap();
                    if !inside_target(&mut || co = se.barycentric_coords(s.clone(), qv.clone())) {
                        out.violation("barycentric_coords panicked");
                    }
                    let sv: Vec<Vec<f64>> = simplices[si].iter().map(|&v| verts[v].clone()).collect();
                    if let Some((bc, cond)) = bary(&sv, &q) {
                        let big = bc.iter().fold(1f64, |a, x| a.max(x.abs()));
                        if cond > 1e-6 && (0..$p).any(|k| !((co[k] - bc[k]).abs() <= 1e-4 * big)) {
                            out.violation(&format!("step {step} client {c} `{op}`: wrong barycentric coordinates"));
                        }
                    }
                    for x in co.iter() { h.f64(*x) }
                }
                _ => {
                    let (q, wh) = query(rest, &verts, &simplices, generic);
                    let qv = SVector::<f64, $n>::from_column_slice(&q);
                    // whatever was in the caller's buffer before must not matter
                    let mut co = OVector::<f64, Const<$p>>::from_element(if i % 2 == 0 { 0.25 } else { f64::NAN });
                    let mut found = None;
                    let mutable = k == "q";
                    if !inside_target(&mut || {
                        found = if mutable { se.find_simplex_mut(&qv, &mut co) } else { se.find_simplex(&qv) };
                    }) {
                        kind = K_PANIC;
                        out.violation(&format!("step {step} client {c} `{op}` (eps {eps:e}): the search panicked"));
                    }
                    let bad = |out: &mut Out, what: &str| {
                        out.violation(&format!("step {step} client {c} `{op}` (eps {eps:e}): {what}"));
                    };
                    match found {
                        None => {
                            out.probes[1] += 1;
                            h.u64(u64::MAX);
                            if wh == Where::Inside && eps >= 1e-10 && kind == K_OK {
                                bad(out, "a point clearly inside the triangulation was not found");
                            }
                        }
                        Some(s) => {
                            out.probes[0] += 1;
                            let si = s.index();
                            h.u64(si as u64);
                            if wh == Where::Outside && eps <= 1e-6 {
                                bad(out, "a point clearly outside the triangulation was located inside it");
                            }
                            let same = si < simplices.len()
                                && s.vertices().map(|v| v.index()).eq(simplices[si].iter().copied());
                            if !same {
                                bad(out, "the returned simplex is not one of the triangulation");
                            } else {
                                let sv: Vec<Vec<f64>> = simplices[si].iter().map(|&v| verts[v].clone()).collect();
                                let tol = if eps < 1.0 { eps.sqrt() } else { eps } * 1.001 + 1e-9;
                                if mutable {
                                    for x in co.iter() { h.f64(*x) }
                                    let sum: f64 = co.iter().sum();
                                    let big = co.iter().fold(1f64, |a, x| a.max(x.abs()));
                                    if !((sum - 1.0).abs() <= 1e-6 * big) {
                                        bad(out, "the coordinates don't sum to one");
                                    } else if co.iter().any(|x| !(*x >= -tol && *x <= 1.0 + tol)) {
                                        bad(out, "the coordinates are outside of the simplex");
                                    } else {
                                        let err = (0..$n).map(|k| {
                                            let p: f64 = (0..$p).map(|v| co[v] * sv[v][k]).sum();
                                            (p - q[k]).powi(2)
                                        }).sum::<f64>().sqrt();
                                        if !(err <= 5e-3 * diam * big) {
                                            bad(out, "the coordinates don't reproduce the point");
                                        }
                                    }
                                }
                                if let Some((bc, cond)) = bary(&sv, &q) {
                                    let big = bc.iter().fold(1f64, |a, x| a.max(x.abs()));
                                    if cond > 1e-5 {
                                        out.probes[2] += 1;
                                        if bc.iter().any(|x| !(*x >= -tol - 1e-5 && *x <= 1.0 + tol + 1e-5)) {
                                            bad(out, "the returned simplex does not contain the point");
                                        }
                                        if mutable && (0..$p).any(|k| !((co[k] - bc[k]).abs() <= 1e-4 * big)) {
                                            bad(out, "the coordinates are not those of the point in the simplex");
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            }
            let mut o = Outcome::new(kind, "");
            o.h = h;
            out.ops[c][i] = o;
            if out.viol != 0 {
                return;
            }
        }
    }};
}

pub fn run(sc: &Scenario, out: &mut Out) {
    let Some(s) = sc.setup.first() else { return };
    let w: Vec<&str> = s.split_whitespace().collect();
    let d: usize = w[1].parse().unwrap();
    let kind = w[2].split(':').next().unwrap();
    let p = spec::points(w[2], d);
    match d {
        2 => run_dim!(2, 3, sc, out, &p, kind),
        3 => run_dim!(3, 4, sc, out, &p, kind),
        4 => run_dim!(4, 5, sc, out, &p, kind),
        _ => run_dim!(5, 6, sc, out, &p, kind),
    }
}
