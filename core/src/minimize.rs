//! Shrinks a failing scenario while the same class of violation persists.

use crate::exec::*;
use crate::props::run_and_judge;
use std::time::{Duration, Instant};

struct M<'a> {
    class: &'a str,
    refs: &'a mut Refs,
    sim: &'a Sim,
    end: Instant,
    msg: String,
}

impl<'a> M<'a> {
    fn fails(&mut self, sc: &Scenario) -> bool {
        if Instant::now() > self.end || sc.threads.is_empty() || sc.threads.iter().all(|t| t.is_empty()) || !sc.well_formed() {
            return false;
        }
        match run_and_judge(sc, self.refs, self.sim).1 {
            Some(v) if v.class == self.class => {
                self.msg = v.msg;
                true
            }
            _ => false,
        }
    }

    /// Fails with this schedule or another one of the same kind.
    fn fails_somehow(&mut self, sc: &Scenario) -> Option<Scenario> {
        if self.fails(sc) {
            return Some(sc.clone());
        }
        if matches!(sc.sched.mode, 1 | 2) {
            for k in 1..4 {
                let mut s = sc.clone();
                s.sched.seed = sc.sched.seed.wrapping_add(k);
                if self.fails(&s) {
                    return Some(s);
                }
            }
        }
        None
    }

    fn time(&self) -> bool {
        Instant::now() < self.end
    }
}

fn drop_thread(sc: &Scenario, t: usize) -> Scenario {
    let mut s = sc.clone();
    s.threads.remove(t);
    s.merge = sc
        .merge
        .iter()
        .filter(|c| **c as usize != t)
        .map(|c| if *c as usize > t { c - 1 } else { *c })
        .collect();
    let id = t as u32 + 1;
    s.stalls.retain(|x| x.0 != id);
    for x in s.stalls.iter_mut() {
        x.0 -= (x.0 > id) as u32;
    }
    s
}

fn drop_op(sc: &Scenario, t: usize, i: usize) -> Scenario {
    let mut s = sc.clone();
    s.threads[t].remove(i);
    if !s.merge.is_empty() {
        let mut k = 0;
        let mut seen = 0;
        for (j, c) in sc.merge.iter().enumerate() {
            if *c as usize == t {
                if seen == i {
                    k = j;
                    break;
                }
                seen += 1;
            }
        }
        s.merge.remove(k);
    }
    s
}

/// Setup line k is not referred to any more.
fn drop_setup(sc: &Scenario, k: usize) -> Option<Scenario> {
    let mut s = sc.clone();
    s.setup.remove(k);
    for t in s.threads.iter_mut() {
        for o in t.iter_mut() {
            let mut words = vec![];
            for w in o.split(' ') {
                match w.strip_prefix('@').and_then(|x| x.parse::<usize>().ok()) {
                    Some(j) if j == k => return None,
                    Some(j) if j > k => words.push(format!("@{}", j - 1)),
                    _ => words.push(w.to_string()),
                }
            }
            *o = words.join(" ");
        }
    }
    Some(s)
}

pub fn minimize(sc: &Scenario, class: &str, refs: &mut Refs, sim: &Sim, limit: Duration) -> (Scenario, String) {
    let mut m = M { class, refs, sim, end: Instant::now() + limit, msg: String::new() };
    let mut best = sc.clone();
    if !m.fails(&best) {
        return (best, "not reproduced".into());
    }
    let l07 = !best.merge.is_empty();
    // structure
    loop {
        let mut changed = false;
        for t in (0..best.threads.len()).rev() {
            if best.threads.len() > 1 && m.time() {
                if let Some(s) = m.fails_somehow(&drop_thread(&best, t)) {
                    best = s;
                    changed = true;
                }
            }
        }
        for t in (0..best.threads.len()).rev() {
            // halves first
            let mut n = best.threads[t].len() / 2;
            while n >= 1 {
                let mut i = 0;
                while i < best.threads[t].len() && m.time() {
                    let mut s = best.clone();
                    for _ in 0..n {
                        if i < s.threads[t].len() {
                            s = drop_op(&s, t, i);
                        }
                    }
                    if s.threads.iter().map(|t| t.len()).sum::<usize>() == 0 {
                        break;
                    }
                    match m.fails_somehow(&s) {
                        Some(s) => {
                            best = s;
                            changed = true;
                        }
                        None => i += n,
                    }
                }
                n /= 2;
            }
        }
        if !l07 {
            for k in (0..best.setup.len()).rev() {
                if let Some(s) = drop_setup(&best, k) {
                    if let Some(s) = m.fails_somehow(&s) {
                        best = s;
                        changed = true;
                    }
                }
            }
        }
        for k in (0..best.faults.len()).rev() {
            let mut s = best.clone();
            s.faults.remove(k);
            if m.fails(&s) {
                best = s;
                changed = true;
            }
        }
        for k in (0..best.stalls.len()).rev() {
            let mut s = best.clone();
            s.stalls.remove(k);
            if m.fails(&s) {
                best = s;
                changed = true;
            }
        }
        if !changed || !m.time() {
            break;
        }
    }
    // flags and spawning
    for t in 0..best.threads.len() {
        for i in 0..best.threads[t].len() {
            for f in [" +slow", " +o", " +n"] {
                if best.threads[t][i].contains(f) {
                    let mut s = best.clone();
                    let words = best.threads[t][i].split(' ').filter(|w| !w.starts_with(f.trim()));
                    s.threads[t][i] = words.collect::<Vec<_>>().join(" ");
                    if m.fails(&s) {
                        best = s;
                    }
                }
            }
        }
    }
    if best.spawn && best.threads.len() == 1 && best.stalls.is_empty() {
        let mut s = best.clone();
        s.spawn = false;
        if m.fails(&s) {
            best = s;
        }
    }
    // the schedule as a list of switches
    {
        let mut s = best.clone();
        s.sched = Sched::default();
        if m.fails(&s) {
            best = s;
        } else if matches!(best.sched.mode, 1 | 2) && m.fails(&best) {
            let sh = sim.sh();
            let list: Vec<(u64, u32)> =
                sh.log[..sh.n_switch as usize].iter().map(|x| (x.step, x.target)).collect();
            let mut s = best.clone();
            s.sched = Sched { mode: 3, list, ..Default::default() };
            if m.fails(&s) {
                best = s;
                let mut n = (best.sched.list.len() / 2).max(1);
                loop {
                    let mut i = 0;
                    while i < best.sched.list.len() && m.time() {
                        let mut s = best.clone();
                        let e = (i + n).min(s.sched.list.len());
                        s.sched.list.drain(i..e);
                        if m.fails(&s) {
                            best = s;
                        } else {
                            i += n;
                        }
                    }
                    if n == 1 || !m.time() {
                        break;
                    }
                    n /= 2;
                }
            }
        }
    }
    // the environment
    let plain: [fn(&mut Env); 11] = [
        |e| *e = Env::default(),
        |e| e.reuse = 0,
        |e| e.fill_alloc = 0,
        |e| e.fill_free = 0,
        |e| e.pad = 0,
        |e| e.two = 0,
        |e| e.base = 0,
        |e| e.clock = 0,
        |e| e.rate = 0,
        |e| e.jump = 0,
        |e| e.cpus = 0,
    ];
    for f in plain {
        let mut s = best.clone();
        f(&mut s.env);
        if s.env != best.env && m.fails(&s) {
            best = s;
        }
    }
    for r in [1, 4, 5] {
        if best.reps > r {
            let mut s = best.clone();
            s.reps = r;
            if m.fails(&s) {
                best = s;
            }
        }
    }
    m.end = Instant::now() + Duration::from_secs(120);
    m.fails(&best);
    let msg = m.msg.clone();
    (best, msg)
}
