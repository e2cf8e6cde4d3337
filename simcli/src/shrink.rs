//! Minimises a failing scenario, then its schedule, while it keeps failing in the same way.
use std::time::{Duration, Instant};
use crate::case::*;

type Fails<'a> = &'a mut dyn FnMut(&Case, Option<Vec<u16>>) -> Option<Vec<u16>>;
pub fn shrink(mut c: Case, mut ch: Vec<u16>, fails: Fails, limit: Duration) -> (Case, Vec<u16>, u32) {
    let t0 = Instant::now();
    let mut tries = 0u32;
    // the scenario first: each candidate is tried with plain choices, with the recorded ones and with its own seed
    macro_rules! attempt { ($n:expr) => {{
        let n: Case = $n;
        let mut won = false;
        if n != c && t0.elapsed() < limit.mul_f64(0.6) {
            for r in [Some(vec![]), Some(ch.clone()), None] { tries += 1; if let Some(x) = fails(&n, r) { ch = x; won = true; break } }
            if won { c = n }
        }
        won
    }} }
    loop {
        let before = serde_json::to_string(&c).unwrap();
        for f in [(|x: &mut Case| x.stall = 0) as fn(&mut Case), |x| x.policy = 0, |x| x.lat_us = 0, |x| x.size = (80, 24), |x| x.run_ms = (x.run_ms / 2).max(20), |x| x.slice_ns = 20_000, |x| x.projs.iter_mut().for_each(|p| p.pad = 0), |x| if let Some(f) = &mut x.files { f.cap = f.cap.map(|_| 0) }] { let mut n = c.clone(); f(&mut n); attempt!(n); }
        let mut size = c.acts.len().max(1);
        while size > 0 { let mut i = 0; while i < c.acts.len() { let mut n = c.clone(); let e = (i + size).min(n.acts.len()); n.acts.drain(i..e); if !attempt!(n) { i += size } } size /= 2 }
        for p in 0..c.projs.len() {
            for i in 0..c.projs[p].scripts.len() { let mut n = c.clone(); n.projs[p].scripts[i].ops.clear(); attempt!(n); for k in (0..c.projs[p].scripts[i].ops.len()).rev() { let mut n = c.clone(); n.projs[p].scripts[i].ops.remove(k); attempt!(n); } }
            while c.projs[p].scripts.len() > 1 { let mut n = c.clone(); n.projs[p].scripts.pop(); if !attempt!(n) { break } }
        }
        if let Some(f) = c.files.clone() {
            for k in (0..f.faults.len()).rev() { let mut n = c.clone(); n.files.as_mut().unwrap().faults.remove(k); attempt!(n); }
            for k in (0..f.there.len()).rev() { let mut n = c.clone(); n.files.as_mut().unwrap().there.remove(k); attempt!(n); }
            let mut n = c.clone(); n.files.as_mut().unwrap().cap = None; attempt!(n);
        }
        // loops: fewer rounds, or none at all
        for p in 0..c.projs.len() { for i in 0..c.projs[p].scripts.len() { for k in (0..c.projs[p].scripts[i].ops.len()).rev() {
            if let Some(Op::Rep(times, inner)) = c.projs[p].scripts[i].ops.get(k).cloned() {
                let mut n = c.clone(); n.projs[p].scripts[i].ops.splice(k..=k, inner.clone()); if attempt!(n) { continue }
                for to in [1, 2, times / 2] { if to < times { let mut n = c.clone(); n.projs[p].scripts[i].ops[k] = Op::Rep(to, inner.clone()); if attempt!(n) { break } } }
            }
        } } }
        for i in 0..c.acts.len() { let mut n = c.clone(); n.acts[i].origin = false; attempt!(n); }
        if serde_json::to_string(&c).unwrap() == before || t0.elapsed() > limit.mul_f64(0.6) { break }
    }
    // then the schedule: as many choices as possible become the plain one
    while ch.last() == Some(&0) { ch.pop(); }
    let mut size = (ch.len() / 2).max(1);
    while size > 0 && t0.elapsed() < limit {
        let mut i = 0;
        while i < ch.len() && t0.elapsed() < limit {
            let e = (i + size).min(ch.len());
            if ch[i..e].iter().any(|x| *x != 0) {
                let mut n = ch.clone();
                n[i..e].iter_mut().for_each(|x| *x = 0);
                while n.last() == Some(&0) { n.pop(); }
                tries += 1;
                if fails(&c, Some(n.clone())).is_some() { ch = n; continue }
            }
            i += size;
        }
        size /= 2;
    }
    (c, ch, tries)
}
