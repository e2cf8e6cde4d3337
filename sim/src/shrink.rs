//! Minimises a failing case while it keeps failing in the same way.
use std::time::{Duration, Instant};
use serde_json::Value as J;
use crate::drive::*;
use crate::model::*;

pub fn shrink(mut c: Case, fails: &mut dyn FnMut(&Case) -> bool, limit: Duration) -> (Case, u32) {
    let t0 = Instant::now();
    let mut tries = 0u32;
    let mut ok = |x: &Case, tries: &mut u32| { *tries += 1; fails(x) };
    macro_rules! attempt { ($n:expr) => {{ let n = $n; if t0.elapsed() < limit && n != c && ok(&n, &mut tries) { c = n; true } else { false } }} }
    loop {
        let before = serde_json::to_string(&c).unwrap().len();
        // configuration
        for f in [
            (|x: &mut Case| x.gc = GcPat::Never) as fn(&mut Case), |x| x.pad = 0, |x| x.burst = 1, |x| x.tick = 1, |x| x.idle_thresh = 1, |x| x.compare_every = 1, |x| x.compare_every = 0, |x| x.opts.clock = ClockMode::Real, |x| x.opts.rpc_soft = false, |x| x.opts.sys_soft = false, |x| x.start_ms = 1000, |x| x.opts.max_depth = 60,
            |x| x.actions.iter_mut().for_each(|a| a.sub = 0), |x| x.outcomes.iter_mut().for_each(|o| *o = Outcome { delay: 0, res: Res::Num }), |x| x.outcomes.clear(),
        ] { let mut n = c.clone(); f(&mut n); attempt!(n); }
        // inputs
        let mut size = c.actions.len().max(1);
        while size > 0 {
            let mut i = 0;
            while i < c.actions.len() { let mut n = c.clone(); n.actions.drain(i..(i + size).min(n.actions.len())); if !attempt!(n) { i += size } }
            size /= 2;
        }
        for i in 0..c.actions.len() {
            let mut n = c.clone(); n.actions[i].sub = 0; attempt!(n);
            let mut n = c.clone(); let lo = if i > 0 { n.actions[i - 1].at } else { 0 }; let d = n.actions[i].at - lo; for a in &mut n.actions[i..] { a.at -= d } attempt!(n);
            let mut n = c.clone(); if let What::Net { fields, .. } = &mut n.actions[i].what { fields.clear() } attempt!(n);
        }
        while c.outcomes.last().map(|o| *o == Outcome { delay: 0, res: Res::Num }).unwrap_or(false) { c.outcomes.pop(); }
        for i in 0..c.outcomes.len().min(80) {
            if i < c.outcomes.len() { let mut n = c.clone(); n.outcomes[i] = Outcome { delay: 0, res: Res::Num }; attempt!(n); }
        }
        if c.outcomes.len() > 4 { let mut n = c.clone(); let k = n.outcomes.len() / 2; n.outcomes.truncate(k); attempt!(n); }
        // entities and functions that are not needed
        for i in (0..c.prog.ents.len()).rev() { let mut n = c.clone(); if n.prog.ents.len() > 1 { n.prog.ents.remove(i); attempt!(n); } }
        for i in (0..c.prog.funcs.len()).rev() { let mut n = c.clone(); n.prog.funcs.remove(i); attempt!(n); }
        for e in 0..c.prog.ents.len() {
            for i in (0..c.prog.ents[e].scripts.len()).rev() { let mut n = c.clone(); n.prog.ents[e].scripts.remove(i); attempt!(n); }
            for i in (0..c.prog.ents[e].funcs.len()).rev() { let mut n = c.clone(); n.prog.ents[e].funcs.remove(i); attempt!(n); }
            for i in (0..c.prog.ents[e].fields.len()).rev() { let mut n = c.clone(); n.prog.ents[e].fields.remove(i); attempt!(n); }
        }
        for i in (0..c.prog.globals.len()).rev() { let mut n = c.clone(); n.prog.globals.remove(i); attempt!(n); }
        // statements and expressions, through the serialised form
        let mut i = 0;
        loop {
            let j = serde_json::to_value(&c.prog).unwrap();
            let mut paths = vec![];
            walk(&j, String::new(), &mut paths);
            let Some((path, kind)) = paths.get(i).cloned() else { break };
            i += 1;
            if t0.elapsed() > limit { break }
            let mut alts: Vec<J> = vec![];
            let put = |f: &dyn Fn(&mut J)| { let mut x = j.clone(); f(x.pointer_mut(&path).unwrap()); x };
            match kind {
                Kd::Body => {
                    let n = j.pointer(&path).unwrap().as_array().unwrap().len();
                    if n > 1 { alts.push(put(&|x| *x = J::Array(vec![]))) }
                    for k in (0..n).rev() {
                        alts.push(put(&|x| { x.as_array_mut().unwrap().remove(k); }));
                        let mut inner = vec![];
                        walk(&j.pointer(&format!("{path}/{k}/k")).unwrap(), String::new(), &mut inner);
                        for (p, kd) in inner { if let Kd::Body = kd { let b = j.pointer(&format!("{path}/{k}/k{p}")).unwrap().as_array().unwrap().clone(); alts.push(put(&|x| { x.as_array_mut().unwrap().splice(k..k + 1, b.clone()); })); break } }
                    }
                }
                Kd::Node => {
                    alts.push(put(&|x| *x = serde_json::json!({"N": 0.0})));
                    alts.push(put(&|x| *x = serde_json::json!({"L": []})));
                    alts.push(put(&|x| *x = serde_json::json!({"N": 1.0})));
                    alts.push(put(&|x| *x = serde_json::json!({"T": true})));
                }
            }
            for a in alts {
                if let Ok(p) = serde_json::from_value::<crate::ir::Prog>(a) {
                    let mut n = c.clone();
                    n.prog = p;
                    if attempt!(n) { i = i.saturating_sub(1); break }
                }
            }
        }
        if serde_json::to_string(&c).unwrap().len() >= before || t0.elapsed() > limit { break }
    }
    (c, tries)
}
#[derive(Clone, Copy)]
enum Kd { Body, Node }
fn walk(j: &J, path: String, out: &mut Vec<(String, Kd)>) {
    match j {
        J::Array(xs) => {
            if !xs.is_empty() && xs.iter().all(|x| x.get("id").is_some() && x.get("k").is_some()) { out.push((path.clone(), Kd::Body)) }
            for (i, x) in xs.iter().enumerate() { walk(x, format!("{path}/{i}"), out) }
        }
        J::Object(m) => {
            if m.len() == 1 { let k = m.keys().next().unwrap(); if !["N", "T"].contains(&k.as_str()) && k.chars().next().map(|c| c.is_uppercase()).unwrap_or(false) { out.push((path.clone(), Kd::Node)) } }
            for (k, x) in m { walk(x, format!("{path}/{k}"), out) }
        }
        _ => (),
    }
}
