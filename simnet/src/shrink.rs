//! Minimises a failing scenario, then its schedule, while it keeps failing in the same way.
use std::time::{Duration, Instant};
use crate::case::*;

type Fails<'a> = &'a mut dyn FnMut(&Case, Option<Vec<u16>>) -> Option<Vec<u16>>;
pub fn shrink(mut c: Case, mut ch: Vec<u16>, fails: Fails, limit: Duration) -> (Case, Vec<u16>, u32) {
    let t0 = Instant::now();
    let mut tries = 0u32;
    // the scenario first: each candidate is tried with the recorded choices, with plain choices and with its own seed
    macro_rules! attempt { ($n:expr) => {{
        let n: Case = $n;
        let mut won = false;
        if n != c && t0.elapsed() < limit.mul_f64(0.6) {
            for r in [Some(vec![]), Some(ch.clone()), None] { tries += 1; if let Some(x) = fails(&n, r) { ch = x; won = true; break } }
            if won { c = n }
        }
        won
    }} }
    loop {
        let before = serde_json::to_string(&c).unwrap();
        for f in [(|x: &mut Case| x.stall = 0) as fn(&mut Case), |x| x.policy = 0, |x| { x.net.lo_us = 100; x.net.hi_us = 100 }, |x| x.net.create.clear(), |x| { x.net.drop_pm = 0; x.net.dup_pm = 0; x.net.reorder_pm = 0 }, |x| x.net.tls = false,
            |x| x.vms.iter_mut().for_each(|v| { v.cache = 0; v.offset_min = 0; v.start_ms = 0; v.loop_us = 1000; v.name = None }), |x| x.rpcs.iter_mut().for_each(|r| *r = RpcPlan { delay_ms: 0, out: RpcOut::Json(serde_json::json!(1)) }), |x| x.replies.clear(), |x| x.laters.iter_mut().for_each(|l| *l = LaterPlan { delay_us: 0, how: 0 }), |x| x.slice_ns = 2_000] { let mut n = c.clone(); f(&mut n); attempt!(n); }
        let mut size = c.acts.len().max(1);
        while size > 0 { let mut i = 0; while i < c.acts.len() { let mut n = c.clone(); let e = (i + size).min(n.acts.len()); n.acts.drain(i..e); if !attempt!(n) { i += size } } size /= 2 }
        for v in (1..c.vms.len()).rev() { if c.kind != Kind::Multi { let mut n = c.clone(); n.vms.remove(v); attempt!(n); } else { let mut n = c.clone(); n.vms[v].scripts.clear(); attempt!(n); } }
        for v in 0..c.vms.len() {
            let mut size = c.vms[v].ops.len().max(1);
            while size > 0 { let mut i = 0; while i < c.vms[v].ops.len() { let mut n = c.clone(); let e = (i + size).min(n.vms[v].ops.len()); n.vms[v].ops.drain(i..e); if !attempt!(n) { i += size } } size /= 2 }
            for i in (0..c.vms[v].scripts.len()).rev() { let mut n = c.clone(); n.vms[v].scripts.remove(i); attempt!(n); }
            for i in 0..c.vms[v].scripts.len() { for k in (0..c.vms[v].scripts[i].ops.len()).rev() { let mut n = c.clone(); n.vms[v].scripts[i].ops.remove(k); attempt!(n); } let mut n = c.clone(); n.vms[v].scripts[i].pause_ms = 0; n.vms[v].scripts[i].rpc = None; attempt!(n); }
            for i in (0..c.vms[v].keys.len()).rev() { if c.vms[v].keys.len() > 1 { let mut n = c.clone(); n.vms[v].keys.remove(i); attempt!(n); } }
        }
        for i in 0..c.replies.len() { let mut n = c.clone(); n.replies[i].sends.clear(); attempt!(n); }
        for i in 0..c.acts.len() { let mut n = c.clone(); n.acts[i].at_ms = 0; attempt!(n); }
        for f in [|x: &mut Case| x.run_ms = (x.run_ms / 2).max(100)] { let mut n = c.clone(); f(&mut n); attempt!(n); }
        if serde_json::to_string(&c).unwrap() == before || t0.elapsed() > limit.mul_f64(0.6) { break }
    }
    // then the schedule: as many choices as possible become the plain one
    while ch.last() == Some(&0) { ch.pop(); }
    let mut size = (ch.len() / 2).max(1);
    while size > 0 && t0.elapsed() < limit {
        let mut i = 0;
        while i < ch.len() && t0.elapsed() < limit {
            let e = (i + size).min(ch.len());
            if ch[i..e].iter().any(|x| *x != 0) {
                let mut n = ch.clone();
                n[i..e].iter_mut().for_each(|x| *x = 0);
                while n.last() == Some(&0) { n.pop(); }
                tries += 1;
                if fails(&c, Some(n.clone())).is_some() { ch = n; continue }
            }
            i += size;
        }
        size /= 2;
    }
    (c, ch, tries)
}
