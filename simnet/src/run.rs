//! Running scenarios, minimising failures, reporting.
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Command, Stdio};
use std::rc::Rc;
use std::sync::mpsc;
use std::time::{Duration, Instant};
use serde::{Serialize, Deserialize};
use simcore::{Cfg, Report, mix};
use crate::case::{Case, profile_of};
use crate::oracle::{Judge, Viol};
use crate::world::{Sh, St, W};

pub struct Out { pub rep: Report, pub viols: Vec<Viol>, pub seen: BTreeMap<&'static str, u64>, pub counts: BTreeMap<&'static str, u64>, pub trace: Vec<String>, pub discard: Option<&'static str> }
pub const START: u64 = 1_700_000_000_000_000_000;
pub fn go(c: &Case, replay: Option<Vec<u16>>, trace: bool) -> Out {
    let path = if c.net.path { "/nb" } else { "" };
    let sh = Rc::new(Sh { c: c.clone(), st: RefCell::new(St::default()), base: format!("http{}://sim.server{path}", if c.net.tls { "s" } else { "" }), ws: format!("ws{}://sim.server{path}", if c.net.tls { "s" } else { "" }), acted: Cell::new(0) });
    let s2 = sh.clone();
    let cfg = Cfg { seed: mix(c.seed ^ 0x5eed), policy: c.policy(), stall_per_1000: c.stall, slice_ns: c.slice_ns, max_slices: 12_000_000, start_ns: START, replay };
    simcore::net::set_world(Some(Rc::new(W(sh.clone()))));
    let rep = simcore::run(cfg, move || crate::vm::everything(s2));
    simcore::net::set_world(None);
    crate::world::HANG.with(|h| h.borrow_mut().clear());
    let st = sh.st.borrow();
    let mut counts = st.counts.clone();
    if rep.stalls > 0 { counts.insert("threads stalled", rep.stalls); }
    let tr = if trace { trace_of(&st) } else { vec![] };
    if rep.exhausted { return Out { rep, viols: vec![], seen: BTreeMap::new(), counts, trace: tr, discard: Some("too many slices") } }
    let (viols, seen) = Judge::new(&sh, &st, &rep).judge();
    drop(st);
    Out { rep, viols, seen, counts, trace: tr, discard: None }
}
fn trace_of(st: &St) -> Vec<String> {
    let mut v: Vec<(u64, String)> = vec![];
    let n = |i: usize| format!("vm {}.{}", st.insts[i].vm, st.insts[i].inc);
    for (k, i) in st.insts.iter().enumerate() {
        let w = n(k);
        v.push((i.t_start, format!("{w} starts")));
        if let Some(t) = i.created { v.push((t, format!("{w} is created as {}", i.id))) }
        if let Some(t) = i.killed { v.push((t, format!("{w} crashes"))) }
        if let Some(t) = i.ended { v.push((t, format!("{w} has ended {}", i.failed.clone().unwrap_or_default()))) }
        for (t, l) in &i.logs { v.push((*t, format!("{w} logs {}", serde_json::Value::Array(l.clone())))) }
        for d in &i.d { use crate::world::D::*; let t = match d { Send { t1, .. } | Reply { t1, .. } | Inject { t1, .. } | Recv { t1, .. } | Poll { t1, .. } => *t1, Forget { .. } => 0 }; if matches!(d, Recv { m: None, .. } | Poll { r: None, .. }) { continue } v.push((t, format!("{w} {d:?}"))) }
        for l in i.laters.iter().chain(&i.prints) { v.push((l.t_call, format!("{w} asks the host: {l:?}"))) }
    }
    for c in &st.conns {
        let w = n(c.inst);
        v.push((c.opened, format!("{w} opens connection {} {}", c.conn.0.borrow().id, c.url)));
        if let Some((t, k)) = c.dead { v.push((t, format!("connection of {w} fails, kind {k}"))) }
        for (t, f, lost) in &c.out { v.push((*t, format!("{w} -> server {f:?}{}", if *lost { " (lost)" } else { "" }))) }
        let h = c.conn.0.borrow();
        for (k, (t, f)) in c.inn.iter().enumerate() { v.push((*t, format!("server -> {w} {f:?}, read {:?}..{:?}", h.handed.get(k).map(|x| x - START), h.done.get(k).map(|x| x - START)))) }
    }
    for h in &st.https { v.push((h.t, format!("{} requests {} {} {}, answered {:?}", n(h.inst), h.method, h.url, h.body, h.answered.map(|x| x - START)))) }
    for r in &st.reads { v.push((r.t1, format!("reader {} {}..{} precision {} got {}", r.th, r.t0 - START, r.t1 - START, r.prec, r.ns - START as i128))) }
    for (k, r) in st.keys.iter().enumerate() { for p in &r.polls { v.push((p.1, format!("key {k} polled: {}", ["pending", "result", "consumed"][p.2 as usize]))) } if let Some(d) = r.done { v.push((d.1, format!("key {k} completed"))) } }
    v.sort_by_key(|x| x.0);
    v.into_iter().map(|(t, s)| format!("{:>12.3} us  {}", (t.saturating_sub(START)) as f64 / 1e3, s.chars().take(400).collect::<String>())).collect()
}

#[derive(Serialize, Deserialize)]
struct Replay { property: String, seed: u64, violation: Viol, case: Case, choices: Option<Vec<u16>>, hash: u64, #[serde(default)] note: String, #[serde(default)] trace: Vec<String> }
fn first(id: &str, o: &Out) -> Option<Viol> { o.viols.iter().find(|v| v.props.iter().any(|p| p == id)).cloned() }
fn seed_at(base: u64, i: u64) -> u64 { mix(base.wrapping_mul(0x9e3779b97f4a7c15).wrapping_add(i)) & ((1 << 52) - 1) }
/// What makes a run count for a property.
pub fn marks(id: &str) -> &'static [&'static str] {
    match id {
        "N01" => &["messages received", "handler runs"], "N02" => &["messages sent", "pings answered"], "N03" => &["waits answered", "waits that gave up"], "N04" => &["calls answered", "calls failed", "calls that cannot be sent"],
        "N05" => &["clean shutdown", "heartbeats"], "N06" => &["cached readings"], "N07" => &["results delivered", "late results"], "N08" => &["identities announced", "creation failed and said so"], _ => &["handler runs", "waits answered"],
    }
}
#[derive(Default, Serialize, Deserialize)]
struct Agg { runs: u64, slices: u64, switches: u64, threads: u64, sim_ms: u64, faults: BTreeMap<String, u64>, seen: BTreeMap<String, u64>, shapes: BTreeMap<String, u64>, discards: BTreeMap<String, u64>, hashes: Vec<u64>, samples: Vec<u64>, unlike: Vec<String> }
fn add(a: &mut BTreeMap<String, u64>, b: &BTreeMap<String, u64>) { for (k, v) in b { *a.entry(k.clone()).or_insert(0) += v } }
impl Agg { fn merge(&mut self, o: Agg) { self.runs += o.runs; self.slices += o.slices; self.switches += o.switches; self.threads += o.threads; self.sim_ms += o.sim_ms; add(&mut self.faults, &o.faults); add(&mut self.seen, &o.seen); add(&mut self.shapes, &o.shapes); add(&mut self.discards, &o.discards); self.hashes.extend(o.hashes); self.samples.extend(o.samples); self.unlike.extend(o.unlike) } }

fn worker(id: &str, base: u64, n: u64, w: u64, of: u64, cap: f64) {
    let t0 = Instant::now();
    let mut a = Agg::default();
    let out = std::io::stdout();
    let mut viol = 0;
    let mut seen = HashSet::new();
    let mut i = w;
    while i < n && t0.elapsed().as_secs_f64() < cap && viol < 6 {
        let seed = seed_at(base, i);
        { let mut o = out.lock(); let _ = writeln!(o, "S {seed}"); let _ = o.flush(); }
        let (c, shape) = profile_of(id, seed);
        let r = go(&c, None, false);
        a.runs += 1; a.slices += r.rep.slices; a.switches += r.rep.switches; a.threads += r.rep.threads as u64; a.sim_ms += (r.rep.end_ns - START) / 1_000_000;
        for (k, v) in &r.counts { *a.faults.entry(k.to_string()).or_insert(0) += v }
        for (k, v) in &r.seen { *a.seen.entry(k.to_string()).or_insert(0) += v }
        if let Some(d) = r.discard { *a.discards.entry(d.into()).or_insert(0) += 1 }
        *a.shapes.entry(shape.into()).or_insert(0) += 1;
        if r.discard.is_none() && marks(id).iter().any(|m| r.seen.contains_key(m)) && seen.insert(r.rep.hash) { a.hashes.push(r.rep.hash); if a.samples.len() < 2 { a.samples.push(seed) } }
        // the same seed must give the same run
        if i % 97 == 0 { let r2 = go(&c, None, false); if r2.rep.hash != r.rep.hash || r2.rep.slices != r.rep.slices || r2.viols != r.viols { a.unlike.push(format!("{seed}")) } }
        if let Some(v) = first(id, &r) { viol += 1; let mut o = out.lock(); let _ = writeln!(o, "V {seed} {}", serde_json::to_string(&v).unwrap()); let _ = o.flush(); }
        else { for v in &r.viols { *a.discards.entry(format!("unrelated: {}", v.kind)).or_insert(0) += 1 } }
        i += of;
    }
    println!("R {}", serde_json::to_string(&a).unwrap());
}
fn tail(s: &str) -> &str { s.rsplit(" at ").next().unwrap_or(s) }
fn same(a: &Viol, b: &Viol) -> bool { a.kind == b.kind && (a.kind != "panic" || tail(&a.detail) == tail(&b.detail)) }
fn minimise(id: &str, seed: u64, secs: u64) {
    let (c, shape) = profile_of(id, seed);
    let o = go(&c, None, false);
    let Some(v) = first(id, &o) else { println!("N"); return };
    let (c, ch, tries) = crate::shrink::shrink(c, o.rep.choices.clone(), &mut |c, r| { let o = go(c, r, false); first(id, &o).filter(|w| same(w, &v)).map(|_| o.rep.choices) }, Duration::from_secs(secs));
    let o = go(&c, Some(ch.clone()), true);
    let v2 = first(id, &o).unwrap_or(v);
    let note = format!("found by seed {seed} ({shape}), minimised with {tries} runs; {} scheduling choices differ from running on", ch.iter().filter(|x| **x != 0).count());
    println!("M {}", serde_json::to_string(&Replay { property: id.into(), seed, violation: v2, case: c, choices: Some(ch), hash: o.rep.hash, note, trace: o.trace }).unwrap());
}
/// Waits for a child to end, for at most so long; what it wrote, if it came to an end.
fn bounded(mut child: std::process::Child, secs: u64) -> Option<String> {
    let mut out = child.stdout.take().unwrap();
    let (tx, rx) = mpsc::channel();
    std::thread::spawn(move || { let mut v = vec![]; let _ = std::io::Read::read_to_end(&mut out, &mut v); let _ = tx.send(v); });
    let r = rx.recv_timeout(Duration::from_secs(secs));
    let _ = child.kill();
    let _ = child.wait();
    r.ok().map(|v| String::from_utf8_lossy(&v).into_owned())
}
/// The failure of one seed, minimised if that is possible within the time; otherwise as it was found.
fn minimised(exe: &std::path::Path, id: &str, seed: u64, secs: u64) -> Option<String> {
    for s in [secs, 0] {
        let child = Command::new(exe).args(["minimise", id, &seed.to_string(), &s.to_string()]).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap();
        if let Some(l) = bounded(child, s + 30).and_then(|o| o.lines().find_map(|l| l.strip_prefix("M ").map(str::to_string))) { return Some(l) }
    }
    None
}
enum Msg { Start(usize, u64), Viol(u64, Viol), Done(usize, Option<Agg>) }
fn check(id: &str, tier: &str, vseed: u64, evidence: &str, replays: &str) -> i32 {
    let t0 = Instant::now();
    let env = |k: &str, d: f64| std::env::var(k).ok().and_then(|x| x.parse().ok()).unwrap_or(d);
    let (n, cap) = match tier { "thorough" => (40_000_000u64, 720.0), _ => (1_000_000u64, 25.0) };
    let (n, cap) = (env("NB_RUNS", n as f64) as u64, env("NB_CAP", cap));
    let workers = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(8).clamp(2, 16) as u64;
    let exe = std::env::current_exe().unwrap();
    let (tx, rx) = mpsc::channel();
    let mut kids = vec![];
    for w in 0..workers {
        let mut child = Command::new(&exe).args(["worker", id, &vseed.to_string(), &n.to_string(), &w.to_string(), &workers.to_string(), &cap.to_string()]).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap();
        let out = child.stdout.take().unwrap();
        let tx = tx.clone();
        std::thread::spawn(move || {
            let mut fin = None;
            for line in BufReader::new(out).lines() {
                let Ok(line) = line else { break };
                if let Some(s) = line.strip_prefix("S ") { let _ = tx.send(Msg::Start(w as usize, s.parse().unwrap_or(0))); }
                else if let Some(s) = line.strip_prefix("V ") { if let Some((a, b)) = s.split_once(' ') { if let (Ok(a), Ok(b)) = (a.parse(), serde_json::from_str(b)) { let _ = tx.send(Msg::Viol(a, b)); } } }
                else if let Some(s) = line.strip_prefix("R ") { fin = serde_json::from_str(s).ok() }
            }
            let _ = tx.send(Msg::Done(w as usize, fin));
        });
        kids.push(child);
    }
    drop(tx);
    let mut agg = Agg::default();
    let mut viols: Vec<(u64, Viol)> = vec![];
    let mut last: Vec<(u64, Instant)> = vec![(0, Instant::now()); workers as usize];
    let mut open = vec![true; workers as usize];
    while open.iter().any(|x| *x) {
        match rx.recv_timeout(Duration::from_secs(1)) {
            Ok(Msg::Start(w, s)) => last[w] = (s, Instant::now()),
            Ok(Msg::Viol(s, v)) => viols.push((s, v)),
            Ok(Msg::Done(w, a)) => { open[w] = false; match a { Some(a) => agg.merge(a), None => viols.push((last[w].0, Viol { kind: "process died".into(), props: vec![id.into()], detail: "the simulated VM ended the whole process, or one of its operations never returned".into() })) } }
            Err(mpsc::RecvTimeoutError::Timeout) => (),
            Err(_) => break,
        }
        for w in 0..workers as usize { if open[w] && last[w].1.elapsed() > Duration::from_secs(90) { let _ = kids[w].kill(); } }
    }
    for k in &mut kids { let _ = k.wait(); }
    let explored = t0.elapsed().as_secs_f64();
    let mut reported = 0;
    viols.sort_by_key(|x| x.1.kind == "process died");
    let mut per: BTreeMap<String, u32> = BTreeMap::new();
    let after = Instant::now();
    for (seed, v) in &viols {
        let c = per.entry(if v.kind == "panic" { format!("panic {}", tail(&v.detail)) } else { v.kind.clone() }).or_insert(0);
        *c += 1;
        if *c > 1 || reported >= 4 || (reported > 0 && after.elapsed() > Duration::from_secs(150)) || after.elapsed() > Duration::from_secs(400) { continue }
        let path = format!("{replays}/{id}-{seed}.json");
        let (case, shape) = profile_of(id, *seed);
        let mut rep = Replay { property: id.into(), seed: *seed, violation: v.clone(), case, choices: None, hash: 0, note: format!("seed {seed} ({shape}), not minimised"), trace: vec![] };
        if v.kind != "process died" {
            let secs = if tier == "thorough" { 60 } else { 20 };
            if let Some(x) = minimised(&exe, id, *seed, secs).and_then(|m| serde_json::from_str::<Replay>(&m).ok()) { rep = x }
        }
        std::fs::write(&path, serde_json::to_string_pretty(&rep).unwrap()).unwrap();
        reported += 1;
        println!("VIOLATION property={id} replay={path}");
        println!("  {}: {}\n  {}", rep.violation.kind, rep.violation.detail, rep.note);
    }
    let distinct: HashSet<u64> = agg.hashes.iter().copied().collect();
    agg.samples.sort();
    let samples: Vec<_> = agg.samples.iter().take(3).map(|s| { let (c, p) = profile_of(id, *s); let o = go(&c, None, true); serde_json::json!({ "seed": s, "scenario": p, "vms": c.vms.len(), "inputs_and_faults": c.acts.iter().take(10).map(|a| format!("{a:?}")).collect::<Vec<_>>(), "scheduling_choices": o.rep.choices.len(), "slices": o.rep.slices, "history": o.trace.iter().take(16).collect::<Vec<_>>() }) }).collect();
    if !agg.unlike.is_empty() { println!("note: these seeds did not run the same way twice: {}", agg.unlike.join(" ")) }
    let ev = serde_json::json!({
        "property": id, "tier": tier, "seed": vseed, "level": "exploration", "wall_s": t0.elapsed().as_secs_f64(), "violations": reported,
        "coverage": {
            "evaluations": agg.runs, "distinct_nontrivial": distinct.len(),
            "rule": format!("one evaluation is one seeded simulated run: a generated scenario (programs, server answers, faults) under one seeded schedule of all threads, timers and deliveries; a run is non-trivial when at least one of these happened in it: {}; distinct by the hash of the complete sequence of scheduling, latency and fault choices", marks(id).join(", ")),
            "samples": samples, "runs_per_hour": (agg.runs as f64 / explored * 3600.0) as u64, "seeds_per_hour": (agg.runs as f64 / explored * 3600.0) as u64,
            "simulated_ms": agg.sim_ms, "scheduling_slices": agg.slices, "context_switches": agg.switches, "simulated_threads": agg.threads,
            "faults_injected": agg.faults, "situations_reached": agg.seen, "runs_by_scenario": agg.shapes, "discarded_or_unrelated": agg.discards, "seeds_rerun_and_unlike": agg.unlike.len(),
            "real_components": ["StdSystem: connection handler, RPC handler, replies, message queues", "Clock and AsyncKey", "Project scheduler and interpreter (project scenarios)", "bytecode compiler", "JSON conversion", "tungstenite message type", "async-channel, futures"],
            "stubbed_components": ["tokio runtime and timers (simulated single-choice executor)", "reqwest HTTP client", "tokio-tungstenite transport", "std threads, locks and channels (simulated, every operation a scheduling point)", "system clock and entropy", "names and uuid (seeded)", "the NetsBlox server"],
        },
        "assumptions": ["the stand-ins for the runtime, HTTP client and websocket follow the documented behaviour of the real crates", "sequentially consistent interleaving of simulated threads: no weak-memory effects"],
    });
    let _ = std::fs::write(evidence, serde_json::to_string_pretty(&ev).unwrap());
    println!("{id} {tier}: {} runs in {explored:.1}s, {} distinct non-trivial, {} slices, {} violations", agg.runs, distinct.len(), agg.slices, reported);
    (reported > 0) as i32
}
fn replay(path: &str) -> i32 {
    let r: Replay = serde_json::from_str(&std::fs::read_to_string(path).unwrap()).unwrap();
    let o = go(&r.case, r.choices.clone(), true);
    for l in &o.trace { println!("{l}") }
    match first(&r.property, &o) {
        Some(v) => { println!("{}: {}", v.kind, v.detail); println!("{}", if v == r.violation && (r.hash == 0 || r.hash == o.rep.hash) { "reproduced exactly" } else { "a different failure than recorded" }); println!("VIOLATION property={} replay={path}", r.property); 1 }
        None => { println!("no violation"); 0 }
    }
}
/// For development: runs seeds of one property and shows what turns up.
fn sweep(id: &str, from: u64, n: u64) {
    let mut kinds: BTreeMap<String, (u32, u64, String)> = BTreeMap::new();
    let (mut seen, mut faults) = (BTreeMap::<&str, u64>::new(), BTreeMap::<&str, u64>::new());
    let t0 = Instant::now();
    let mut slices = 0;
    let mut worst = (0.0, 0);
    for i in from..from + n {
        let s = if n == 1 { from } else { seed_at(1, i) };
        let (c, shape) = profile_of(id, s);
        let t1 = Instant::now();
        let o = go(&c, None, n == 1);
        let d = t1.elapsed().as_secs_f64();
        if d > worst.0 { worst = (d, s) }
        slices += o.rep.slices;
        for (k, v) in &o.seen { *seen.entry(k).or_insert(0) += v }
        for (k, v) in &o.counts { *faults.entry(k).or_insert(0) += v }
        if let Some(d) = o.discard { kinds.entry(format!("discard {d}")).or_insert((0, s, String::new())).0 += 1 }
        if n == 1 { println!("{shape} {c:?}"); for l in &o.trace { println!("{l}") } for v in &o.viols { println!("{} {:?}: {}", v.kind, v.props, v.detail) } println!("slices {} end {} panics {:?} deadlock {:?}", o.rep.slices, o.rep.end_ns - START, o.rep.panics, o.rep.deadlock) }
        for v in &o.viols { let e = kinds.entry(format!("{} {:?}{}", v.kind, v.props, if v.kind == "panic" { tail(&v.detail).to_string() } else { String::new() })).or_insert((0, s, v.detail.clone())); e.0 += 1 }
    }
    println!("{n} runs {:.2}s {slices} slices worst {worst:?}\nseen {seen:#?}\nfaults {faults:?}", t0.elapsed().as_secs_f64());
    for (k, (c, s, d)) in kinds { println!("{c:6} {k} seed {s}: {d}") }
}
pub fn main() {
    simcore::install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let s = |i: usize| a.get(i).map(|x| x.as_str()).unwrap_or("");
    let u = |i: usize| s(i).parse::<u64>().unwrap_or(0);
    match s(1) {
        "worker" => worker(s(2), u(3), u(4), u(5), u(6), s(7).parse().unwrap_or(10.0)),
        "minimise" => minimise(s(2), u(3), u(4)),
        "check" => std::process::exit(check(s(2), s(3), u(4), s(5), s(6))),
        "replay" => std::process::exit(replay(s(2))),
        "sweep" => sweep(s(2), u(3), u(4)),
        _ => { eprintln!("usage: nbnet check ID TIER SEED EVIDENCE REPLAYDIR | replay FILE | sweep ID FROM N"); std::process::exit(2) }
    }
}
