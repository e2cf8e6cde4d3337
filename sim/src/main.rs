//! Deterministic simulation of the NetsBlox VM: see /verif/DESIGN.md.
mod rng; mod ir; mod model; mod simsys; mod drive; mod generate; mod shrink; mod props;
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};
use serde::{Serialize, Deserialize};
use drive::{Case, Violation};

#[derive(Default, Serialize, Deserialize)]
struct Agg { runs: u64, segs: u64, steps: u64, events: u64, sim_ms: u64, faults: BTreeMap<String, u64>, cov: BTreeMap<String, u64>, kinds: BTreeMap<String, u64>, discards: BTreeMap<String, u64>, profiles: BTreeMap<String, u64>, hashes: Vec<u64>, samples: Vec<u64>, values: u64, #[serde(default)] ops: BTreeMap<String, u64> }
fn add(a: &mut BTreeMap<String, u64>, b: &BTreeMap<String, u64>) { for (k, v) in b { *a.entry(k.clone()).or_insert(0) += v } }
impl Agg {
    fn merge(&mut self, o: Agg) {
        self.runs += o.runs; self.segs += o.segs; self.steps += o.steps; self.events += o.events; self.sim_ms = self.sim_ms.saturating_add(o.sim_ms); self.values += o.values;
        add(&mut self.faults, &o.faults); add(&mut self.cov, &o.cov); add(&mut self.kinds, &o.kinds); add(&mut self.discards, &o.discards); add(&mut self.ops, &o.ops); add(&mut self.profiles, &o.profiles);
        self.hashes.extend(o.hashes); self.samples.extend(o.samples);
    }
}
#[derive(Serialize, Deserialize)]
struct Replay { property: String, seed: u64, violation: Violation, case: Case, #[serde(default)] note: String, #[serde(default)] trace: Vec<String> }

fn seed_at(base: u64, i: u64) -> u64 { rng::mix(base.wrapping_mul(0x9e3779b97f4a7c15).wrapping_add(i)) & ((1 << 52) - 1) }

fn worker(id: &str, base: u64, n: u64, w: u64, of: u64, cap: f64) {
    let t0 = Instant::now();
    let mut a = Agg::default();
    let out = std::io::stdout();
    let mut viol = 0;
    let marks = props::marks(id);
    let mut seen = HashSet::new();
    let mut i = w;
    while i < n && t0.elapsed().as_secs_f64() < cap && viol < 12 {
        let seed = seed_at(base, i);
        { let mut o = out.lock(); let _ = writeln!(o, "S {seed}"); let _ = o.flush(); }
        let r = props::run_prop(id, seed);
        a.runs += 1; a.segs += r.stats.segs; a.steps += r.stats.steps; a.events += r.stats.events; a.sim_ms = a.sim_ms.saturating_add(r.stats.sim_ms.min(1 << 40)); a.values += r.stats.procs;
        for (k, v) in &r.stats.faults { *a.faults.entry(k.to_string()).or_insert(0) += v }
        for (k, v) in &r.stats.cov { *a.cov.entry(k.to_string()).or_insert(0) += v }
        for (k, v) in &r.stats.kinds { *a.kinds.entry(k.to_string()).or_insert(0) += v }
        for (k, v) in &r.stats.ops { *a.ops.entry(k.clone()).or_insert(0) += v }
        if let Some(d) = r.stats.discard { *a.discards.entry(d.into()).or_insert(0) += 1 }
        *a.profiles.entry(r.profile.into()).or_insert(0) += 1;
        if r.stats.discard.is_none() && marks.iter().any(|m| r.stats.cov.contains_key(m)) && seen.insert(r.stats.hash) { a.hashes.push(r.stats.hash); if a.samples.len() < 2 { a.samples.push(seed) } }
        if let Some(v) = r.violation { viol += 1; let mut o = out.lock(); let _ = writeln!(o, "V {seed} {}", serde_json::to_string(&v).unwrap()); let _ = o.flush(); }
        i += of;
    }
    println!("R {}", serde_json::to_string(&a).unwrap());
}

/// Minimises the failure of one seed; run in its own process.
fn minimise(id: &str, seed: u64, secs: u64) {
    let r = props::run_prop(id, seed);
    let Some(v) = r.violation else { println!("N"); return };
    // failures that are only about memory or about the simulator are kept as they are
    let mut fails = |c: &Case| props::run_case(id, c, seed).0.map(|w| same(&w, &v)).unwrap_or(false);
    let (c, tries) = shrink::shrink(r.case.clone(), &mut fails, Duration::from_secs(secs));
    let v2 = props::run_case(id, &c, seed).0.unwrap_or(v.clone());
    let rel = props::relevant(id, &c, &v2, seed);
    let o = drive::run(&c, true);
    let note = format!("found by seed {seed} (profile {}), minimised with {tries} runs", r.profile);
    println!("M {} {}", rel, serde_json::to_string(&Replay { property: id.into(), seed, violation: v2, case: c, note, trace: o.trace.iter().map(|e| format!("{e:?}")).collect() }).unwrap());
}
fn same(a: &Violation, b: &Violation) -> bool { a.kind == b.kind && (a.kind != "crash" || tail(&a.detail) == tail(&b.detail)) }
fn tail(s: &str) -> &str { s.rsplit(" at ").next().unwrap_or(s) }

/// Waits for a child to end, for at most so long; what it wrote, if it came to an end.
fn bounded(mut child: std::process::Child, secs: u64) -> Option<String> {
    let mut out = child.stdout.take().unwrap();
    let (tx, rx) = mpsc::channel();
    std::thread::spawn(move || { let mut v = vec![]; let _ = std::io::Read::read_to_end(&mut out, &mut v); let _ = tx.send(v); });
    let r = rx.recv_timeout(Duration::from_secs(secs));
    let _ = child.kill();
    let _ = child.wait();
    r.ok().map(|v| String::from_utf8_lossy(&v).into_owned())
}
/// The failure of one seed, minimised if that is possible within the time; otherwise as it was found.
fn minimised(exe: &std::path::Path, id: &str, seed: u64, secs: u64) -> Option<String> {
    for s in [secs, 0] {
        let child = Command::new(exe).args(["minimise", id, &seed.to_string(), &s.to_string()]).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap();
        if let Some(l) = bounded(child, s + 30).and_then(|o| o.lines().find_map(|l| l.strip_prefix("M ").map(str::to_string))) { return Some(l) }
    }
    None
}
/// Runs one seed in its own process; what became of it unless it came to an end.
fn alone(exe: &std::path::Path, id: &str, seed: u64, secs: u64) -> Option<String> {
    let mut child = Command::new(exe).args(["once", id, &seed.to_string()]).stdout(Stdio::null()).stderr(Stdio::null()).spawn().unwrap();
    let t = Instant::now();
    loop {
        if let Ok(Some(st)) = child.try_wait() { return if st.success() { None } else { Some(format!("the simulated VM ended the process ({st})")) } }
        if t.elapsed().as_secs() > secs { let _ = child.kill(); let _ = child.wait(); return Some("the simulated VM never finished a step".into()) }
        std::thread::sleep(Duration::from_millis(50));
    }
}

enum Msg { Start(usize, u64), Viol(u64, Violation), Done(usize, Option<Agg>) }

fn check(id: &str, tier: &str, vseed: u64, evidence: &str, replays: &str) -> i32 {
    let t0 = Instant::now();
    let (n, cap) = match tier { "thorough" => (4_000_000u64, 720.0), _ => (100_000u64, 40.0) };
    let env = |k: &str, d: f64| std::env::var(k).ok().and_then(|x| x.parse().ok()).unwrap_or(d);
    let cap = env("NB_CAP", cap);
    let n = env("NB_RUNS", n as f64) as u64;
    let workers = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(8).clamp(2, 16) as u64;
    let exe = std::env::current_exe().unwrap();
    let (tx, rx) = mpsc::channel();
    let mut kids = vec![];
    for w in 0..workers {
        let mut child = Command::new(&exe).args(["worker", id, &vseed.to_string(), &n.to_string(), &w.to_string(), &workers.to_string(), &cap.to_string()]).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap();
        let out = child.stdout.take().unwrap();
        let tx = tx.clone();
        std::thread::spawn(move || {
            let mut fin = None;
            for line in BufReader::new(out).lines() {
                let Ok(line) = line else { break };
                if let Some(s) = line.strip_prefix("S ") { let _ = tx.send(Msg::Start(w as usize, s.parse().unwrap_or(0))); }
                else if let Some(s) = line.strip_prefix("V ") { if let Some((a, b)) = s.split_once(' ') { if let (Ok(a), Ok(b)) = (a.parse(), serde_json::from_str(b)) { let _ = tx.send(Msg::Viol(a, b)); } } }
                else if let Some(s) = line.strip_prefix("R ") { fin = serde_json::from_str(s).ok() }
            }
            let _ = tx.send(Msg::Done(w as usize, fin));
        });
        kids.push(child);
    }
    drop(tx);
    let mut agg = Agg::default();
    let mut viols: Vec<(u64, Violation)> = vec![];
    let mut last: Vec<(u64, Instant)> = vec![(0, Instant::now()); workers as usize];
    let mut open = vec![true; workers as usize];
    while open.iter().any(|x| *x) {
        match rx.recv_timeout(Duration::from_secs(1)) {
            Ok(Msg::Start(w, s)) => last[w] = (s, Instant::now()),
            Ok(Msg::Viol(s, v)) => { viols.push((s, v)); }
            Ok(Msg::Done(w, a)) => { open[w] = false; match a { Some(a) => agg.merge(a), None => viols.push((last[w].0, Violation { kind: "process died".into(), detail: "the simulated VM ended the process or never finished a step".into(), seg: 0 })) } }
            Err(mpsc::RecvTimeoutError::Timeout) => (),
            Err(_) => break,
        }
        for w in 0..workers as usize { if open[w] && last[w].1.elapsed() > Duration::from_secs(60) { let _ = kids[w].kill(); } }
    }
    for k in &mut kids { let _ = k.wait(); }
    let explored = t0.elapsed().as_secs_f64();
    // failures: minimise, keep those that concern this property
    let mut reported = 0;
    let mut unrelated = vec![];
    viols.sort_by_key(|x| (x.1.kind == "process died", x.1.kind == "stuck"));
    let mut per: BTreeMap<String, u32> = BTreeMap::new();
    let mut tried = 0;
    let after = Instant::now();
    for (seed, v) in &viols {
        let c = per.entry(if v.kind == "crash" { format!("crash {}", tail(&v.detail)) } else { v.kind.clone() }).or_insert(0);
        *c += 1;
        if *c > (if v.kind == "process died" { 1 } else { 3 }) || tried >= 14 || reported >= 3 || (reported > 0 && after.elapsed() > Duration::from_secs(150)) || after.elapsed() > Duration::from_secs(400) { continue }
        tried += 1;
        let path = format!("{replays}/{id}-{seed}.json");
        let (case, profile) = props::case_of(id, *seed);
        let mut rep = Replay { property: id.into(), seed: *seed, violation: v.clone(), case, note: format!("seed {seed}, profile {profile}, not minimised"), trace: vec![] };
        let mut rel = true;
        if v.kind == "process died" {
            // once more, alone: only what happens again counts
            let how = alone(&exe, id, *seed, 70);
            let Some(how) = how else { println!("note: the process that ran seed {seed} ended, but that seed alone is fine"); unrelated.push(format!("worker lost (seed {seed})")); continue };
            rep.violation.detail = how;
        } else {
            let secs = if tier == "thorough" { 40 } else { 12 };
            if let Some(m) = minimised(&exe, id, *seed, secs) { if let Some((r, j)) = m.split_once(' ') { if let Ok(x) = serde_json::from_str::<Replay>(j) { rep = x; rel = r == "true" } } }
        }
        std::fs::write(&path, serde_json::to_string_pretty(&rep).unwrap()).unwrap();
        let first: String = rep.violation.detail.chars().take(600).collect();
        if rel {
            reported += 1;
            println!("VIOLATION property={id} replay={path}");
            println!("  {}: {first}\n  {}", rep.violation.kind, rep.note);
        } else {
            println!("note: seed {seed} differs from the reference in something this property does not talk about ({}): {path}", rep.violation.kind);
            unrelated.push(format!("{} (seed {seed})", rep.violation.kind));
        }
    }
    // evidence
    let distinct: HashSet<u64> = agg.hashes.iter().copied().collect();
    agg.samples.sort();
    let samples: Vec<_> = agg.samples.iter().take(3).map(|s| {
        let (c, p) = props::case_of(id, *s);
        let o = drive::run(&c, true);
        serde_json::json!({ "seed": s, "profile": p, "sprites": c.prog.ents.len(), "scripts": c.prog.ents.iter().map(|e| e.scripts.len()).sum::<usize>(), "inputs": c.actions.iter().take(12).map(|a| format!("segment {} step {}: {:?}", a.at, a.sub, a.what)).collect::<Vec<_>>(), "collector": format!("{:?}", c.gc), "clock": format!("{:?}", c.opts.clock), "first_events": o.trace.iter().take(14).map(|e| format!("{e:?}")).collect::<Vec<_>>(), "vm_steps": o.stats.steps })
    }).collect();
    let wall = t0.elapsed().as_secs_f64();
    let ev = serde_json::json!({
        "property": id, "tier": tier, "seed": vseed, "level": "exploration", "wall_s": wall, "violations": reported,
        "coverage": {
            "evaluations": agg.runs, "distinct_nontrivial": distinct.len(),
            "rule": format!("one evaluation is one seeded simulated run: a generated project, input schedule, host answers, clock and collector schedule, executed by the real VM under the simulator{}; a run is non-trivial when it was not discarded and at least one of these happened in it: {}; distinct by the hash of the complete observed event sequence", if id == "S17" { " four times (again, after reloading, with other addresses and collection times) and compared" } else { " in lock step with the reference model, every event and periodically the whole reachable state compared" }, props::marks(id).join(", ")),
            "samples": samples, "runs_per_hour": (agg.runs as f64 / explored * 3600.0) as u64, "seeds_per_hour": (agg.runs as f64 / explored * 3600.0) as u64,
            "simulated_ms": agg.sim_ms, "vm_steps": agg.steps, "turn_segments": agg.segs, "events_compared": agg.events, "values_compared_in_final_states": agg.values,
            "events_by_kind": agg.kinds, "faults_and_inputs_injected": agg.faults, "situations_reached": agg.cov, "runs_by_profile": agg.profiles, "discarded_runs": agg.discards, "operators_by_operand_shape_and_outcome": agg.ops, "unrelated_divergences": unrelated,
            "real_components": ["bytecode compiler", "process interpreter", "project scheduler", "runtime values and JSON conversion", "garbage collector"], "stubbed_components": ["System trait implementation (clock, randomness, network, host commands): the simulator"],
        },
        "assumptions": ["the reference model in sim/src/model.rs states the intended semantics", "programs are limited to the generated block set"],
    });
    let _ = std::fs::write(evidence, serde_json::to_string_pretty(&ev).unwrap());
    println!("{id} {tier}: {} runs in {explored:.1}s, {} distinct non-trivial, {} VM steps, {} violations", agg.runs, distinct.len(), agg.steps, reported);
    if reported > 0 { 1 } else { 0 }
}

fn replay(path: &str) -> i32 {
    let r: Replay = serde_json::from_str(&std::fs::read_to_string(path).unwrap()).unwrap();
    for (i, e) in drive::run(&r.case, true).trace.iter().enumerate() { println!("{i:4} {e:?}") }
    match props::run_case(&r.property, &r.case, r.seed).0 {
        Some(v) => {
            println!("{} at segment {}: {}", v.kind, v.seg, v.detail);
            println!("{}", if v == r.violation { "reproduced exactly" } else { "a different failure than recorded" });
            println!("VIOLATION property={} replay={path}", r.property);
            1
        }
        None => { println!("no violation"); 0 }
    }
}

fn main() {
    drive::install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let s = |i: usize| a.get(i).map(|x| x.as_str()).unwrap_or("");
    let u = |i: usize| s(i).parse::<u64>().unwrap_or(0);
    match s(1) {
        "worker" => worker(s(2), u(3), u(4), u(5), u(6), s(7).parse().unwrap_or(10.0)),
        "once" => { props::run_prop(s(2), u(3)); }
        "minimise" => minimise(s(2), u(3), u(4)),
        "check" => std::process::exit(check(s(2), s(3), u(4), s(5), s(6))),
        "replay" => std::process::exit(replay(s(2))),
        "sweep" => sweep(s(2), u(3), u(4)),
        _ => { eprintln!("usage: nbsim check ID TIER SEED EVIDENCE REPLAYDIR | replay FILE | sweep PROFILE FROM N"); std::process::exit(2) }
    }
}

/// For development: runs a range of raw seeds of one profile.
fn sweep(p: &str, from: u64, n: u64) {
    let prof = generate::profile(p);
    let mut disc: BTreeMap<&str, u32> = Default::default();
    let mut cov: BTreeMap<&str, u64> = Default::default();
    let mut v: BTreeMap<String, (u32, u64)> = Default::default();
    let (mut segs, mut steps) = (0, 0);
    for i in from..from + n {
        let c = generate::gen_case(&prof, i);
        let o = drive::run(&c, n == 1);
        segs += o.stats.segs; steps += o.stats.steps;
        if let Some(d) = o.stats.discard { *disc.entry(d).or_insert(0) += 1 }
        for (k, n) in o.stats.cov { *cov.entry(k).or_insert(0) += n }
        if n == 1 { println!("{:?}", c.actions); for e in &o.trace { println!("{e:?}") } println!("{:?}", o.violation);
            if let Some(v) = &o.violation {
                let (m, _) = shrink::shrink(c.clone(), &mut |c| drive::run(c, false).violation.is_some_and(|w| w.kind == v.kind), Duration::from_secs(20));
                let o = drive::run(&m, true);
                for e in &m.prog.ents { println!("ENT {} fields {:?} cost {} snd {}", e.name, e.fields, e.costumes, e.sounds); for f in &e.funcs { println!(" FN {f:?}") } for s in &e.scripts { println!(" SC {s:?}") } }
                println!("GLOBALS {:?}\nFUNCS {:?}\nACTIONS {:?}\nTRACE {:#?}\n{:?}", m.prog.globals, m.prog.funcs, m.actions, o.trace.iter().rev().take(3).rev().collect::<Vec<_>>(), o.violation)
            }
        }
        if let Some(x) = o.violation { let d: String = x.detail.lines().next().unwrap_or("").chars().take(100).collect(); let e = v.entry(if x.kind == "crash" { format!("crash {d}") } else { x.kind }).or_insert((0, i)); e.0 += 1 }
    }
    println!("segs {segs} steps {steps} discards {disc:?}\ncov {cov:#?}\nviol {v:#?}");
}
