//! What each property's check runs, and what makes a run count for it.
use std::collections::HashSet;
use crate::drive::*;
use crate::generate::*;
use crate::ir::*;
use crate::model::*;
use crate::rng::*;

pub struct Run { pub case: Case, pub profile: &'static str, pub violation: Option<Violation>, pub stats: Stats }

pub fn profiles(id: &str) -> Vec<&'static str> {
    let own: &'static str = ALL.iter().find(|x| **x == id).copied().unwrap_or("base");
    match own { "S16" => vec!["S16", "S16B", "S16", "S16B", "S16", "S12", "S16", "S22"], "S17" => vec!["S17"], "S24" => vec!["S24", "S24", "S24", "S24W"], "S25" => vec!["S25"], x => vec![x, x, x, x, x, x, "base"] }
}
pub const ALL: [&str; 26] = ["S01", "S02", "S03", "S04", "S05", "S06", "S07", "S08", "S09", "S10", "S11", "S12", "S13", "S14", "S15", "S16", "S17", "S18", "S19", "S20", "S21", "S22", "S23", "S24", "S25", "S26"];

pub fn case_of(id: &str, seed: u64) -> (Case, &'static str) {
    let ps = profiles(id);
    let p = ps[(mix(seed ^ 0x51) % ps.len() as u64) as usize];
    (gen_case(&profile(p), seed), p)
}
pub fn run_prop(id: &str, seed: u64) -> Run {
    let (case, profile) = case_of(id, seed);
    let (violation, stats) = run_case(id, &case, seed);
    Run { case, profile, violation, stats }
}
/// Runs one case the way the property's check does.
pub fn run_case(id: &str, case: &Case, seed: u64) -> (Option<Violation>, Stats) {
    if id == "S17" { return same_runs(case) }
    let mut o = run(case, false);
    // here only the survival of the VM counts: what extreme values mean is not compared
    if id == "S25" { if o.violation.as_ref().is_some_and(|v| v.kind != "crash") { o.violation = None; o.stats.discard = o.stats.discard.or(Some("extreme values not modelled")) } }
    if o.violation.is_none() && o.stats.discard.is_none() && mix(seed ^ 0x77) % 64 == 0 {
        // the simulator itself must be repeatable
        let p = run(case, false);
        if p.stats.hash != o.stats.hash || p.stats.steps != o.stats.steps { return (Some(Violation { kind: "not repeatable".into(), detail: "two executions of the same seed differ".into(), seg: 0 }), o.stats) }
    }
    (o.violation, o.stats)
}
fn same_runs(case: &Case) -> (Option<Violation>, Stats) {
    let mut st = Stats::default();
    // how far the program goes before it leaves what is modelled, and how big its values get
    let probe = run(case, false).stats;
    if probe.size > 5000 { st.discard = Some("values too big to be written out"); return (None, st) }
    let segs = if probe.discard.is_some() { probe.segs.saturating_sub(1) as u32 } else { case.segs };
    let base = run_real(case, Variant::Plain, segs);
    let a = match base { Ok(x) => x, Err(v) => return (Some(v), st) };
    st.segs = a.0.iter().filter(|e| !matches!(e, Ev::Log(_) | Ev::Perf { .. } | Ev::Send { .. } | Ev::Reply { .. })).count() as u64;
    st.steps = a.2;
    st.events = a.0.len() as u64;
    for e in &a.0 { st.hash = hash(st.hash, e); *st.kinds.entry(e.kind()).or_insert(0) += 1 }
    for (name, v) in [("a second execution", Variant::Plain), ("an execution of the code and initial state after serialising and reloading them", Variant::Reload), ("an execution with other memory addresses and collection times", Variant::Perturbed)] {
        let b = match run_real(case, v, segs) { Ok(x) => x, Err(v) => return (Some(Violation { detail: format!("{name}: {}", v.detail), ..v }), st) };
        *st.faults.entry(match v { Variant::Plain => "executions repeated", Variant::Reload => "code and initial state serialised and reloaded", Variant::Perturbed => "addresses and collections perturbed" }).or_insert(0) += 1;
        if a.0 != b.0 {
            let i = a.0.iter().zip(&b.0).position(|(x, y)| x != y).unwrap_or(a.0.len().min(b.0.len()));
            return (Some(Violation { kind: format!("differs: {}", a.0.get(i).or(b.0.get(i)).map(|e| e.kind()).unwrap_or("")), detail: format!("{name} differs at event {i}: {:?} against {:?}", a.0.get(i), b.0.get(i)), seg: 0 }), st);
        }
        if a.1 != b.1 {
            let i = a.1.iter().zip(&b.1).position(|(x, y)| x != y).unwrap_or(0);
            return (Some(Violation { kind: "differs: error report".into(), detail: format!("{name} reports an error differently: {:?} against {:?}", a.1.get(i), b.1.get(i)), seg: 0 }), st);
        }
        if v != Variant::Perturbed && a.2 != b.2 { return (Some(Violation { kind: "differs: steps".into(), detail: format!("{name} took {} steps instead of {}", b.2, a.2), seg: 0 }), st) }
    }
    if st.kinds.contains_key("error") { st.cov.insert("error reports compared", 1); }
    if st.events > 6 { st.cov.insert("executions compared", 1); }
    (None, st)
}

/// Model coverage marks that make a run non-trivial for a property.
pub fn marks(id: &str) -> &'static [&'static str] {
    match id {
        "S01" => &["message queued", "queue of 2+"],
        "S02" => &["broadcast restarted a running receiver", "broadcaster restarted itself", "broadcaster among several receivers", "targeted broadcast"],
        "S03" => &["broadcast and wait", "barrier released"],
        "S04" => &["yield inside warp", "nested warp", "error left a warp", "return out of a warp"],
        "S05" => &["several scripts took turns"],
        "S06" => &["stop this script", "stop all", "stop all but this", "stop others in sprite killed something", "stop while running", "clone deleted", "return out of nested blocks"],
        "S07" => &["start while running", "stop while running", "trigger dropped", "trigger while running"],
        "S08" => &["custom interrupt", "trigger dropped", "queue of 2+"],
        "S09" => &["error caught", "error caught across calls", "error uncaught", "error left a warp", "error caught inside a list operation"],
        "S10" => &["host operations"],
        "S11" => &["sleep ended", "sleep of zero"],
        "S12" => &["clone created", "clone of a clone", "clone deleted"],
        "S13" => &["closure launched", "closure called", "closure run for another sprite"],
        "S14" => &["nested scopes"],
        "S15" => &["reply awaited", "replied", "reply timeout", "bad reply", "reply never comes"],
        "S16" => &["collected while running", "bounded memory measured"],
        "S17" => &["executions compared", "error reports compared"],
        "S18" => &["depth limit (block)", "depth limit (closure)"],
        "S19" => &["idle reported", "paused"],
        "S20" => &["paused", "watcher"],
        "S21" => &["host state unwound by error", "host state unwound by return"],
        "S22" => &["list operation with calls", "loop suspended"],
        "S23" => &["compared with the source"],
        "S25" => &["operators evaluated", "error caught", "error uncaught", "host operations"],
        "S26" => &["property operations"],
        "S24" => &["operators evaluated", "operator over a list", "several positions at once"],
        _ => &[],
    }
}

/// Features of a case (block kinds, events, inputs).
pub fn features(c: &Case) -> HashSet<String> {
    let mut f = HashSet::new();
    fn go(j: &serde_json::Value, f: &mut HashSet<String>) {
        match j {
            serde_json::Value::Array(x) => x.iter().for_each(|x| go(x, f)),
            serde_json::Value::Object(m) => for (k, v) in m { if k.chars().next().map(|c| c.is_uppercase()).unwrap_or(false) { f.insert(k.clone()); } go(v, f) },
            serde_json::Value::String(s) => { f.insert(s.clone()); }
            _ => (),
        }
    }
    for x in &c.prog.funcs { go(&serde_json::to_value(&x.body).unwrap(), &mut f) }
    for e in &c.prog.ents {
        for x in &e.funcs { go(&serde_json::to_value(&x.body).unwrap(), &mut f) }
        for x in &e.scripts {
            go(&serde_json::to_value(&x.body).unwrap(), &mut f);
            f.insert(match &x.hat { Hat::Flag => "hat:flag", Hat::Clone => "hat:clone", Hat::Key(_) => "hat:key", Hat::Local(_) => "hat:local", Hat::Net { .. } => "hat:net", Hat::Custom { .. } => "hat:custom", Hat::None => "hat:none" }.into());
        }
    }
    for a in &c.actions { f.insert(match &a.what { What::Start => "in:start", What::Stop => "in:stop", What::Key(_) | What::KeyUp(_) => "in:key", What::Custom { .. } => "in:custom", What::Net { .. } => "in:net", What::Jump(_) => "in:jump" }.into()); }
    f
}
/// Whether a (minimised) failure is about this property: the case must still contain what the property talks about.
pub fn relevant(id: &str, c: &Case, v: &Violation, seed: u64) -> bool {
    let f = features(c);
    let any = |xs: &[&str]| xs.iter().any(|x| f.contains(*x));
    let still = |n: &Case| run_case(id, n, seed).0.map(|w| w.kind == v.kind).unwrap_or(false);
    match id {
        "S01" => any(&["in:net"]) && any(&["hat:net"]),
        "S02" | "S03" => any(&["Bcast"]) && (id == "S02" || serde_json::to_string(&c.prog).unwrap().contains("\"wait\":true")),
        "S05" => c.prog.ents.iter().map(|e| e.scripts.len()).sum::<usize>() > 1 || any(&["Fork", "Bcast", "Clone"]),
        "S06" => any(&["All", "This", "Block", "Others", "MyOthers", "Delete", "in:stop", "hat:clone"]),
        "S07" => any(&["in:start", "in:stop", "in:key"]),
        "S08" => any(&["in:custom"]) && any(&["hat:custom"]),
        "S09" => any(&["Try", "Throw"]) || v.detail.contains("Err {") || v.detail.contains("Err("),
        "S10" => any(&["Rpc", "Sys", "Ask", "Prop", "SetProp", "ChProp", "Goto", "GotoEnt", "Forward", "ClearEffects", "StopSounds", "Say", "Block", "NetSend", "NetWait", "Costume", "NextCostume", "RpcErr", "SysErr", "Answer"]),
        "S11" => any(&["Sleep", "Timer", "ResetTimer", "UnixMs", "dur"]),
        "S12" => any(&["Clone", "Delete"]),
        "S13" => any(&["Clo", "Fork", "CallClo"]),
        "S15" => any(&["NetWait", "NetReply"]),
        "S26" => any(&["Prop", "Get", "SetProp", "ChProp", "Goto", "GotoEnt", "Forward", "ClearEffects"]) || f.iter().any(|x| ["SetEffect:", "ChEffect:", "SetPen:", "ChPen:", "PenColor:", "PenDown:", "Visible:", "Turn", "Point"].iter().any(|p| x.starts_with(p))) || v.detail.contains("property"),
        "S16" => v.kind == "memory" || { let mut n = c.clone(); n.gc = GcPat::Never; n.gc != c.gc && !still(&n) },
        "S18" => { let mut n = c.clone(); n.opts.max_depth = 1_000_000; !still(&n) },
        "S19" => v.kind == "idle action" || v.kind == "stuck" || v.kind.contains("idle") || v.detail.contains("Idle") || v.kind == "crash",
        "S20" => any(&["Pause", "Show", "Hide"]),
        "S21" => any(&["hpush", "hpop", "hget", "htag"]),
        "S22" => any(&["Repeat", "Forever", "Until", "WaitUntil", "For", "Foreach", "Map", "Keep", "Find", "Combine", "Push", "SetItem", "Remove", "RemoveAll"]),
        _ => true,
    }
}
