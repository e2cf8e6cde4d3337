//! Judges a finished run from what the process did, what it was asked, and what its project said.
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use simcore::Report;
use simterm::{Done, Ev, Handled, Term};
use crate::case::*;
use crate::drive::{Hist, Said, FINAL, MS};

#[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub struct Viol { pub kind: String, pub props: Vec<String>, pub detail: String }
/// A mark in the output: project, script, number, and what it announces.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Tok { p: usize, s: usize, n: u64, k: char }
fn toks(text: &str, open: &str) -> Vec<Tok> {
    let mut v = vec![];
    for (i, _) in text.match_indices(open) {
        let rest = &text[i + open.len()..];
        let Some(rest) = rest.strip_prefix('p') else { continue };
        let num = |s: &str| -> Option<(u64, usize)> { let e = s.find(|c: char| !c.is_ascii_digit()).unwrap_or(s.len()); s[..e].parse().ok().map(|x| (x, e)) };
        let Some((p, e)) = num(rest) else { continue };
        let Some(rest) = rest[e..].strip_prefix('s') else { continue };
        let Some((s, e)) = num(rest) else { continue };
        let Some(rest) = rest[e..].strip_prefix(':') else { continue };
        let Some((n, e)) = num(rest) else { continue };
        v.push(Tok { p: p as usize, s: s as usize, n, k: rest[e..].chars().next().unwrap_or(' ') });
    }
    v
}
/// The marks a script prints if nobody disturbs it and nobody is asked anything, with the least time each takes; and whether more would follow.
fn plan(ops: &[Op], out: &mut Vec<(u64, u64)>, n: &mut u64, t: &mut u64, cost: u64) -> bool {
    for o in ops {
        *t += cost;
        match o {
            Op::Say(_) => { *n += 1; out.push((*n, *t)) }
            Op::SayNothing => (),
            Op::Wait(ms) => *t += *ms as u64 * MS,
            Op::Open(..) | Op::Put(..) | Op::Get(..) | Op::Shut(..) | Op::OddCall(..) => *n += 1,
            Op::Throw | Op::Same | Op::Pause | Op::Ask(_) => { if !matches!(o, Op::Ask(_)) { *n += 1; out.push((*n, *t)) } return false }
            Op::Work(k) => *t += *k as u64 * cost,
            Op::Rep(k, x) => for _ in 0..*k { if !plan(x, out, n, t, cost) { return false } }
            Op::Forever(x) => { for _ in 0..5 { if !plan(x, out, n, t, cost) { return false } } return false }
        }
    }
    true
}
/// Whether a line names an entity, quoted or not.
fn names(line: &str, ent: &str) -> bool { line.contains(ent) || line.contains(format!("{ent:?}").trim_matches('"')) }
struct Req<'a> { id: usize, what: &'a What, h: &'a Handled }
#[derive(Clone)]
struct Cmd { n0: u64, n1: u64, t0: u64, t1: u64, k: CmdKind }
#[derive(Clone, Copy, Debug, PartialEq)]
enum CmdKind { Load(usize), Nothing, Start, Stop }
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
struct State { k: usize, live: bool, next: Vec<u64> }

pub struct Judge<'a> { c: &'a Case, h: &'a Hist, t: &'a Term, rep: &'a Report, pub out: Vec<Viol>, pub seen: BTreeMap<&'static str, u64>, slack: u64 }
include!("files.rs");
impl<'a> Judge<'a> {
    pub fn new(c: &'a Case, h: &'a Hist, t: &'a Term, rep: &'a Report) -> Self { Judge { c, h, t, rep, out: vec![], seen: BTreeMap::new(), slack: c.slack() } }
    fn bad(&mut self, kind: &str, props: &[&str], detail: String) { let props = if self.c.files.is_some() { &["C06"] } else { props }; if self.out.iter().filter(|v| v.kind == kind).count() < 3 { self.out.push(Viol { kind: kind.into(), props: props.iter().map(|x| x.to_string()).collect(), detail }) } }
    fn saw(&mut self, k: &'static str, n: u64) { if n > 0 { *self.seen.entry(k).or_insert(0) += n } }
    fn at(&self, t: u64) -> String { format!("{:.3} ms", t.saturating_sub(self.h.started) as f64 / 1e6) }
    /// About how long one operation of a script takes: every process gets its turn, and each turn is several slices.
    fn cost(&self) -> u64 { 40 * self.c.slice_ns }
    pub fn judge(mut self) -> (Vec<Viol>, BTreeMap<&'static str, u64>) {
        let all: &[&str] = match self.c.mode { Mode::Server => &["C01", "C02", "C03"], _ if self.c.files.is_some() => &["C06"], Mode::Tty => &["C04", "C05"], Mode::Plain => &["C05"] };
        if !self.c.busy {
            if let Some(p) = &self.h.died { self.bad("panic", all, format!("the program panicked: {p}")) }
            for p in &self.rep.panics { self.bad("panic", all, format!("thread {} panicked: {}", p.0, p.2)) }
        }
        if !self.rep.deadlock.is_empty() && self.h.end == 0 { self.bad("deadlock", all, format!("every thread waits: {:?}", self.rep.deadlock)) }
        if !self.out.is_empty() { return (self.out, self.seen) }
        if self.c.busy { self.busy(); return (self.out, self.seen) }
        if self.c.mode != Mode::Server && !self.opening() { return (self.out, self.seen) }
        if self.c.files.is_some() { self.files(); return (self.out, self.seen) }
        let printed = self.printed(all);
        match self.c.mode { Mode::Server => self.server(printed), Mode::Tty => self.terminal(), Mode::Plain => { let d = self.h.end; self.quiet_scripts(&["C05"], d) } }
        (self.out, self.seen)
    }
    fn busy(&mut self) {
        self.saw("port taken", 1);
        if self.h.ended.is_none() && self.h.died.is_none() && self.t.exit.is_none() { self.bad("no end", &["C02"], "the web server cannot start because the port is taken, yet the program goes on without one".into()) }
    }
    /// Whether run mode should have begun at all, and whether it did.
    fn opening(&mut self) -> bool {
        let c = self.c;
        let names: Vec<String> = c.names[..c.roles.len()].to_vec();
        let code = match c.file {
            1..=4 => 1,
            5 | 6 => 2,
            _ => match &c.role { Some(r) => if names.contains(r) { 0 } else { 2 }, None => if names.len() == 1 { 0 } else { 2 } },
        };
        let began = self.outs().iter().any(|o| o.2.contains("public id"));
        if code == 0 && c.file == 7 {
            // a project that cannot be compiled
            if let Some(o) = self.outs().iter().find(|o| o.2.contains("[[")) { self.bad("ran", &["C05"], format!("a project that cannot be compiled has printed {:?}", o.2)) }
            let told = self.errs().contains("error") || self.outs().iter().any(|o| o.2.contains("error"));
            let over = self.h.ended.is_some() || self.t.exit.is_some();
            if !told || !over { self.bad("silent failure", &["C05"], format!("a project that cannot be compiled {}", if over { "ends the program without a message" } else { "does not end the program" })) }
            let raw = self.t.log.iter().rev().find_map(|l| if let Done::Raw(b) = &l.2 { Some(*b) } else { None }).unwrap_or(false);
            if raw && over { self.bad("terminal left behind", &["C05"], "the program ended with the terminal in raw mode".into()) }
            self.saw("refused to run", 1);
            return false
        }
        match (code, self.t.exit) {
            (0, Some((_, x))) if x != 0 => self.bad("would not run", &["C05"], format!("the program ended with code {x} although the project and role are fine: {}", self.errs())),
            (0, _) => { self.saw("projects run", 1); return true }
            (k, Some((_, x))) if x == k && !began => { self.saw("refused to run", 1); if self.errs().trim().is_empty() { self.bad("silent failure", &["C05"], format!("ended with code {x} and no message")) } }
            (k, x) => self.bad("wrong exit", &["C05"], format!("expected the program to refuse with code {k}, but {}", match x { Some(x) => format!("it ended with code {}{}", x.1, if began { " after it had begun to run" } else { "" }), None => "it did not end".into() })),
        }
        false
    }
    fn errs(&self) -> String { self.t.log.iter().filter_map(|l| match &l.2 { Done::Err(s) => Some(s.as_str()), _ => None }).collect() }
    fn outs(&self) -> Vec<(u64, u64, &'a str)> { self.t.log.iter().filter_map(|l| match &l.2 { Done::Out(s) => Some((l.0, l.1, s.as_str())), _ => None }).collect() }
    fn said(&self) -> Vec<(&'a Said, Tok)> { self.h.prints.iter().filter_map(|p| p.text.as_ref().and_then(|t| toks(t, "[[").first().copied()).map(|k| (p, k))).collect() }
    /// Everything the project said is on the output once, in order; returns the marks on the output with their numbers.
    fn printed(&mut self, all: &[&str]) -> Vec<(u64, u64, Tok)> {
        let props: &[&str] = if self.c.mode == Mode::Server { &["C01"] } else { all };
        let said = self.said();
        let mut shown = vec![];
        for o in self.outs() { for t in toks(o.2, "[[") { shown.push((o.0, o.1, t, o.2)) } }
        self.saw("things printed", shown.len() as u64);
        for i in 0..said.len().max(shown.len()) {
            match (said.get(i), shown.get(i)) {
                (Some((p, k)), Some(o)) => {
                    if *k != o.2 || o.1 < p.n { self.bad("output wrong", props, format!("the project said {k:?} at {}, but the next thing on the output is {:?}", self.at(p.t), o.3)); break }
                    let text = p.text.as_deref().unwrap_or("");
                    let cr = if self.c.mode == Mode::Tty { "\r\n" } else { "\n" };
                    if !o.3.contains(text) || !names(o.3, &p.ent) || !o.3.ends_with(cr) { self.bad("output wrong", props, format!("{:?} said {text}, but the output is {:?}", p.ent, o.3)); break }
                }
                (Some((p, k)), None) => { if said.len() - shown.len() > 1 || p.t + self.slack < self.h.end { self.bad("output lost", props, format!("{k:?}, said at {}, is not on the output", self.at(p.t))) } break }
                (None, Some(o)) => { self.bad("output wrong", props, format!("nobody said what is on the output: {:?}", o.3)); break }
                (None, None) => (),
            }
        }
        shown.into_iter().map(|x| (x.0, x.1, x.2)).collect()
    }
    /// Scripts that start with the program and are never disturbed print all their marks.
    fn quiet_scripts(&mut self, props: &[&str], until: u64) {
        let p = self.role();
        let said = self.said();
        let Some(t0) = self.outs().iter().find(|o| o.2.contains("public id")).map(|o| o.0) else { self.bad("no start", props, "the program never started".into()); return };
        for (s, sc) in self.c.projs[p].scripts.iter().enumerate() {
            if sc.hat != Hat::Go { continue }
            let (mut v, mut n, mut t) = (vec![], 0, 0);
            plan(&sc.ops, &mut v, &mut n, &mut t, self.cost());
            for (n, t) in v {
                if t0 + self.slack + 2 * t >= until { continue }
                self.saw("marks expected", 1);
                if !said.iter().any(|x| x.1.p == p && x.1.s == s && x.1.n == n) { self.bad("no progress", props, format!("script {s} of project {p} should have printed mark {n} by {}", self.at(t0 + self.slack + 2 * t))); break }
            }
        }
        let mut next: BTreeMap<usize, u64> = BTreeMap::new();
        for (w, k) in &said {
            if k.p != p { self.bad("wrong role", props, format!("{k:?} is printed, but the role to run is number {p}")); return }
            let e = next.entry(k.s).or_insert(1);
            let gap = k.n > *e && self.c.projs[p].scripts.get(k.s).map(|x| matches!(x.hat, Hat::Key(_)) && x.ops.iter().any(|o| matches!(o, Op::Ask(_)))).unwrap_or(false); // a question of a key script can be withdrawn
            if *e != k.n && !gap { self.bad("order", props, format!("script {} printed mark {} at {} where {} was next", k.s, k.n, self.at(w.t), *e)); return }
            *e = k.n + 1;
        }
        // errors are reported once each
        let slack = self.slack;
        self.same_errors(props, &|p| p.t + slack < until);
        let threw: Vec<&(&Said, Tok)> = said.iter().filter(|x| x.1.k == '!').collect();
        let mut shown: Vec<Tok> = vec![];
        for o in self.outs() { shown.extend(toks(o.2, "{{")) }
        self.saw("errors reported", shown.len() as u64);
        for x in &shown { if shown.iter().filter(|y| *y == x).count() > 1 || !threw.iter().any(|y| (y.1.p, y.1.s, y.1.n) == (x.p, x.s, x.n)) { self.bad("error wrong", props, format!("{x:?} is reported more often than it was thrown")) } }
        for x in &threw { if x.0.t + self.slack < until && !shown.iter().any(|y| (x.1.p, x.1.s, x.1.n) == (y.p, y.s, y.n)) { self.bad("error lost", props, format!("the error of {:?}, thrown at {}, was never reported", x.1, self.at(x.0.t))) } }
    }
    /// Errors that all have the same text, as reported: when.
    fn sames(&self) -> Vec<(u64, u64)> { let mut v = vec![]; for o in self.outs() { for _ in 0..o.2.matches("{{same}}").count() { v.push((o.0, o.1)) } } v }
    /// Of the errors with the same text, at least those for which the test holds are reported, and none more than were raised.
    fn same_errors(&mut self, props: &[&str], sure: &dyn Fn(&Said) -> bool) {
        let said = self.said();
        let raised: Vec<&Said> = said.iter().filter(|x| x.1.k == '$').map(|x| x.0).collect();
        let shown = self.sames();
        self.saw("errors with the same text", shown.len() as u64);
        let least = raised.iter().filter(|p| sure(p)).count();
        if shown.len() < least { self.bad("error lost", props, format!("errors with the same text were raised {least} times, but reported only {} times", shown.len())) }
        for (i, x) in shown.iter().enumerate() { if raised.get(i).map(|p| p.n > x.1).unwrap_or(true) { self.bad("error wrong", props, format!("at {} an error was reported for the {}th time that was raised less often", self.at(x.0), i + 1)) } }
    }
    fn role(&self) -> usize { let i = match &self.c.role { Some(r) => (0..self.c.roles.len()).find(|k| self.c.names[*k] == *r).unwrap_or(0), None => 0 }; self.c.roles.get(i).copied().unwrap_or(0) }

    // ------------------------------------------------------------ the server
    fn server(&mut self, shown: Vec<(u64, u64, Tok)>) {
        let h = self.h;
        let t = self.t;
        let mut reqs: Vec<Req> = vec![];
        let mut ids = BTreeSet::new();
        for x in &t.handled {
            let Some((_, w)) = h.sent.get(&x.id) else { continue };
            if !ids.insert(x.id) { self.bad("answered twice", &["C02"], format!("request {} {w:?} was answered twice", x.id)) }
            reqs.push(Req { id: x.id, what: w, h: x });
        }
        reqs.sort_by_key(|r| r.h.n0);
        for (id, (t, w)) in &h.sent { if !ids.contains(id) && t + self.slack < h.end { self.bad("no answer", &["C02"], format!("request {id} {w:?} made at {} was never answered", self.at(*t))) } }
        for r in &reqs {
            let (st, ok) = (r.h.resp.status, (200..300).contains(&r.h.resp.status));
            let want = match r.what { What::Upload(Up::NotUtf8) | What::Odd(_) => false, _ => true };
            if ok != want { self.bad("status", &["C02"], format!("{:?} was answered with status {st}: {}", r.what, String::from_utf8_lossy(&r.h.resp.body).chars().take(100).collect::<String>())) }
            let cors = self.c.acts.get(r.id).map(|a| a.origin || a.what == What::Preflight).unwrap_or(true);
            if cors && ok && !r.h.resp.headers.iter().any(|x| x.0.eq_ignore_ascii_case("access-control-allow-origin")) { self.bad("not for the editor", &["C02"], format!("the answer to {:?} may not be read by the editor's page", r.what)) }
            if *r.what == What::GetExt && !String::from_utf8_lossy(&r.h.resp.body).contains("http://127.0.0.1:6286") { self.bad("extension", &["C02"], "the extension does not name this server".into()) }
        }
        self.saw("requests answered", reqs.len() as u64);
        if !self.out.is_empty() { return }
        let overlap = reqs.windows(2).any(|w| w[1].h.n0 < w[0].h.n1);
        if overlap { self.saw("overlapping requests", 1); return }
        let cmds: Vec<Cmd> = reqs.iter().filter_map(|r| {
            let k = match r.what { What::Upload(Up::Good(p)) => CmdKind::Load(*p), What::Upload(Up::NotUtf8) => return None, What::Upload(_) => CmdKind::Nothing, What::Start => CmdKind::Start, What::Stop => CmdKind::Stop, _ => return None };
            Some(Cmd { n0: r.h.n0, n1: r.h.n1, t0: r.h.t0, t1: r.h.t1, k })
        }).collect();
        self.saw("commands sent", cmds.len() as u64);
        self.pulls(&reqs, &cmds, &shown);
        self.commands(&reqs, &cmds);
        self.running(&reqs, &cmds);
    }
    fn pulls(&mut self, reqs: &[Req], cmds: &[Cmd], shown: &[(u64, u64, Tok)]) {
        let said = self.said();
        let (mut got, mut errs): (Vec<Tok>, Vec<Tok>) = (vec![], vec![]);
        let mut outs_err: Vec<(u64, u64, Tok)> = vec![];
        for o in self.outs() { for t in toks(o.2, "{{") { outs_err.push((o.0, o.1, t)) } }
        let throws: Vec<Vec<String>> = (0..self.c.projs.len()).map(|p| { let x = xml(self.c, p); x.match_indices("s=\"doThrow\"").map(|(i, _)| { let s = &x[..i]; let a = s.rfind("collabId=\"").unwrap() + 10; s[a..].split('"').next().unwrap().to_string() }).collect() }).collect();
        let mut load_errs = 0;
        let (sames, mut same) = (self.sames(), 0);
        fn raises(o: &Op) -> bool { match o { Op::Same => true, Op::Rep(_, x) | Op::Forever(x) => x.iter().any(raises), _ => false } }
        let raising: Vec<&str> = self.c.projs.iter().flat_map(|p| p.scripts.iter().filter(|s| s.ops.iter().any(raises)).map(|s| match s.ent { 0 => "Stage", e => p.sprites[e - 1].as_str() })).collect();
        for r in reqs.iter().filter(|r| *r.what == What::Pull) {
            let Ok(j) = serde_json::from_slice::<serde_json::Value>(&r.h.resp.body) else { self.bad("pull", &["C01"], format!("the answer to a pull is no JSON: {}", String::from_utf8_lossy(&r.h.resp.body))); return };
            let (Some(out), Some(es), Some(_)) = (j["output"].as_str(), j["errors"].as_array(), j["running"].as_bool()) else { self.bad("pull", &["C01"], format!("the answer to a pull lacks something: {j}")); return };
            self.saw("pulls with output", !out.is_empty() as u64);
            self.saw("pulls", 1);
            let base = got.len();
            // each line as the project said it
            for line in out.split('\n') { for t in toks(line, "[[") { if let Some((p, _)) = said.get(got.len()) { let text = p.text.as_deref().unwrap_or(""); if !line.contains(text) || !names(line, &p.ent) { self.bad("output wrong", &["C01"], format!("{:?} said {text}, but what is pulled is {line:?}", p.ent)); return } } got.push(t) } }
            for i in base..got.len() { if said.get(i).map(|x| x.1) != Some(got[i]) { self.bad("output wrong", &["C01"], format!("pulled {:?} as item {i} where the project had said {:?}", got[i], said.get(i).map(|x| x.1))); return } }
            let due = shown.iter().filter(|x| x.1 < r.h.n0).count();
            if got.len() < due { self.bad("output lost", &["C01"], format!("by the pull at {} {due} things were printed, but only {} were ever handed out", self.at(r.h.t0), got.len())); return }
            for e in es {
                let cause = e["cause"].as_str().unwrap_or("");
                if cause.contains("{{same}}") {
                    same += 1;
                    let ent = e["entity"].as_str().unwrap_or("");
                    if !raising.contains(&ent) { self.bad("error wrong", &["C01"], format!("an error is said to be of entity {ent:?}, but only {raising:?} raise it")); return }
                    continue
                }
                let Some(t) = toks(cause, "{{").first().copied() else { load_errs += 1; continue };
                self.saw("errors pulled", 1);
                if outs_err.get(errs.len()).map(|x| x.2) != Some(t) { self.bad("error wrong", &["C01"], format!("pulled error {t:?} as number {} where {:?} was reported", errs.len(), outs_err.get(errs.len()).map(|x| x.2))); return }
                errs.push(t);
                let proj = &self.c.projs[t.p];
                let ent = match proj.scripts[t.s].ent { 0 => "Stage", e => &proj.sprites[e - 1] };
                if e["entity"].as_str() != Some(ent) { self.bad("error wrong", &["C01"], format!("the error of {t:?} is said to be of entity {} and not {ent:?}", e["entity"])); return }
                let loc = e["trace"].as_array().and_then(|x| x.last()).and_then(|x| x["location"].as_str()).unwrap_or("none");
                if !throws[t.p].iter().any(|x| x == loc) { self.bad("error wrong", &["C01"], format!("the error of {t:?} is said to be at {loc}, but only {:?} throw", throws[t.p])); return }
            }
            let (sure, most) = (sames.iter().filter(|x| x.0 + self.slack < r.h.t0).count(), sames.iter().filter(|x| x.1 < r.h.n1).count());
            if same < sure || same > most { self.bad("error lost", &["C01"], format!("by the pull at {} between {sure} and {most} errors with the same text were reported, but {same} were handed out", self.at(r.h.t0))); return }
            let due = outs_err.iter().filter(|x| x.0 + self.slack < r.h.t0).count();
            if errs.len() < due { self.bad("error lost", &["C01"], format!("by the pull at {} {due} errors were reported, but only {} were ever handed out", self.at(r.h.t0), errs.len())); return }
            let (sure, most) = reqs.iter().filter(|x| matches!(x.what, What::Upload(Up::BadBlock(_)))).fold((0, 0), |a, x| (a.0 + (x.h.t1 + self.slack < r.h.t0) as usize, a.1 + (x.h.n0 < r.h.n1) as usize));
            if load_errs < sure || load_errs > most { self.bad("load error", &["C01", "C02"], format!("by the pull at {} {load_errs} errors of projects that cannot be loaded were handed out; between {sure} and {most} such projects were sent", self.at(r.h.t0))); return }
        }
        // every error thrown is reported
        let mut used = vec![false; outs_err.len()];
        let settled = |p: &Said| {
            let calm = |a: u64, b: u64| a > p.t + self.slack || b + self.slack < p.t;
            cmds.iter().all(|c| calm(c.t0, c.t1)) && reqs.iter().filter(|r| *r.what == What::Toggle).all(|r| calm(r.h.t0, r.h.t1)) && said.iter().filter(|x| x.1.k == '#').all(|x| calm(x.0.t, x.0.t)) && p.t + self.slack < self.h.end
        };
        let sure: BTreeSet<u64> = said.iter().filter(|x| x.1.k == '$' && settled(x.0)).map(|x| x.0.n).collect();
        for (p, k) in said.iter().filter(|x| x.1.k == '!') {
            let hit = (0..outs_err.len()).find(|i| !used[*i] && outs_err[*i].1 > p.n && { let t = outs_err[*i].2; (t.p, t.s, t.n) == (k.p, k.s, k.n) });
            if let Some(i) = hit { used[i] = true; continue }
            if settled(p) { self.bad("error lost", &["C01"], format!("the error announced as {k:?} at {} was never reported", self.at(p.t))); return }
        }
        self.same_errors(&["C01"], &|p| sure.contains(&p.n));
        if let Some(i) = used.iter().position(|x| !x) { let t = outs_err[i].2; self.bad("error wrong", &["C01"], format!("{t:?} was reported at {} more often than it was thrown", self.at(outs_err[i].0))) }
    }
    fn cur(cmds: &[Cmd], k: usize) -> Option<usize> { cmds[..k].iter().rev().find_map(|c| match c.k { CmdKind::Load(p) => Some(p), _ => None }) }
    fn commands(&mut self, reqs: &[Req], cmds: &[Cmd]) {
        let said = self.said();
        // what is visible of the commands, in order: marks, and what GET /project shows
        enum E<'b> { Mark(&'b Said, Tok), Ask0(usize), Ask1(usize, &'b Req<'b>) }
        let mut ev: Vec<(u64, u64, E)> = said.iter().map(|(p, k)| (p.n, p.t, E::Mark(p, *k))).collect();
        for (i, r) in reqs.iter().enumerate() { if *r.what == What::GetProject { ev.push((r.h.n0, r.h.t0, E::Ask0(i))); ev.push((r.h.n1, r.h.t1, E::Ask1(i, r))) } }
        ev.sort_by_key(|e| e.0);
        let content = |k: usize| -> Vec<u8> { match Self::cur(cmds, k) { Some(p) => xml(self.c, p).into_bytes(), None => netsblox_vm::template::EMPTY_PROJECT.as_bytes().to_vec() } };
        let step = |mut s: State| -> State {
            match cmds[s.k].k { CmdKind::Load(p) => { s.live = false; s.next = vec![1; self.c.projs[p].scripts.len()] } CmdKind::Start => { s.live = true; s.next.iter_mut().for_each(|x| *x = 1) } CmdKind::Stop => s.live = false, CmdKind::Nothing => () }
            s.k += 1;
            s
        };
        let mut states: BTreeSet<State> = [State { k: 0, live: false, next: vec![] }].into();
        let mut low: BTreeMap<usize, usize> = BTreeMap::new();
        let mut viol: Option<(&str, String)> = None;
        let mut shown = (0, 0);
        for (n, t, e) in &ev {
            let kmin = cmds.iter().take_while(|c| c.t1 + self.slack < *t).count();
            let kmax = cmds.iter().take_while(|c| c.n0 < *n).count();
            let mut all: BTreeSet<State> = BTreeSet::new();
            for s in &states { let mut s = s.clone(); loop { if s.k >= kmin { all.insert(s.clone()); } if s.k >= kmax { break } s = step(s) } }
            states = all;
            if states.len() > 20_000 { return }
            match e {
                E::Mark(p, k) => {
                    let before = states.clone();
                    states = states.into_iter().filter_map(|mut s| { if s.live && Self::cur(cmds, s.k) == Some(k.p) && s.next.get(k.s) == Some(&k.n) { s.next[k.s] += 1; Some(s) } else { None } }).collect();
                    if states.is_empty() {
                        let s = before.iter().next_back();
                        viol = Some(("commands", format!("at {} the program printed mark {} of script {} of project {}; after the {kmin} to {kmax} commands by then it should be running {}", self.at(p.t), k.n, k.s, k.p, match s { Some(s) => match Self::cur(cmds, s.k) { Some(p) if s.live => format!("project {p} with marks {:?} next", s.next), Some(p) => format!("nothing of project {p}"), None => "nothing".into() }, None => "something else".into() })));
                        break;
                    }
                    shown.0 += 1;
                }
                E::Ask0(i) => { low.insert(*i, states.iter().map(|s| s.k).min().unwrap_or(0)); }
                E::Ask1(i, r) => {
                    let lo = low.get(i).copied().unwrap_or(0);
                    let hit: Vec<usize> = (lo..=kmax).filter(|k| content(*k) == r.h.resp.body).collect();
                    let Some(first) = hit.first() else { viol = Some(("project shown", format!("GET /project at {} shows something other than the last project loaded by {lo} to {kmax} commands: {}...", self.at(r.h.t0), String::from_utf8_lossy(&r.h.resp.body).chars().take(80).collect::<String>()))); break };
                    states.retain(|s| s.k >= *first);
                    shown.1 += 1;
                }
            }
        }
        self.saw("marks in order", shown.0);
        self.saw("projects shown", shown.1);
        if let Some((k, d)) = viol { self.bad(k, &["C02"], d); return }
        // what was started runs
        for (j, c) in cmds.iter().enumerate() {
            if c.k != CmdKind::Start { continue }
            let Some(p) = Self::cur(cmds, j) else { continue };
            let mut until = self.h.end;
            if let Some(x) = cmds.get(j + 1) { until = until.min(x.t0) }
            for r in reqs.iter().filter(|r| *r.what == What::Toggle && r.h.n1 > c.n0) { until = until.min(r.h.t0) }
            for x in said.iter().filter(|x| x.1.k == '#' && x.0.n > c.n0) { until = until.min(x.0.t) }
            for (s, sc) in self.c.projs[p].scripts.iter().enumerate() {
                let (mut v, mut n, mut t) = (vec![], 0, 0);
                plan(&sc.ops, &mut v, &mut n, &mut t, self.cost());
                for (n, t) in v {
                    if c.t1 + self.slack + 2 * t >= until { break }
                    self.saw("starts that must show", (n == 1) as u64);
                    if !said.iter().any(|x| x.0.n > c.n0 && (x.1.p, x.1.s, x.1.n) == (p, s, n)) { self.bad("not started", &["C02"], format!("the project {p} was started at {}, but its script {s} has not printed mark {n} by {}", self.at(c.t1), self.at(until))); return }
                }
            }
        }
    }
    fn running(&mut self, reqs: &[Req], cmds: &[Cmd]) {
        let said = self.said();
        // operations on the running state, each at some moment of its time
        #[derive(Clone, Copy, Debug, PartialEq)]
        enum Op { Flip, Set(bool), See(bool) }
        struct O { n0: u64, t0: u64, n1: Option<u64>, t1: u64, op: Op, must: bool }
        let mut ops: Vec<O> = vec![];
        for r in reqs {
            match r.what {
                What::Toggle => ops.push(O { n0: r.h.n0, t0: r.h.t0, n1: Some(r.h.n1), t1: u64::MAX, op: Op::Flip, must: true }),
                What::Pull => { let Ok(j) = serde_json::from_slice::<serde_json::Value>(&r.h.resp.body) else { return }; let Some(b) = j["running"].as_bool() else { return }; ops.push(O { n0: r.h.n0, t0: r.h.t0, n1: Some(r.h.n1), t1: u64::MAX, op: Op::See(b), must: true }) }
                _ => (),
            }
        }
        for c in cmds.iter().filter(|c| c.k == CmdKind::Start) { ops.push(O { n0: c.n0, t0: c.t0, n1: None, t1: c.t1 + self.slack, op: Op::Set(true), must: true }) }
        for (p, _) in said.iter().filter(|x| x.1.k == '#') { ops.push(O { n0: p.n, t0: p.t, n1: None, t1: p.t + self.slack, op: Op::Set(false), must: false }) }
        // a script that pauses the project goes on only after something has let it
        for (i, (p, k)) in said.iter().enumerate().filter(|x| x.1.1.k == '#') {
            let Some((q, m)) = said[i + 1..].iter().find(|x| (x.1.p, x.1.s) == (k.p, k.s)).map(|x| (x.0, x.1)) else { continue };
            self.saw("scripts that go on after their pause", 1);
            let let_go = reqs.iter().any(|r| *r.what == What::Toggle && r.h.n1 > p.n && r.h.n0 < q.n) || cmds.iter().any(|c| c.k == CmdKind::Start && c.t1 + self.slack > p.t && c.n0 < q.n);
            if !let_go { self.bad("ran while paused", &["C03"], format!("{k:?} announced a pause at {}, yet {m:?} followed at {} with no start or toggle between", self.at(p.t), self.at(q.t))); return }
        }
        // moments: operations begin, operations end, marks are printed
        #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
        enum M { Begin(usize), Mark(usize), End(usize) }
        let mut ms: Vec<(u64, u64, M)> = vec![];
        for (i, o) in ops.iter().enumerate() { ms.push((o.n0, o.t0, M::Begin(i))); if let Some(n1) = o.n1 { ms.push((n1, 0, M::End(i))) } }
        for (i, (p, _)) in said.iter().enumerate() { ms.push((p.n, p.t, M::Mark(i))) }
        ms.sort();
        let mut act: Vec<usize> = vec![];
        let mut states: BTreeSet<(bool, u64)> = [(true, 0)].into(); // the running state, and which of the active operations are done
        let mut still: Option<u64> = None; // since when it is certainly paused
        let mut spans: Vec<(u64, bool)> = vec![(self.h.started, true)]; // when it certainly runs
        let mut reads = 0;
        let drop_bit = |states: BTreeSet<(bool, u64)>, b: usize, must: bool| -> BTreeSet<(bool, u64)> { states.into_iter().filter(|s| !must || s.1 >> b & 1 == 1).map(|s| (s.0, (s.1 & ((1 << b) - 1)) | (s.1 >> (b + 1) << b))).collect() };
        let mut now = self.h.started;
        for (_, t, m) in ms {
            if t > 0 { now = now.max(t) }
            // operations whose time has passed
            while let Some(b) = act.iter().position(|i| ops[*i].t1 < now) { states = drop_bit(states, b, ops[act[b]].must); act.remove(b); }
            if let M::Begin(i) = m { if act.len() >= 14 { self.saw("pauses too dense to judge", 1); return } act.push(i) }
            // whatever may happen, may have happened
            let mut todo: Vec<(bool, u64)> = states.iter().copied().collect();
            while let Some(s) = todo.pop() {
                for (b, i) in act.iter().enumerate() {
                    if s.1 >> b & 1 == 1 { continue }
                    let r = match ops[*i].op { Op::Flip => !s.0, Op::Set(x) => x, Op::See(x) => { if x != s.0 { continue } x } };
                    let x = (r, s.1 | 1 << b);
                    if states.insert(x) { todo.push(x) }
                }
            }
            if let M::End(i) = m {
                let b = act.iter().position(|x| *x == i).unwrap();
                states = drop_bit(states, b, true);
                act.remove(b);
                if let Op::See(x) = ops[i].op { reads += 1; if states.is_empty() { self.bad("running state", &["C03"], format!("the pull at {} says running = {x}, which fits no order of the starts, toggles and pauses before it", self.at(ops[i].t0))); return } }
            }
            if states.is_empty() { self.bad("running state", &["C03"], format!("no order of starts, toggles, pauses and pulls explains what was seen by {}", self.at(now))); return }
            let certain = |v: bool| states.iter().all(|s| s.0 == v);
            if certain(false) { if still.is_none() { still = Some(now) } } else { still = None }
            if spans.last().map(|x| x.1) != Some(certain(true)) { spans.push((now, certain(true))) }
            if let (M::Mark(i), Some(p)) = (m, still) { if now > p + self.slack { self.bad("ran while paused", &["C03"], format!("{:?} was printed at {}, but the project is paused since {}", said[i].1, self.at(now), self.at(p))); return } }
        }
        self.saw("running states read", reads);
        self.saw("toggles", reqs.iter().filter(|r| *r.what == What::Toggle).count() as u64);
        self.saw("pauses by the project", said.iter().filter(|x| x.1.k == '#').count() as u64);
        // while it certainly runs, scripts without end go on
        spans.push((self.h.end, false));
        for w in spans.windows(2) {
            let ((a, r), (b, _)) = (w[0], w[1]);
            if !r { continue }
            let mut cuts: Vec<u64> = vec![a, b];
            for c in cmds { if c.t1 + self.slack > a && c.t0 < b { cuts.push(c.t0.clamp(a, b)); cuts.push((c.t1 + self.slack).clamp(a, b)) } }
            cuts.sort();
            for w in cuts.windows(2) {
                let (x, y) = (w[0], w[1]);
                let k = cmds.iter().take_while(|c| c.t1 + self.slack <= x).count();
                if cmds.get(k).map(|c| c.t0 < y).unwrap_or(false) { continue }
                let Some(p) = Self::cur(cmds, k) else { continue };
                if !matches!(cmds[..k].iter().rev().map(|c| c.k).find(|c| *c != CmdKind::Nothing), Some(CmdKind::Start)) { continue }
                for (s, sc) in self.c.projs[p].scripts.iter().enumerate() {
                    let Some(crate::case::Op::Forever(body)) = sc.ops.last() else { continue };
                    let (mut v, mut n, mut t) = (vec![], 0, 0);
                    plan(&sc.ops[..sc.ops.len() - 1], &mut v, &mut n, &mut t, self.cost());
                    if sc.ops[..sc.ops.len() - 1].iter().any(stops) || body.iter().any(stops) { continue }
                    plan(body, &mut v, &mut n, &mut t, self.cost());
                    if x + self.slack + 2 * t >= y { continue }
                    self.saw("progress while running", 1);
                    if !said.iter().any(|z| z.0.t >= x && z.0.t <= y && z.1.p == p && z.1.s == s) { self.bad("stuck", &["C03"], format!("the project runs from {} to {}, but its endless script {s} prints nothing", self.at(x), self.at(y))); return }
                }
            }
        }
    }

    // ------------------------------------------------------------ the terminal
    fn terminal(&mut self) {
        let (c, h, props) = (self.c, self.h, &["C04"][..]);
        let p = self.role();
        let scripts = &c.projs[p].scripts;
        #[derive(Debug)]
        enum E<'b> { Read(&'b Ev), Asked(&'b Said), Said(&'b Said, Tok), Raw(bool), Out(&'b str) }
        let mut ev: Vec<(u64, u64, E)> = vec![];
        for l in &self.t.log { match &l.2 { Done::Read(e) => ev.push((l.1, l.0, E::Read(e))), Done::Raw(b) => ev.push((l.1, l.0, E::Raw(*b))), Done::Out(s) => ev.push((l.1, l.0, E::Out(s))), _ => () } }
        for a in &h.asks { ev.push((a.n, a.t, E::Asked(a))) }
        for (s, k) in self.said() { ev.push((s.n, s.t, E::Said(s, k))) }
        ev.sort_by_key(|e| e.0);
        let end = h.ended.unwrap_or(h.end).min(h.end);
        let mut queue: VecDeque<Tok> = VecDeque::new();
        let mut input = String::new();
        let mut answers: BTreeMap<(usize, u64), (String, u64, bool)> = BTreeMap::new();
        let mut presses: Vec<(u64, u64, usize)> = vec![]; // time, number, script
        let mut stops: Vec<(u64, u64)> = vec![];
        let (mut rows, mut last_change) = (c.size.1, 0u64);
        let (mut screen, mut saved) = (String::new(), false); // what the last redraw drew
        let mut line: Option<String> = None;
        let mut stale: Option<u64> = None; // since when something stands below the last redraw, which may have moved it away
        let (mut hidden, mut raw, mut quit) = (false, false, None);
        let mut key_marks: BTreeMap<usize, Vec<u64>> = BTreeMap::new();
        let mut lost: Option<(&str, String)> = None;
        for (n, t, e) in &ev {
            let (n, t) = (*n, *t);
            let draws = |line: &Option<String>, queue: &VecDeque<Tok>, input: &str, rows: u16| -> Option<String> {
                let Some(l) = line else { return if queue.is_empty() { None } else { Some("nothing was ever drawn".into()) } };
                let asked = toks(l, "<<");
                match queue.front() {
                    Some(q) => if asked.len() != 1 || asked[0] != *q { Some(format!("the line shows {asked:?} and not the question {q:?}")) } else if !l.trim_end_matches("\x1b8").ends_with(input) || (input.is_empty() && !l.trim_end_matches("\x1b8").ends_with("\x1b[0m")) { Some(format!("the line does not end in the input {input:?}: {l:?}")) } else { None },
                    None => if asked.is_empty() { None } else { Some(format!("the line still shows {asked:?} although nothing is asked")) },
                }.or_else(|| if l.contains(&format!("\x1b[{rows};1H")) { None } else { Some(format!("the line is not drawn in the last of {rows} rows: {l:?}")) })
            };
            if last_change > 0 && t > last_change + self.slack && !matches!(e, E::Out(_) | E::Raw(_)) {
                if let Some(d) = draws(&line, &queue, &input, rows) { lost = Some(("screen", format!("at {}: {d}", self.at(t)))); break }
                self.saw("screens checked", 1);
            }
            if let Some(x) = stale { if !queue.is_empty() && t > x.max(last_change) + self.slack { lost = Some(("screen", format!("something was printed at {}, but by {} the question was not drawn again in the last row", self.at(x), self.at(t)))); break } }
            match e {
                E::Raw(b) => raw = *b,
                E::Out(s) => {
                    for part in s.split_inclusive("\x1b[?25") { let _ = part; }
                    if s.contains("\x1b[?25l") { hidden = true }
                    if s.contains("\x1b[?25h") { hidden = false }
                    if s.contains("\x1b7") { saved = true; screen.clear() }
                    if saved { screen.push_str(s) } else if s.contains('\n') && stale.is_none() { stale = Some(t) }
                    if s.contains("\x1b8") && saved { saved = false; stale = None; line = Some(screen.clone()); self.saw("redraws", 1) }
                }
                E::Asked(a) => {
                    let Some(k) = toks(a.text.as_deref().unwrap_or(""), "<<").first().copied() else { continue };
                    if let Some((ts, _)) = stops.last() { if scripts.get(k.s).map(|x| x.hat == Hat::Go).unwrap_or(false) { lost = Some(("not stopped", format!("{k:?} was asked at {}, after everything was stopped at {}", self.at(t), self.at(*ts)))); break } }
                    queue.push_back(k);
                    last_change = t;
                    self.saw("questions asked", 1);
                    self.saw("questions in a queue", (queue.len() > 1) as u64);
                }
                E::Said(s, k) => {
                    if let Some((ts, _)) = stops.last() { if scripts.get(k.s).map(|x| x.hat == Hat::Go).unwrap_or(false) { lost = Some(("not stopped", format!("{k:?} was printed at {}, after everything was stopped at {}", self.at(t), self.at(*ts)))); break } }
                    if let (Some(Hat::Key(_)), true) = (scripts.get(k.s).map(|x| &x.hat), k.k != '=') {
                        let m = key_marks.entry(k.s).or_default();
                        m.push(t);
                        let possible = presses.iter().filter(|x| x.2 == k.s).count();
                        if m.len() > possible { lost = Some(("key", format!("script {} ran for the {}th time at {}, but its key was only pressed {possible} times", k.s, m.len(), self.at(t)))); break }
                        self.saw("key scripts run", 1);
                    }
                    if k.k == '=' {
                        let Some((a, _, _)) = answers.remove(&(k.s, k.n)) else { lost = Some(("answer", format!("{k:?} goes on at {} although its question has not been answered", self.at(t)))); break };
                        let want = format!("{:?}", format!("[[p{p}s{}:{}={a}]]", k.s, k.n));
                        if !s.text.as_deref().unwrap_or("").contains(want.trim_matches('"')) { lost = Some(("answer", format!("the answer to {k:?} was {a:?}, but the script got {}", s.text.as_deref().unwrap_or("")))); break }
                        self.saw("questions answered", 1);
                    }
                }
                E::Read(Ev::Resize(_, r)) => { rows = *r; last_change = t }
                E::Read(Ev::Key { key, ctrl, kind, .. }) => {
                    if *kind == 2 { continue }
                    use simterm::Key as K;
                    let mut press = |key: &str, presses: &mut Vec<(u64, u64, usize)>| for (i, s) in scripts.iter().enumerate() { if let Hat::Key(k) = &s.hat { if k == key || k == "any key" { presses.push((t, n, i)); for (q, x) in answers.iter_mut() { if q.0 == i { x.2 = false } } } } }; // (which may start anew)
                    match key {
                        K::Char('c') if *ctrl => { quit = Some(t); break }
                        K::Esc => { stops.push((t, n)); self.saw("questions withdrawn", queue.len() as u64); queue.clear(); input.clear(); answers.clear(); last_change = t }
                        K::Char(ch) if queue.is_empty() => press(&ch.to_ascii_lowercase().to_string(), &mut presses),
                        K::Char(ch) => { input.push(*ch); last_change = t }
                        K::Backspace => if !queue.is_empty() { input.pop(); last_change = t },
                        K::Enter => if let Some(q) = queue.pop_front() { answers.insert((q.s, q.n), (std::mem::take(&mut input), t, true)); last_change = t },
                        K::Up | K::Down | K::Left | K::Right if queue.is_empty() => press(match key { K::Up => "up arrow", K::Down => "down arrow", K::Left => "left arrow", _ => "right arrow" }, &mut presses),
                        _ => (),
                    }
                }
                E::Read(_) => (),
            }
        }
        if let Some((k, d)) = lost { self.bad(k, props, d); return }
        if quit.is_none() && last_change > 0 && last_change + self.slack < end {
            // the last drawing stands for everything that happened
            let asked = line.as_deref().map(|l| toks(l, "<<")).unwrap_or_default();
            let want: Vec<Tok> = queue.front().copied().into_iter().collect();
            if asked != want { self.bad("screen", props, format!("at the end the line shows {asked:?} where {want:?} is asked")); return }
            self.saw("screens checked", 1);
            if let Some(x) = stale { if !queue.is_empty() && x + self.slack < end { self.bad("screen", props, format!("something was printed at {}, but the question was never drawn again in the last row", self.at(x))); return } }
        }
        { for ((s, n), (a, t, _)) in answers.iter().filter(|x| x.1.2) { let rest = self.slack + if scripts.iter().any(|x| asks_slowly(&x.ops)) { ASK_REST * MS * 5 / 4 } else { 0 }; if t + rest < end && quit.map(|q| t + rest < q).unwrap_or(true) { self.bad("answer", props, format!("question {n} of script {s} was answered with {a:?} at {}, but the script does not go on", self.at(*t))); return } } }
        // presses that stand alone run their script
        for (t, _, s) in &presses {
            let alone = presses.iter().filter(|x| x.2 == *s && x.0.abs_diff(*t) <= self.slack).count() == 1 && stops.iter().all(|x| x.0.abs_diff(*t) > self.slack);
            if alone && t + self.slack < quit.unwrap_or(end).min(end) {
                self.saw("keys that must show", 1);
                if !key_marks.get(s).map(|m| m.iter().any(|x| x >= t && *x <= t + self.slack)).unwrap_or(false) { self.bad("key", props, format!("the key of script {s} was pressed at {}, but the script did not run", self.at(*t))); return }
            }
        }
        self.saw("keys for scripts", presses.len() as u64);
        match quit {
            Some(q) => {
                self.saw("ended by the user", 1);
                if h.ended.is_none() && q + self.slack < h.end { self.bad("no end", &["C04", "C05"], format!("Ctrl-C at {} did not end the program", self.at(q))); return }
                // what follows Ctrl-C
                for l in &self.t.log { match &l.2 { Done::Raw(b) => raw = *b, Done::Out(s) => { if s.contains("\x1b[?25l") { hidden = true } if s.contains("\x1b[?25h") { hidden = false } } _ => () } }
                if h.ended.is_some() && (raw || hidden) { self.bad("terminal left behind", &["C04", "C05"], format!("the program ended with the terminal in {}", if raw { "raw mode" } else { "a state without cursor" })); return }
            }
            None => if h.ended.is_some() { self.bad("ended", &["C04", "C05"], "the program ended by itself".into()); return },
        }
        let until = quit.unwrap_or(end).min(stops.first().map(|x| x.0).unwrap_or(u64::MAX)).min(end);
        self.quiet_scripts(&["C04", "C05"], until);
        let _ = FINAL;
    }
}
fn stops(o: &Op) -> bool { match o { Op::Throw | Op::Same | Op::Pause | Op::Ask(_) => true, Op::Rep(_, x) | Op::Forever(x) => x.iter().any(stops), _ => false } }
fn asks_slowly(o: &[Op]) -> bool { o.iter().any(|o| match o { Op::Ask(t) => *t >= 6, Op::Rep(_, x) | Op::Forever(x) => asks_slowly(x), _ => false }) }
