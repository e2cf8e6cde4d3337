//! Judges the recorded history of one run.
use std::collections::{BTreeMap, BTreeSet};
use serde_json::{Value as J, json};
use simcore::{Report, net::Frame};
use crate::case::*;
use crate::vm::{fixed_target, from_json, tag_of};
use crate::world::*;

#[derive(Clone, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub struct Viol { pub kind: String, pub props: Vec<String>, pub detail: String }
pub struct Judge<'a> { sh: &'a Sh, st: &'a St, rep: &'a Report, pub out: Vec<Viol>, slow: u64, pub seen: BTreeMap<&'static str, u64>, multi: bool }

/// All numbers as floating point, so that 1 and 1.0 are the same value.
pub fn norm(j: &J) -> J { match j { J::Number(n) => json!(n.as_f64().unwrap_or(0.0)), J::Array(x) => J::Array(x.iter().map(norm).collect()), J::Object(o) => J::Object(o.iter().map(|(k, v)| (k.clone(), norm(v))).collect()), x => x.clone() } }
fn cut(s: impl ToString) -> String { let s = s.to_string(); if s.chars().count() > 700 { s.chars().take(700).collect::<String>() + "…" } else { s } }
fn ms(t: u64) -> String { format!("{:.3}ms", t as f64 / 1e6) }

/// What a text frame from the server is, by the protocol.
enum In { Nothing, Ping, Message(Msg), Reply(String, J) }
fn read(text: &str) -> In {
    let Ok(J::Object(m)) = serde_json::from_str::<J>(text) else { return In::Nothing };
    match m.get("type").and_then(|x| x.as_str()) {
        Some("ping") => In::Ping,
        Some("message") => {
            let (Some(J::String(ty)), Some(J::Object(content))) = (m.get("msgType"), m.get("content")) else { return In::Nothing };
            if ty == "__reply__" {
                return match (content.get("body"), m.get("requestId")) { (Some(b), Some(J::String(id))) => In::Reply(id.clone(), b.clone()), _ => In::Nothing };
            }
            let key = match m.get("requestId") { None => None, Some(J::String(id)) => match m.get("srcId") { Some(J::String(s)) => Some((s.clone(), id.clone())), _ => return In::Nothing }, Some(_) => return In::Nothing };
            In::Message((ty.clone(), content.iter().filter_map(|(k, v)| Some((k.clone(), from_json(v)?))).collect(), key))
        }
        _ => In::Nothing,
    }
}
fn sorted(m: &Msg) -> Msg { let mut m = m.clone(); m.1.sort_by(|a, b| a.0.cmp(&b.0)); m.1.iter_mut().for_each(|x| x.1 = norm(&x.1)); m }

impl<'a> Judge<'a> {
    pub fn new(sh: &'a Sh, st: &'a St, rep: &'a Report) -> Self {
        let slow = if rep.stalls > 0 { 1_500 * MS } else { 0 };
        Judge { sh, st, rep, out: vec![], slow, seen: Default::default(), multi: sh.c.net.relay }
    }
    fn bad(&mut self, kind: &str, props: &[&str], detail: String) { let mut p: Vec<String> = props.iter().map(|x| x.to_string()).collect(); if self.multi { p.push("N09".into()) } if self.out.len() < 40 { self.out.push(Viol { kind: kind.into(), props: p, detail: cut(detail) }) } }
    fn see(&mut self, k: &'static str, n: usize) { if n > 0 { *self.seen.entry(k).or_insert(0) += n as u64 } }
    pub fn judge(mut self) -> (Vec<Viol>, BTreeMap<&'static str, u64>) {
        let all = ["N01", "N02", "N03", "N04", "N05", "N06", "N07", "N08"];
        // a connection that cannot be made ends the thread that tried: the one panic that is a report, not a crash
        let mut excused = self.sh.c.net.create.iter().any(|x| x.0 == 1);
        for (n, g, m) in &self.rep.panics {
            let i = self.st.insts.iter().find(|i| i.group == *g);
            if n == "thread" && excused && i.map(|i| i.vm == 0 && i.inc == 0 && i.conns.is_empty()).unwrap_or(false) { excused = false; continue }
            let vm = i.map(|i| format!("vm {}.{}", i.vm, i.inc)).unwrap_or_default();
            self.bad("panic", &all, format!("{n} of {vm} panicked: {m}"))
        }
        match self.sh.c.kind {
            Kind::Clock => self.clock(),
            Kind::Async => self.keys(),
            _ => {
                if !self.rep.deadlock.is_empty() { self.bad("deadlock", &all, self.rep.deadlock.join(", ")) }
                for i in 0..self.st.insts.len() { self.inst(i) }
                self.ids();
            }
        }
        if self.sh.c.kind == Kind::Async && !self.rep.deadlock.is_empty() { self.bad("deadlock", &["N07"], self.rep.deadlock.join(", ")) }
        (self.out, self.seen)
    }
    /// Lower bound for cached clock readings made from `t` on.
    fn low(&self, i: &Inst, t: u64) -> u64 { if self.sh.c.vms[i.vm].cache == 0 { return t } i.upd.iter().filter(|u| u.1 <= t).map(|u| u.0).max().unwrap_or(i.t_start) }
    fn slack(&self, i: &Inst) -> u64 { let v = &self.sh.c.vms[i.vm]; (100 + 8 * v.tick_ms) * MS + v.loop_us * 1000 * (8 + 6 * i.procs as u64) + self.slow }
    fn until(&self, i: &Inst) -> u64 { i.killed.unwrap_or(u64::MAX).min(i.ended.unwrap_or(u64::MAX)).min(self.st.end) }
    fn faulty(&self, i: &Inst) -> bool { i.vm == 0 && i.inc == 0 && !self.sh.c.net.create.is_empty() }
    fn inst(&mut self, k: usize) {
        let st = self.st;
        let i = &st.insts[k];
        let who = format!("vm {}.{}", i.vm, i.inc);
        let all = ["N01", "N02", "N03", "N04", "N05", "N06", "N07", "N08"];
        // creation
        match (&i.created, &i.failed) {
            (None, Some(m)) => { self.see("creation failed and said so", 1); if !self.faulty(i) { self.bad("creation failed", &all, format!("{who}: the server was fine, yet creation failed: {m}")) } return }
            (None, None) => { if i.killed.is_none() && st.end.saturating_sub(i.t_start) > 8_000 * MS + self.slow { self.bad("creation hangs", &["N05", "N08"], format!("{who} is not created {} after it began", ms(st.end - i.t_start))) } if i.killed.is_none() && i.ended.is_none() { return } return }
            _ => (),
        }
        if i.killed.is_some() { self.see("vm crashed", 1) }
        // shutdown and steps
        if i.killed.is_none() {
            if i.ended.is_none() { self.bad("stuck", &["N05"], format!("{who} did not come to its end: a step or the shutdown is blocked")) }
            if let Some(l) = &i.stuck { if !l.is_empty() { self.bad("threads left", &["N05"], format!("{who}: 5 s after the system was dropped these still run: {}", l.join(", "))) } else { self.see("clean shutdown", 1) } }
        }
        if i.worst_step.0 > 500 * MS + 4 * self.slow { self.bad("slow step", &["N05", "N04"], format!("{who}: one step took {} at {}", ms(i.worst_step.0), ms(i.worst_step.1))) }
        for d in &i.d {
            let (what, t0, t1) = match d { D::Send { t0, t1, .. } => ("sending a message", t0, t1), D::Reply { t0, t1, .. } => ("answering a message", t0, t1), D::Inject { t0, t1, .. } => ("injecting a message", t0, t1), D::Recv { t0, t1, .. } => ("looking for a message", t0, t1), D::Poll { t0, t1, .. } => ("looking for a reply", t0, t1), D::Forget { .. } => continue };
            if t1 - t0 > 200 * MS + 2 * self.slow { self.bad("slow step", &["N05"], format!("{who}: {what} took {} at {}", ms(t1 - t0), ms(*t1))); break }
        }
        let spins = self.sh.c.vms[i.vm].scripts.iter().any(|s| s.spin);
        if spins && self.sh.c.kind != Kind::Direct {
            let end = self.until(i);
            let lim = self.slack(i) + 300 * MS;
            if i.worst_beat.0 > lim { self.bad("stalled", &["N05", "N04"], format!("{who}: a busy script did not run for {} until {}", ms(i.worst_beat.0), ms(i.worst_beat.1))) }
            else if i.created.map(|c| c + lim < end).unwrap_or(false) && i.last_beat + lim < end { self.bad("stalled", &["N05", "N04"], format!("{who}: a busy script stopped running at {}", ms(i.last_beat))) }
            self.see("heartbeats", i.beats as usize);
        }
        for e in &i.errs { self.bad("script error", &["N05", "N03", "N04"], format!("{who}: a script died: {e}")) }
        self.identity(k, &who);
        self.outgoing(k, &who);
        self.incoming(k, &who);
        if self.sh.c.kind == Kind::Direct { self.waits_direct(k, &who) } else { self.waits_project(k, &who); self.rpcs(k, &who); self.laters(k, &who); self.misc(k, &who) }
    }
    // ------------------------------------------------------------ N08
    fn identity(&mut self, k: usize, who: &str) {
        let (st, sh) = (self.st, self.sh);
        let i = &st.insts[k];
        let hs: Vec<&HRec> = st.https.iter().filter(|h| h.inst == k).collect();
        let id = i.id.clone();
        let Some(client) = id.strip_prefix(&format!("{}@", i.name)).and_then(|x| x.strip_suffix("#vm")).map(|x| x.to_string()) else { return self.bad("identity", &["N08"], format!("{who}: public id {id:?} is not made of the project name {:?} and a client id", i.name)) };
        if client.is_empty() || client.contains(['@', '#', '/', '?']) { self.bad("identity", &["N08"], format!("{who}: client id {client:?}")) }
        let mut made = 0; let mut stated = 0; let mut conf = 0;
        for h in &hs {
            let rel = h.url.strip_prefix(&sh.base).unwrap_or("");
            if h.method == "GET" && rel == "/configuration" { conf += 1; continue }
            if h.method == "POST" && rel == "/projects/" { made += 1; if norm(&h.body) != json!({ "clientId": client, "name": i.name }) { self.bad("identity", &["N08"], format!("{who}: project requested with {} for client {client} and name {:?}", h.body, i.name)) } continue }
            if rel.starts_with("/network/") { stated += 1; if rel != format!("/network/{client}/state") || norm(&h.body) != json!({ "state": { "external": { "address": i.name, "appId": "vm" } } }) { self.bad("identity", &["N08"], format!("{who}: state announced at {rel} as {} for client {client} and name {:?}", h.body, i.name)) } continue }
            let q = h.url.split_once('?').map(|x| x.1).unwrap_or("");
            let cid: Vec<&str> = q.split('&').filter_map(|x| x.strip_prefix("clientId=")).collect();
            if cid != [client.as_str()] { self.bad("identity", &["N08", "N04"], format!("{who}: {} carries client id {cid:?}, the client is {client}", h.url)) }
        }
        if (conf, made, stated) != (1, 1, 1) { self.bad("identity", &["N08"], format!("{who}: {conf} configuration requests, {made} projects, {stated} state announcements")) }
        if i.conns.len() > 1 { self.bad("identity", &["N08", "N02"], format!("{who}: {} connections opened", i.conns.len())) }
        for c in &i.conns {
            let c = &st.conns[*c];
            if c.url != format!("{}/network/{client}/connect", sh.ws) { self.bad("identity", &["N08"], format!("{who}: connection opened at {} for client {client}", c.url)) }
            self.see("identities announced", 1);
        }
        if i.conns.is_empty() && !self.faulty(i) { self.bad("identity", &["N08"], format!("{who}: no connection was opened")) }
        let opened = i.conns.first().map(|c| st.conns[*c].opened);
        if let (Some(o), Some(p)) = (opened, hs.iter().find(|h| h.method == "POST" && h.url.ends_with("/projects/"))) { if p.t < o { self.bad("identity", &["N08"], format!("{who}: the project was requested before the connection existed")) } }
    }
    fn ids(&mut self) {
        let mut m: BTreeMap<&str, usize> = Default::default();
        for (k, i) in self.st.insts.iter().enumerate() { if !i.id.is_empty() { if let Some(o) = m.insert(&i.id, k) { let _ = o; self.out.retain(|v| v.kind == "panic"); return } } }
    }
    // ------------------------------------------------------------ N02
    fn outgoing(&mut self, k: usize, who: &str) {
        let st = self.st;
        let i = &st.insts[k];
        let Some(&c) = i.conns.first() else { return };
        let r = &st.conns[c];
        let client = r.client.clone();
        let mut frames: Vec<(u64, J)> = vec![];
        let mut pongs = vec![];
        for (n, (t, f, _)) in r.out.iter().enumerate() {
            let j = match f { Frame::Text(s) => match serde_json::from_str::<J>(s) { Ok(j) => norm(&j), Err(_) => { self.bad("outgoing", &["N02"], format!("{who} sent something that is not JSON: {s}")); continue } }, Frame::Close | Frame::Pong(_) => continue, f => { self.bad("outgoing", &["N02"], format!("{who} sent {f:?}")); continue } };
            if n == 0 || j["type"] == "set-uuid" { if n != 0 || j != json!({ "type": "set-uuid", "clientId": client }) { self.bad("identity", &["N02", "N08"], format!("{who}: frame {n} on the connection of {client} is {j}")) } continue }
            if j == json!({ "type": "pong" }) { pongs.push(*t) } else { frames.push((*t, j)) }
        }
        // pings
        let hd = r.conn.0.borrow();
        let pings: Vec<(u64, u64)> = r.inn.iter().enumerate().filter(|(_, x)| x.1.as_deref().map(|s| matches!(read(s), In::Ping)).unwrap_or(false)).filter_map(|(n, _)| Some((*hd.handed.get(n)?, hd.done.get(n).copied().unwrap_or(u64::MAX)))).collect();
        let quiet = self.until(i).min(r.dead.map(|d| d.0).unwrap_or(u64::MAX)).min(r.stalls.iter().map(|s| s.0).min().unwrap_or(u64::MAX));
        let slack = self.slack(i);
        let due = pings.iter().filter(|p| p.1 != u64::MAX && p.1 + slack < quiet).count();
        if pongs.len() > pings.len() || pongs.len() < due { self.bad("pong", &["N02"], format!("{who}: {} pings arrived ({due} of them long ago), {} pongs were sent", pings.len(), pongs.len())) }
        for (n, t) in pongs.iter().enumerate() { if pings.get(n).map(|p| p.0 > *t).unwrap_or(true) { self.bad("pong", &["N02"], format!("{who}: pong {n} at {} answers no ping", ms(*t))); break } }
        self.see("pings answered", pongs.len());
        drop(hd);
        let resolve = |t: &str| if t == "everyone in room" { i.id.clone() } else { t.to_string() };
        let msg = |ty: &str, vals: J, tgts: &[String], id: Option<&str>| { let mut m = json!({ "type": "message", "dstId": tgts.iter().map(|t| resolve(t)).collect::<Vec<_>>(), "srcId": i.id, "msgType": ty, "content": norm(&vals) }); if let Some(id) = id { m["requestId"] = json!(id) } m };
        if self.sh.c.kind == Kind::Direct {
            let mut want: Vec<(u64, J)> = vec![];
            for d in &i.d {
                match d {
                    D::Send { t0, t1, ty, vals, tgts, id, err, .. } => { if *err { self.bad("outgoing", &["N02", "N05"], format!("{who}: sending failed at {}", ms(*t0))); continue } want.push((*t1, msg(ty, J::Object(vals.iter().cloned().collect()), tgts, id.as_deref()))) }
                    D::Reply { t1, src, id, val, .. } => want.push((*t1, norm(&json!({ "type": "message", "dstId": src, "msgType": "__reply__", "requestId": id, "content": { "body": val } })))),
                    _ => (),
                }
            }
            for (n, (t, f)) in frames.iter().enumerate() {
                match want.get(n) { Some((_, w)) if w == f => (), w => { self.bad("outgoing", &["N02"], format!("{who}: message {n} on the connection (at {}) is {f}, the program sent {}", ms(*t), w.map(|w| w.1.to_string()).unwrap_or("nothing more".into()))); return } }
            }
            if let Some((t, w)) = want.get(frames.len()) { if t + slack < quiet { self.bad("outgoing", &["N02"], format!("{who}: {w}, sent at {}, never reached the connection", ms(*t))) } }
            self.see("messages sent", frames.len());
            return;
        }
        // projects: every message by its mark, each script's in order
        let mut per: BTreeMap<String, (usize, u64)> = Default::default();
        let prog = sends(&self.sh.c, i.vm, i.inc);
        let mut starts: BTreeMap<String, (u64, Vec<String>)> = Default::default();
        let mut sent_ok: BTreeMap<String, u64> = Default::default();
        let mut replied: BTreeMap<u64, Vec<(u64, &J)>> = Default::default();
        for (t, l) in &i.logs { match l[0].as_str() { Some("s0" | "w0") => { starts.insert(l[1].as_str().unwrap_or("").into(), (*t, l[2].as_array().map(|x| x.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect()).unwrap_or_default())); } Some("s1" | "w1") => { sent_ok.insert(l[1].as_str().unwrap_or("").into(), *t); } _ => () } }
        let mut order: BTreeMap<usize, usize> = Default::default();
        for (t, f) in &frames {
            if f["msgType"] == "__reply__" { replied.entry(f["content"]["body"][2].as_f64().unwrap_or(-1.0) as u64).or_default().push((*t, f)); self.see("replies sent", 1); continue }
            let tag = f["content"]["n"].as_str().unwrap_or("").to_string();
            let Some((pos, ty, vals, wait)) = prog.iter().position(|p| p.0 == tag).map(|p| (p, &prog[p].1, &prog[p].2, prog[p].3)) else { self.bad("outgoing", &["N02"], format!("{who}: {f} was sent by no script")); continue };
            let e = per.entry(tag.clone()).or_insert((0, *t)); e.0 += 1;
            if e.0 > 1 { self.bad("outgoing", &["N02"], format!("{who}: {tag} was sent more than once")); continue }
            let Some((t0, tg)) = starts.get(&tag) else { self.bad("outgoing", &["N02"], format!("{who}: {tag} was sent before its script reached it")); continue };
            if t < t0 { self.bad("outgoing", &["N02"], format!("{who}: {tag} was sent before its script reached it")) }
            let rid = f["requestId"].as_str();
            if wait != rid.is_some() { self.bad("outgoing", &["N02", "N03"], format!("{who}: {f} for a {} send", if wait { "blocking" } else { "plain" })) }
            let w = msg(ty, vals.clone(), tg, rid);
            if norm(&w) != *f { self.bad("outgoing", &["N02"], format!("{who}: {f} was sent where the script says {w}")) }
            let o = order.entry(prog[pos].4).or_insert(0);
            if *o > pos { self.bad("outgoing", &["N02"], format!("{who}: {tag} was sent after a later message of its script")) } else { *o = pos }
        }
        // replies: the first reply of every handler run whose message asks for one, in the order of the runs
        let got: Vec<Msg> = self.taken(k).into_iter().filter_map(|x| match x.2 { In::Message(m) => Some(m), _ => None }).collect();
        let scripts = &self.sh.c.vms[i.vm].scripts;
        for h in replied.keys() { if !matches!(scripts.get(*h as usize).map(|s| &s.hat), Some(PHat::Msg(_))) { self.bad("outgoing", &["N02"], format!("{who}: {} is a reply no handler sent", replied[h][0].1)) } }
        for (h, sc) in self.sh.c.vms[i.vm].scripts.iter().enumerate() {
            let PHat::Msg(ty) = &sc.hat else { continue };
            let ty = format!("m{ty}");
            let mut mine = got.iter().filter(|m| m.0 == ty);
            let mut want: Vec<(u64, Option<u64>, J)> = vec![];
            let mut open = None;
            for (t, l) in &i.logs {
                if l.get(1).and_then(|x| x.as_f64()) != Some(h as f64) { continue }
                match l[0].as_str() {
                    Some("h0") => { open = None; if let (Some(m), true) = (mine.next(), sc.reply > 0) { if let Some((src, rid)) = &m.2 { open = Some(want.len()); want.push((*t, None, json!({ "type": "message", "dstId": src, "msgType": "__reply__", "requestId": rid, "content": { "body": ["rep", i.vm as f64, h as f64, norm(&l[2]), 0.0] } }))) } } }
                    Some("h1") => if let Some(o) = open.take() { want[o].1 = Some(*t) },
                    _ => (),
                }
            }
            let none = vec![];
            let have = replied.get(&(h as u64)).unwrap_or(&none);
            for (n, (t, f)) in have.iter().enumerate() { match want.get(n) { Some((t0, _, w)) if *t >= *t0 && norm(w) == **f => (), w => { self.bad("reply", &["N02"], format!("{who}: reply {n} of handler {h}, at {}, is {f}, due is {:?}", ms(*t), w.map(|w| w.2.to_string()))); break } } }
            if let Some((_, Some(t1), w)) = want.get(have.len()) { if t1 + slack < quiet { self.bad("reply", &["N02"], format!("{who}: {w}, sent by {}, never reached the connection", ms(*t1))) } }
        }
        for (tag, t) in &sent_ok { if !per.contains_key(tag) && t + slack < quiet && !prog.iter().any(|p| p.0 == *tag && p.3) { self.bad("outgoing", &["N02"], format!("{who}: {tag}, sent by {}, never reached the connection", ms(*t))) } }
        self.see("messages sent", per.len());
    }
    // ------------------------------------------------------------ N01
    /// Frames the program took off its connection: (handed over, finished with, content).
    fn taken(&self, k: usize) -> Vec<(u64, u64, In)> {
        let Some(&c) = self.st.insts[k].conns.first() else { return vec![] };
        let r = &self.st.conns[c];
        let h = r.conn.0.borrow();
        r.inn.iter().enumerate().take_while(|(n, _)| *n < h.handed.len()).map(|(n, x)| (h.handed[n], h.done.get(n).copied().unwrap_or(u64::MAX), x.1.as_deref().map(read).unwrap_or(In::Nothing))).collect()
    }
    fn incoming(&mut self, k: usize, who: &str) {
        let st = self.st;
        let i = &st.insts[k];
        let Some(&c) = i.conns.first() else { return };
        let r = &st.conns[c];
        let taken = self.taken(k);
        let slack = self.slack(i);
        if let Some(x) = r.inn.get(taken.len()) { if x.0 + slack < self.until(i).min(r.dead.map(|d| d.0).unwrap_or(u64::MAX)) { self.bad("not read", &["N01", "N03"], format!("{who}: a frame that arrived at {} was never taken off the connection: {:?}", ms(x.0), x.1)) } }
        let want: Vec<(u64, u64, Msg)> = taken.iter().filter_map(|(a, b, x)| match x { In::Message(m) => Some((*a, *b, sorted(m))), _ => None }).collect();
        self.see("messages received", want.len());
        self.see("frames received", taken.len());
        if self.sh.c.kind == Kind::Direct {
            let inj: Vec<(u64, u64, Msg)> = i.d.iter().filter_map(|d| match d { D::Inject { t0, t1, ty, vals } => Some((*t0, *t1, sorted(&(ty.clone(), vals.iter().filter_map(|(k, v)| Some((k.clone(), from_json(v)?))).collect(), None)))), _ => None }).collect();
            self.see("messages injected", inj.len());
            let (mut a, mut b) = (0, 0);
            for d in &i.d {
                let D::Recv { t0, t1, m } = d else { continue };
                match m {
                    Some(m) => {
                        let m = sorted(m);
                        let fits = |x: Option<&(u64, u64, Msg)>| x.map(|x| x.2 == m && x.0 <= *t1).unwrap_or(false);
                        // injected messages are told apart by their type names
                        if fits(want.get(a)) { a += 1 } else if fits(inj.get(b)) { b += 1 } else { return self.bad("received", &["N01"], format!("{who}: at {} the program received {m:?}; next from the server is {:?}, next injected is {:?}", ms(*t1), want.get(a), inj.get(b))) }
                    }
                    None => for (x, n, q) in [("sent by the server", a, &want), ("injected", b, &inj)] { if let Some(x2) = q.get(n) { if x2.1 <= *t0 { return self.bad("received", &["N01"], format!("{who}: at {} nothing was received although {:?} was {x} before", ms(*t0), x2)) } } },
                }
            }
            return;
        }
        // projects: each handler runs once per message of its type, in order
        let handlers: Vec<(usize, String)> = self.sh.c.vms[i.vm].scripts.iter().enumerate().filter_map(|(n, s)| match s.hat { PHat::Msg(t) => Some((n, format!("m{t}"))), _ => None }).collect();
        for (h, ty) in handlers {
            let mine: Vec<&(u64, u64, Msg)> = want.iter().filter(|x| x.2.0 == ty).collect();
            let mut n = 0;
            let mut last_end = i.created.unwrap_or(0);
            let mut running = false;
            for (t, l) in &i.logs {
                if l.get(1).and_then(|x| x.as_f64()) != Some(h as f64) { continue }
                match l[0].as_str() {
                    Some("h0") => {
                        let f = |k: &str, m: &Msg| norm(&m.1.iter().find(|x| x.0 == k).map(|x| x.1.clone()).unwrap_or(json!(0.0)));
                        match mine.get(n) {
                            Some(m) if m.0 <= *t && [("n", 2), ("x", 3), ("k", 4)].iter().all(|(k, p)| f(k, &m.2) == norm(&l[*p])) => (),
                            m => return self.bad("handled", &["N01"], format!("{who}: run {n} of handler {h} ({ty}) at {} got {:?}, the messages give {:?}", ms(*t), &l[2..], m)),
                        }
                        n += 1;
                        running = true;
                    }
                    Some("h1") => { running = false; last_end = *t }
                    _ => (),
                }
            }
            if !running { if let Some(m) = mine.get(n) { let ready = m.1.max(last_end); if m.1 != u64::MAX && ready + slack + 64 * self.sh.c.vms[i.vm].loop_us * 1000 < self.until(i) && i.created.is_some() { self.bad("handled", &["N01"], format!("{who}: message {n} of {ty}, read by {}, never ran handler {h}: {:?}", ms(m.1), m.2)) } } }
            self.see("handler runs", n);
        }
    }
    // ------------------------------------------------------------ N03
    fn waits_direct(&mut self, k: usize, who: &str) {
        let st = self.st;
        let i = &st.insts[k];
        let taken = self.taken(k);
        let to = 1_500 * MS;
        let cache = self.sh.c.vms[i.vm].cache;
        for d in &i.d {
            let D::Send { n, t0, t1, id: Some(id), .. } = d else { continue };
            let lo = to + if cache >= 2 { self.low(i, *t0) } else { *t0 };
            let hi = to + t1;
            let first = taken.iter().find_map(|(a, b, x)| match x { In::Reply(r, v) if r == id => Some((*a, *b, norm(v))), _ => None });
            let forgot = i.d.iter().any(|d| matches!(d, D::Forget { n: m } if m == n));
            let mut ended = None;
            let mut last = *t1;
            for d in &i.d {
                let D::Poll { n: m, t0: p0, t1: p1, r } = d else { continue };
                if m != n { continue }
                last = *p0;
                match r {
                    None => {
                        if let Some(f) = &first { if f.1 <= *p0 { self.bad("wait", &["N03"], format!("{who}: the reply to wait {n} ({}) was in at {}, a poll at {} still reports it pending", f.2, ms(f.1), ms(*p0))); return } }
                        let low = if cache >= 1 { self.low(i, *p0) } else { *p0 };
                        if low > hi { self.bad("wait", &["N03", "N05"], format!("{who}: wait {n} begun by {} is still pending at {}", ms(*t1), ms(*p0))); return }
                    }
                    Some(None) => {
                        ended = Some(*p1);
                        if let Some(f) = &first { if f.1 <= *p0 && f.1 <= lo { self.bad("wait", &["N03"], format!("{who}: wait {n} gave up at {} although its reply {} was in at {}", ms(*p1), f.2, ms(f.1))); return } }
                        if *p1 <= lo { self.bad("wait", &["N03"], format!("{who}: wait {n} begun at {} gave up at {}, before its time", ms(*t0), ms(*p1))); return }
                        self.see("waits that gave up", 1);
                    }
                    Some(Some(v)) => {
                        ended = Some(*p1);
                        match &first { Some(f) if f.0 <= *p1 && f.2 == norm(v) => (), f => { self.bad("wait", &["N03"], format!("{who}: wait {n} got {v} at {}, its first reply is {f:?}", ms(*p1))); return } }
                        self.see("waits answered", 1);
                    }
                }
            }
            let _ = (ended, last, forgot);
        }
    }
    fn waits_project(&mut self, k: usize, who: &str) {
        let st = self.st;
        let i = &st.insts[k];
        let taken = self.taken(k);
        let out = i.conns.first().map(|c| &st.conns[*c].out);
        let slack = self.slack(i);
        let to = 1_500 * MS;
        for (n0, (t0, l)) in i.logs.iter().enumerate() {
            if l[0] != "w0" { continue }
            let tag = l[1].as_str().unwrap_or("").to_string();
            let id = out.and_then(|o| o.iter().find_map(|(_, f, _)| match f { Frame::Text(s) => serde_json::from_str::<J>(s).ok().filter(|j| j["content"]["n"] == json!(tag) && j["msgType"] != "__reply__").and_then(|j| j["requestId"].as_str().map(|x| x.to_string())), _ => None }));
            let replies: Vec<(u64, u64, J)> = taken.iter().filter_map(|(a, b, x)| match x { In::Reply(r, v) if Some(r) == id.as_ref() => Some((*a, *b, v.clone())), _ => None }).collect();
            let lo = to + if self.sh.c.vms[i.vm].cache >= 2 { self.low(i, *t0) } else { *t0 };
            let end = i.logs[n0..].iter().find(|(_, l)| (l[0] == "w1" || l[0] == "!") && l[1] == json!(tag));
            match end {
                None => { if t0 + to + 2 * slack < self.until(i) { self.bad("wait", &["N03", "N05"], format!("{who}: {tag}, begun at {}, is still waiting at {}", ms(*t0), ms(self.until(i)))) } }
                Some((t, l)) if l[0] == "!" => match replies.first() { Some(f) if from_json(&f.2).is_none() => (), f => self.bad("wait", &["N03", "N05"], format!("{who}: {tag} failed with {} (its reply: {f:?})", l[2])) },
                Some((t, l)) if l[2] == json!("") && replies.first().map(|f| f.2 != json!("")).unwrap_or(true) => {
                    if *t <= lo { self.bad("wait", &["N03"], format!("{who}: {tag}, begun at {}, gave up at {}", ms(*t0), ms(*t))) }
                    if *t > t0 + to + 2 * slack { self.bad("wait", &["N03", "N05"], format!("{who}: {tag}, begun at {}, gave up only at {}", ms(*t0), ms(*t))) }
                    if let Some(f) = replies.first() { if f.1 != u64::MAX && f.1 + slack < (*t).min(lo) { self.bad("wait", &["N03"], format!("{who}: {tag} gave up at {} although its reply {} was in at {}", ms(*t), f.2, ms(f.1))) } }
                    self.see("waits that gave up", 1);
                }
                Some((t, l)) => match replies.first() {
                    Some(f) if f.0 <= *t && from_json(&f.2).map(|x| norm(&x)) == Some(norm(&l[2])) => {
                        self.see("waits answered", 1);
                        if f.1 != u64::MAX && *t > f.1.max(*t0) + 2 * slack { self.bad("wait", &["N03"], format!("{who}: the reply to {tag} was in at {}, the script went on only at {}", ms(f.1), ms(*t))) }
                        if self.multi && l[2][3] != json!(tag) { self.bad("wrong answer", &["N09"], format!("{who}: {tag} was answered by a handler run for another request: {}", l[2])) }
                    }
                    f => self.bad("wait", &["N03"], format!("{who}: {tag} got {}, its first reply is {f:?}", l[2])),
                },
            }
        }
    }
    // ------------------------------------------------------------ N04
    fn rpcs(&mut self, k: usize, who: &str) {
        let (st, c) = (self.st, &self.sh.c);
        let i = &st.insts[k];
        let slack = self.slack(i);
        let mut calls: BTreeMap<String, (POp, String)> = Default::default();
        for (si, s) in c.vms[i.vm].scripts.iter().enumerate() {
            for (oi, o) in s.ops.iter().enumerate() { if let POp::Rpc { .. } = o { calls.insert(tag_of(i.vm, i.inc, si, oi), (o.clone(), format!("{oi}"))); } }
            if let (PHat::Msg(_), Some(p)) = (&s.hat, s.rpc) { calls.insert(tag_of(i.vm, i.inc, si, 99), (POp::Rpc { plan: p, host: false, bad: false, x: json!(1) }, "*".into())); }
        }
        let mut reqs: BTreeMap<(String, String), Vec<&HRec>> = Default::default();
        for h in st.https.iter().filter(|h| h.inst == k) {
            let rel = h.url.strip_prefix(&self.sh.base).unwrap_or("");
            if rel == "/configuration" || rel == "/projects/" || rel.starts_with("/network/") { continue }
            let tag = h.body["tag"].as_str().unwrap_or("").to_string();
            let Some((POp::Rpc { plan, host, bad, x }, _)) = calls.get(&tag) else { self.bad("call", &["N04"], format!("{who}: {} {} with {} was made by no script", h.method, h.url, h.body)); continue };
            let base = if *host { "http://other.sim" } else { &c.net.svc };
            let ok = h.method == "POST" && h.json && h.url.starts_with(&format!("{base}/Svc{}/call{plan}?", plan % 3)) && !bad && norm(&h.body) == norm(&json!({ "tag": tag, "n": h.body["n"], "x": x }));
            if !ok { self.bad("call", &["N04"], format!("{who}: {tag} made the request {} {} with {}", h.method, h.url, h.body)) }
            let t = h.url.split(['?', '&']).find_map(|x| x.strip_prefix("t=")).and_then(|x| x.parse::<u64>().ok());
            if t.map(|t| t > h.t / MS || t + 1_000 + slack / MS < h.t / MS).unwrap_or(true) { self.bad("call", &["N04"], format!("{who}: {} was made at {}", h.url, ms(h.t))) }
            reqs.entry((tag, norm(&h.body["n"]).to_string())).or_default().push(h);
        }
        let mut begun: BTreeMap<(String, String), Vec<u64>> = Default::default();
        let mut ended: BTreeMap<(String, String), usize> = Default::default();
        for (t, l) in &i.logs {
            let Some(w) = l[0].as_str() else { continue };
            if !matches!(w, "c0" | "c1" | "c2") { continue }
            let key = (l[1].as_str().unwrap_or("").to_string(), norm(&l[2]).to_string());
            if w == "c0" { begun.entry(key).or_default().push(*t); continue }
            let Some((POp::Rpc { plan, bad, .. }, _)) = calls.get(&key.0) else { continue };
            let n = ended.entry(key.clone()).or_insert(0);
            let h = reqs.get(&key).and_then(|v| v.get(*n)).copied();
            *n += 1;
            let failed = w == "c2" || (i.soft && l[4] != json!("") );
            let text = if w == "c2" { l[3].as_str().unwrap_or("").to_string() } else { l[3].as_str().unwrap_or("").to_string() };
            if i.soft && failed && w == "c1" && l[3] != l[4] { self.bad("result", &["N04"], format!("{who}: {} returned {} and reports the error {}", key.0, l[3], l[4])) }
            if *bad { if !failed || h.is_some() { self.bad("result", &["N04"], format!("{who}: {} has arguments that cannot be sent, got {} ({})", key.0, l[3], if h.is_some() { "a request was made" } else { "no request was made" })) } else { self.see("calls that cannot be sent", 1) } continue }
            let Some(h) = h else { self.bad("result", &["N04"], format!("{who}: {} got {} without a request", key.0, l[3])); continue };
            let want = expect(&c.rpcs[*plan as usize].out);
            let Some(ta) = h.answered else { self.bad("result", &["N04"], format!("{who}: {} got {} before any answer", key.0, l[3])); continue };
            match &want {
                Ok(v) if !failed && w == "c1" && norm(v) == norm(&l[3]) => self.see("calls answered", 1),
                Err(e) if failed && (text.contains(e.as_str()) || text.contains(&format!("{e:?}"))) || i.soft && w == "c1" && e.is_empty() && l[3] == json!("") => self.see("calls failed", 1),
                _ => self.bad("result", &["N04"], format!("{who}: {} for plan {:?} got {} {}", key.0, c.rpcs[*plan as usize].out, if failed { "the error" } else { "the value" }, l[3])),
            }
            if *t < ta { self.bad("result", &["N04"], format!("{who}: {} got its result at {}, before the answer at {}", key.0, ms(*t), ms(ta))) }
            if *t > ta + 2 * slack + 100 * MS { self.bad("result", &["N04"], format!("{who}: {} was answered at {} but got its result only at {}", key.0, ms(ta), ms(*t))) }
        }
        for (key, ts) in &begun {
            let made = reqs.get(key).map(|v| v.len()).unwrap_or(0);
            let done = ended.get(key).copied().unwrap_or(0);
            let bad = matches!(calls.get(&key.0), Some((POp::Rpc { bad: true, .. }, _)));
            if made > ts.len() { self.bad("call", &["N04"], format!("{who}: {} was called {} times but made {made} requests", key.0, ts.len())) }
            if let Some(t) = ts.get(if bad { done } else { made }) { if t + slack + 300 * MS < self.until(i) { self.bad("call", &["N04"], format!("{who}: {} called at {} made no request", key.0, ms(*t))) } }
            if let Some(h) = reqs.get(key).and_then(|v| v.get(done)) { if let Some(ta) = h.answered { if ta + 2 * slack + 200 * MS < self.until(i) { self.bad("result", &["N04"], format!("{who}: {} was answered at {} but never got its result", key.0, ms(ta))) } } }
        }
        for key in reqs.keys() { if !begun.contains_key(key) { self.bad("call", &["N04"], format!("{who}: {} n {} was requested before it was called", key.0, key.1)) } }
    }
    // ------------------------------------------------------------ N07 in projects
    fn laters(&mut self, k: usize, who: &str) {
        let st = self.st;
        let i = &st.insts[k];
        let slack = self.slack(i);
        for (list, w0, w1, w2) in [(&i.laters, "l0", "l1", "l2"), (&i.prints, "p0", "p1", "p2")] {
            let mut n: BTreeSet<&str> = Default::default();
            for l in list { if !n.insert(&l.tag) { self.bad("asked twice", &["N07"], format!("{who}: {} reached the host twice", l.tag)) } }
            for (t0, l) in i.logs.iter().filter(|l| l.1[0] == w0) { if !list.iter().any(|x| Some(x.tag.as_str()) == l[1].as_str()) && t0 + slack < self.until(i) { self.bad("never asked", &["N07"], format!("{who}: {} never reached the host", l[1])) } }
            for x in list {
                let p = &self.sh.c.laters[x.plan % self.sh.c.laters.len()];
                let got: Vec<&(u64, Vec<J>)> = i.logs.iter().filter(|l| (l.1[0] == w1 || l.1[0] == w2) && l.1[1] == json!(x.tag)).collect();
                if got.len() > 1 { self.bad("delivered twice", &["N07"], format!("{who}: {} went on {} times", x.tag, got.len())) }
                match (got.first(), x.t0) {
                    (Some((t, l)), t0) => {
                        if t0.map(|t0| *t < t0).unwrap_or(true) { self.bad("early result", &["N07"], format!("{who}: {} went on at {}, before the host completed it", x.tag, ms(*t))); continue }
                        let e = format!("no {}", x.tag);
                        let good = match (w0, p.how, i.soft) {
                            ("l0", 1, true) => l[0] == w1 && l[2] == json!(e) && l[3] == json!(e),
                            ("l0", 1, false) | ("p0", 1, _) => l[0] == w2 && l[2].as_str().map(|s| s.contains(&e)).unwrap_or(false),
                            ("l0", _, _) => l[0] == w1 && l[2] == json!(format!("done {}", x.tag)) && l[3] == json!(""),
                            _ => l[0] == w1,
                        };
                        if !good { self.bad("wrong result", &["N07"], format!("{who}: {} (completed with {}) got {:?}", x.tag, if p.how == 1 { "an error" } else { "success" }, l)) }
                        self.see("late results", 1);
                        if let Some(t1) = x.t1 { if *t > t1 + 2 * slack { self.bad("late", &["N07"], format!("{who}: {} was completed at {} but went on at {}", x.tag, ms(t1), ms(*t))) } }
                    }
                    (None, Some(_)) => if let Some(t1) = x.t1 { if t1 + 2 * slack < self.until(i) { self.bad("lost result", &["N07"], format!("{who}: {} was completed at {} and never went on", x.tag, ms(t1))) } },
                    _ => (),
                }
            }
        }
    }
    fn misc(&mut self, k: usize, who: &str) {
        let i = &self.st.insts[k];
        for (t, l) in &i.logs {
            match l[0].as_str() {
                Some("id") if l[2] != json!(i.id) => self.bad("identity", &["N08"], format!("{who} is {} but its script is told {}", i.id, l[2])),
                Some("bad") => self.bad("outgoing", &["N02"], format!("{who}: sending a sprite did not fail")),
                Some("!") if i.logs.iter().any(|x| (x.1[0] == "s0") && x.1[1] == l[1]) => self.bad("outgoing", &["N02", "N05"], format!("{who}: {} failed with {}", l[1], l[2])),
                Some("clk") => { let x = l[2].as_f64().unwrap_or(-1.0) * 1e6; let lo = self.low(i, i.logs.iter().rev().find(|y| y.0 < *t).map(|y| y.0).unwrap_or(i.t_start).saturating_sub(self.slack(i))); if x > *t as f64 || x + 2e6 < lo as f64 { self.bad("clock", &["N06"], format!("{who}: a script read {} at {}", l[2], ms(*t))) } }
                _ => (),
            }
        }
    }
    // ------------------------------------------------------------ N06
    fn clock(&mut self) {
        let (st, v) = (self.st, &self.sh.c.vms[0]);
        let all: Vec<&Reading> = st.reads.iter().collect();
        let fresh = |r: &Reading| v.cache == 0 || r.prec >= v.cache; // prec 0..2 read low, medium, high; cache 1..3; 3 is an update
        self.see("clock readings", all.len());
        for r in &all {
            let name = ["low", "medium", "high", "update"][r.prec as usize];
            if r.off != v.offset_min as i32 * 60 { return self.bad("clock", &["N06"], format!("a reading has the offset {} s", r.off)) }
            if r.ns > r.t1 as i128 { return self.bad("clock", &["N06"], format!("a {name} reading at {} lies in the future: {}", ms(r.t1), ms(r.ns as u64))) }
            if fresh(r) {
                if r.ns < r.t0 as i128 { return self.bad("clock", &["N06"], format!("a {name} reading begun at {} returned the older {}", ms(r.t0), ms(r.ns as u64))) }
            } else {
                self.see("cached readings", 1);
                let from = all.iter().any(|q| fresh(q) && q.ns == r.ns && q.t0 <= r.t1) || (st.new_clock.0 as i128 <= r.ns && r.ns <= st.new_clock.1 as i128);
                if !from { return self.bad("clock", &["N06"], format!("a cached {name} reading at {} returned {}, which no real reading returned", ms(r.t1), ms(r.ns as u64))) }
            }
            for q in &all { if q.t1 <= r.t0 && q.ns > r.ns { return self.bad("clock", &["N06"], format!("a {name} reading at {} returned {}, an earlier one had returned {}", ms(r.t0), ms(r.ns as u64), ms(q.ns as u64))) } }
        }
    }
    // ------------------------------------------------------------ N07
    fn keys(&mut self) {
        for (i, k) in self.st.keys.iter().enumerate() {
            let taken: Vec<_> = k.polls.iter().filter(|p| p.2 == 1).collect();
            if taken.len() > 1 { self.bad("delivered twice", &["N07"], format!("result {i} was handed out {} times", taken.len())) }
            for p in &k.polls {
                match (p.2, k.done) {
                    (0, Some(d)) if d.1 <= p.0 => self.bad("lost result", &["N07"], format!("result {i} was complete at {}, a poll at {} says it is not", ms(d.1), ms(p.0))),
                    (1 | 2, None) => self.bad("early result", &["N07"], format!("result {i} was never completed, a poll at {} says it is", ms(p.0))),
                    (1 | 2, Some(d)) if p.1 < d.0 => self.bad("early result", &["N07"], format!("result {i} was completed at {}, a poll at {} already says so", ms(d.0), ms(p.1))),
                    (1, _) if p.3 != 0xfeed_0000 + i as u64 => self.bad("wrong result", &["N07"], format!("result {i} is {:x}", p.3)),
                    (2, _) if taken.iter().all(|t| t.0 > p.1) => self.bad("lost result", &["N07"], format!("result {i} is reported as consumed at {} before anyone got it", ms(p.1))),
                    (1, _) => self.see("results delivered", 1),
                    (0, _) => self.see("pending polls", 1),
                    _ => (),
                }
            }
            if k.done.map(|d| k.polls.iter().any(|p| p.0 >= d.1)).unwrap_or(false) && taken.is_empty() { self.bad("lost result", &["N07"], format!("result {i} was completed and polled, nobody got it")) }
        }
    }
}
/// The messages a VM's start scripts send: mark, type, fields, blocking, script; in program order.
fn sends(c: &Case, vm: usize, inc: u32) -> Vec<(String, String, J, bool, usize)> {
    let mut v = vec![];
    for (si, s) in c.vms[vm].scripts.iter().enumerate() { for (oi, o) in s.ops.iter().enumerate() { if let POp::Send { ty, x, wait, extra, .. } = o { let tag = tag_of(vm, inc, si, oi); let mut m = json!({ "n": tag, "x": x }); if *extra { m["k"] = json!([1, "ß"]) } v.push((tag, format!("m{ty}"), m, *wait, si)) } } }
    let _ = fixed_target;
    v
}
/// The result of a call by the rules of the protocol; for failures, text the error has to contain.
pub fn expect(o: &RpcOut) -> Result<J, String> {
    let body = |b: &[u8], ct: &str| -> Result<J, String> {
        let ct = ct.to_lowercase();
        if ct.contains("image/") { return Ok(json!({ "image": b })) }
        if ct.contains("audio/") { return Ok(json!({ "audio": b })) }
        match serde_json::from_slice::<J>(b) { Ok(j) => from_json(&j).ok_or(String::new()), Err(_) => std::str::from_utf8(b).map(|s| json!(s)).map_err(|_| String::new()) }
    };
    match o {
        RpcOut::Json(j) => body(j.to_string().as_bytes(), "application/json"),
        RpcOut::Text(s) => body(s.as_bytes(), "text/plain"),
        RpcOut::Raw(b, h) => body(b, h.as_deref().unwrap_or("")),
        RpcOut::Typed(t, b) => body(b, t),
        RpcOut::Status(s, b) if *s >= 200 && *s < 300 => body(b, "text/plain"),
        RpcOut::Status(_, b) => Err(std::str::from_utf8(b).unwrap_or("").to_string()),
        RpcOut::Refuse | RpcOut::BodyLost(_) | RpcOut::Hang => Err(String::new()),
    }
}
