//! The simulated NetsBlox server and the network between it and the VMs, with their faults; and the record of what happened.
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::rc::Rc;
use serde_json::{Value as J, json};
use simcore::{self, now, net::{self, Conn, Frame, HttpReq, HttpResp, NetErr, Slot}};
use crate::case::*;

pub const MS: u64 = 1_000_000;
/// A message of the direct interface: type, fields, reply key.
pub type Msg = (String, Vec<(String, J)>, Option<(String, String)>);
#[derive(Clone, Debug)]
pub enum D {
    Send { n: usize, t0: u64, t1: u64, ty: String, vals: Vec<(String, J)>, tgts: Vec<String>, id: Option<String>, err: bool },
    Reply { t0: u64, t1: u64, src: String, id: String, val: J },
    Inject { t0: u64, t1: u64, ty: String, vals: Vec<(String, J)> },
    Recv { t0: u64, t1: u64, m: Option<Msg> },
    Poll { n: usize, t0: u64, t1: u64, r: Option<Option<J>> },
    Forget { n: usize },
}
#[derive(Clone, Debug)]
pub struct Reading { pub th: usize, pub t0: u64, pub t1: u64, pub prec: u8, pub ns: i128, pub off: i32 }
#[derive(Default)]
pub struct Inst {
    pub vm: usize, pub inc: u32, pub group: u32, pub name: String, pub t_start: u64, pub created: Option<u64>, pub id: String, pub failed: Option<String>, pub conns: Vec<usize>,
    pub upd: Vec<(u64, u64)>, pub d: Vec<D>, pub logs: Vec<(u64, Vec<J>)>, pub stop: bool, pub ended: Option<u64>, pub killed: Option<u64>, pub stuck: Option<Vec<String>>,
    pub worst_step: (u64, u64), pub beats: u64, pub last_beat: u64, pub worst_beat: (u64, u64), pub steps: u64, pub laters: Vec<Later>, pub prints: Vec<Later>, pub procs: usize, pub soft: bool, pub clk: Vec<(u64, u64, f64)>, pub errs: Vec<String>,
}
#[derive(Clone, Debug)]
pub struct Later { pub tag: String, pub plan: usize, pub t_call: u64, pub t0: Option<u64>, pub t1: Option<u64> }
pub struct CRec {
    pub conn: Conn, pub inst: usize, pub client: String, pub url: String, pub opened: u64, pub out: Vec<(u64, Frame, bool)>, pub inn: Vec<(u64, Option<String>)>,
    pub dl: u64, pub ul: u64, pub hold: u64, pub dead: Option<(u64, u8)>, pub half: bool, pub stalls: Vec<(u64, u64)>, pub seen: u32,
}
pub struct HRec { pub t: u64, pub inst: usize, pub method: &'static str, pub url: String, pub body: J, pub json: bool, pub answered: Option<u64>, pub plan: Option<usize> }
#[derive(Default)]
pub struct St { pub insts: Vec<Inst>, pub conns: Vec<CRec>, pub https: Vec<HRec>, pub addr: BTreeMap<String, String>, pub http_hold: BTreeMap<usize, u64>, pub counts: BTreeMap<&'static str, u64>, pub asked: u32, pub projects: u32, pub started: bool, pub reads: Vec<Reading>, pub keys: Vec<KeyRec>, pub cache: u8, pub new_clock: (u64, u64), pub end: u64, pub routed: Vec<Routed> }
#[derive(Clone, Debug, Default)]
pub struct KeyRec { pub done: Option<(u64, u64)>, pub polls: Vec<(u64, u64, u8, u64)>, pub dropped: bool }
#[derive(Clone, Debug)]
pub struct Routed { pub t: u64, pub from: usize, pub to: usize, pub text: String, pub fate: u8 }
pub struct Sh { pub c: Case, pub st: RefCell<St>, pub base: String, pub ws: String, pub acted: Cell<u64> }
pub type Shr = Rc<Sh>;

impl Sh {
    pub fn count(&self, k: &'static str) { *self.st.borrow_mut().counts.entry(k).or_insert(0) += 1 }
    pub fn inst_of(&self, group: u32) -> Option<usize> { self.st.borrow().insts.iter().position(|i| i.group == group) }
    pub fn current(&self, vm: usize) -> Option<usize> { self.st.borrow().insts.iter().rposition(|i| i.vm == vm) }
    fn lat(&self) -> u64 { let n = &self.c.net; 1000 * (n.lo_us + (n.hi_us - n.lo_us) * simcore::choose(8) as u64 / 7) }
    fn create_fault(&self, inst: usize, stage: u8) -> Option<u8> { let st = self.st.borrow(); let i = &st.insts[inst]; if i.vm != 0 || i.inc != 0 { return None } self.c.net.create.iter().find(|x| x.0 == stage).map(|x| x.1) }
}
pub struct W(pub Shr);

/// The server puts a frame on a connection; frames arrive in order unless `loose`.
pub fn push(sh: &Shr, c: usize, f: Frame, extra: u64, loose: bool) {
    let l = sh.lat() + extra;
    let at = { let mut st = sh.st.borrow_mut(); let r = &mut st.conns[c]; let t = if loose { now() + l } else { (now() + l).max(r.dl) }; if !loose { r.dl = t } t };
    arrive(sh.clone(), c, f, at)
}
fn arrive(sh: Shr, c: usize, f: Frame, at: u64) {
    simcore::at(at, move || {
        let (hold, dead) = { let st = sh.st.borrow(); (st.conns[c].hold, st.conns[c].dead.is_some() || st.conns[c].half) };
        if dead { return }
        if hold > now() { return arrive(sh, c, f, hold) }
        let conn = {
            let mut st = sh.st.borrow_mut();
            let r = &mut st.conns[c];
            r.inn.push((now(), match &f { Frame::Text(s) => Some(s.clone()), _ => None }));
            r.conn.clone()
        };
        conn.deliver(Ok(f))
    });
}
pub fn kill(sh: &Shr, c: usize, kind: u8) {
    let conn = {
        let mut st = sh.st.borrow_mut();
        let r = &mut st.conns[c];
        if r.dead.is_some() || r.half { return }
        if kind == 4 { r.half = true } else { r.dead = Some((now(), kind)) }
        r.conn.clone()
    };
    sh.count(["connection reset", "connection closed by server", "connection ended without close", "connection broken for writing", "connection silently dead"][kind.min(4) as usize]);
    match kind {
        0 => { conn.fail_writes(NetErr::Reset); conn.deliver(Err(NetErr::Reset)) }
        1 => { conn.deliver(Ok(Frame::Close)); conn.fail_writes(NetErr::Closed); conn.eof() }
        2 => { conn.fail_writes(NetErr::Broken); conn.eof() }
        3 => conn.fail_writes(NetErr::Broken),
        _ => (),
    }
}
fn act(sh: &Shr, what: &What, vm: usize) {
    let Some(i) = sh.current(vm) else { return };
    let c = sh.st.borrow().insts[i].conns.last().copied();
    let ms = |x: u64| now() + x * MS;
    match (what, c) {
        (What::Frame(s), Some(c)) => push(sh, c, Frame::Text(s.clone()), 0, false),
        (What::Binary(b), Some(c)) => push(sh, c, Frame::Binary(b.clone()), 0, false),
        (What::Ping, Some(c)) => push(sh, c, Frame::Text(r#"{"type":"ping"}"#.into()), 0, false),
        (What::Kill(k), Some(c)) => kill(sh, c, *k),
        (What::Hold(d), Some(c)) => { sh.count("link held"); let mut st = sh.st.borrow_mut(); let r = &mut st.conns[c]; r.hold = r.hold.max(ms(*d)); r.ul = r.ul.max(ms(*d)) }
        (What::HoldHttp(d), _) => { sh.count("http held"); let t = ms(*d); let mut st = sh.st.borrow_mut(); let h = st.http_hold.entry(i).or_insert(0); *h = t.max(*h) }
        (What::StallWrites(d), Some(c)) => {
            sh.count("writes stalled");
            let t = ms(*d);
            let conn = { let mut st = sh.st.borrow_mut(); let r = &mut st.conns[c]; r.stalls.push((now(), t)); r.conn.clone() };
            { let mut s = conn.0.borrow_mut(); s.stalled = true; s.buffered = 1 }
            simcore::at(t, move || conn.unstall());
        }
        (What::Crash, _) => {
            let g = { let mut st = sh.st.borrow_mut(); let x = &mut st.insts[i]; if x.killed.is_some() || x.ended.is_some() { return } x.killed = Some(now()); x.group };
            sh.count("vm crashed");
            simcore::kill_group(g);
            gone(sh, i);
        }
        (What::Stop, _) => { sh.count("vm stopped"); sh.st.borrow_mut().insts[i].stop = true }
        (What::Restart, _) => {
            let inc = { let st = sh.st.borrow(); let x = &st.insts[i]; if x.killed.is_none() && !x.stop { return } x.inc + 1 };
            sh.count("vm restarted");
            crate::vm::start(sh, vm, inc);
        }
        _ => (),
    }
}
fn gone(sh: &Shr, i: usize) { let mut st = sh.st.borrow_mut(); for r in st.conns.iter_mut().filter(|r| r.inst == i && r.dead.is_none()) { r.dead = Some((now(), 9)) } }
/// Inputs and faults addressed at a VM count from the moment its first connection opens; crashes and restarts from the start of the run.
pub fn schedule(sh: &Shr, vm: Option<usize>) {
    for a in &sh.c.acts {
        let abs = matches!(a.what, What::Crash | What::Stop | What::Restart);
        if abs != vm.is_none() || vm.map(|v| v as u32 != a.vm).unwrap_or(false) { continue }
        let (s, w, v) = (sh.clone(), a.what.clone(), a.vm as usize);
        simcore::after(a.at_ms * MS, move || act(&s, &w, v));
    }
}
fn from_server(sh: &Shr, c: usize, text: &str) {
    let Ok(m) = serde_json::from_str::<J>(text) else { return };
    if m["type"] != "message" { return }
    let src = { let st = sh.st.borrow(); st.conns[c].inst };
    if sh.c.net.relay {
        let dsts: Vec<String> = match &m["dstId"] { J::String(s) => vec![s.clone()], J::Array(x) => x.iter().filter_map(|x| x.as_str().map(|x| x.to_string())).collect(), _ => vec![] };
        for d in dsts {
            let to = (|| {
                let (name, rest) = d.rsplit_once('@')?;
                let client = rest.strip_suffix("#vm")?;
                let st = sh.st.borrow();
                if st.addr.get(client).map(|x| x.as_str()) != Some(name) { return None }
                st.conns.iter().rposition(|r| r.client == client && r.dead.is_none() && !r.half)
            })();
            let Some(to) = to else { continue };
            let n = &sh.c.net;
            let fate = if simcore::chance(n.drop_pm, 1000) { 1 } else if simcore::chance(n.dup_pm, 1000) { 2 } else if simcore::chance(n.reorder_pm, 1000) { 3 } else { 0 };
            let inst = sh.st.borrow().conns[to].inst;
            sh.st.borrow_mut().routed.push(Routed { t: now(), from: src, to: inst, text: text.into(), fate });
            match fate {
                1 => sh.count("message dropped"),
                2 => { sh.count("message duplicated"); push(sh, to, Frame::Text(text.into()), 0, false); let d = simcore::choose(40) as u64 * 20 * MS; push(sh, to, Frame::Text(text.into()), d, true) }
                3 => { sh.count("message reordered"); let d = simcore::choose(20) as u64 * 10 * MS; push(sh, to, Frame::Text(text.into()), d, true) }
                _ => push(sh, to, Frame::Text(text.into()), 0, false),
            }
        }
        return;
    }
    if m["msgType"] == "__reply__" { return }
    let Some(id) = m["requestId"].as_str() else { return };
    if sh.c.replies.is_empty() { return }
    let k = { let mut st = sh.st.borrow_mut(); st.asked += 1; st.asked as usize - 1 };
    let p = sh.c.replies[k % sh.c.replies.len()].clone();
    for (delay, kind, body) in p.sends {
        let (s, id) = (sh.clone(), id.to_string());
        simcore::after(delay * MS, move || {
            let mut r = json!({ "type": "message", "dstId": "x", "msgType": "__reply__", "requestId": id, "content": { "body": body } });
            match kind { 0 => s.count("reply sent"), 1 => { s.count("reply to nobody"); r["requestId"] = json!(format!("{id}x")) } 2 => { s.count("reply without body"); r["content"] = json!({ "bod": 1 }) } _ => { s.count("null reply"); r["content"]["body"] = J::Null } }
            push(&s, c, Frame::Text(r.to_string()), 0, false)
        });
    }
}
fn finish(sh: &Shr, i: usize, h: usize, delay: u64, out: Slot<Result<HttpResp, NetErr>>, r: Result<HttpResp, NetErr>) {
    let s = sh.clone();
    simcore::after(delay, move || {
        let hold = s.st.borrow().http_hold.get(&i).copied().unwrap_or(0);
        if hold > now() { return finish(&s, i, h, hold - now(), out, r) }
        let slow = match &r { Ok(r) => r.body_delay, _ => 0 };
        s.st.borrow_mut().https[h].answered = Some(now() + slow);
        out.set(r)
    });
}
fn ok(v: J) -> Result<HttpResp, NetErr> { Ok(HttpResp { status: 200, headers: vec![("content-type".into(), b"application/json".to_vec())], body: Ok(v.to_string().into_bytes()), body_delay: 0 }) }
fn broken(kind: u8, good: J) -> (u64, Result<HttpResp, NetErr>) {
    match kind {
        0 => (0, Err(NetErr::Refused)),
        1 => (0, Ok(HttpResp { status: 500, headers: vec![], body: Ok(b"internal error".to_vec()), body_delay: 0 })),
        2 => (3_000 * MS, ok(good)),
        3 => (0, Ok(HttpResp { status: 200, headers: vec![], body: Ok(b"{\"id\": ".to_vec()), body_delay: 0 })),
        4 => (0, ok(json!({}))),
        _ => (0, Ok(HttpResp { status: 200, headers: vec![], body: Err("connection lost".into()), body_delay: 5 * MS })),
    }
}
impl net::World for W {
    fn http(&self, req: HttpReq, out: Slot<Result<HttpResp, NetErr>>) {
        let sh = &self.0;
        let Some(i) = sh.inst_of(req.group) else { return };
        let body = serde_json::from_slice(&req.body).unwrap_or(J::Null);
        let h = { let mut st = sh.st.borrow_mut(); st.https.push(HRec { t: now(), inst: i, method: req.method, url: req.url.clone(), body: body.clone(), json: req.headers.iter().any(|h| h.0 == "content-type" && h.1.contains("json")), answered: None, plan: None }); st.https.len() - 1 };
        let rtt = sh.lat() + sh.lat();
        let rel = req.url.strip_prefix(&sh.base).unwrap_or("");
        let (stage, good) = if req.method == "GET" && rel == "/configuration" { (0, json!({ "servicesHosts": [{ "url": sh.c.net.svc, "categories": [] }, { "url": "http://wrong.host" }], "clientId": "other" })) }
            else if req.method == "POST" && rel == "/projects/" { let n = { let mut st = sh.st.borrow_mut(); st.projects += 1; st.projects }; (2, json!({ "id": format!("project-{n}"), "name": format!("{} (2)", body["name"].as_str().unwrap_or("")), "owner": "x", "roles": { format!("role-{n}"): { "name": "myRole", "code": "" } } })) }
            else if req.method == "POST" && rel.starts_with("/network/") && rel.ends_with("/state") {
                let client = rel["/network/".len()..rel.len() - "/state".len()].to_string();
                if sh.create_fault(i, 3).map(|k| k >= 2 && k != 5).unwrap_or(true) { if let Some(a) = body["state"]["external"]["address"].as_str() { sh.st.borrow_mut().addr.insert(client, a.into()); } }
                (3, json!("ok"))
            } else { (9, J::Null) };
        if stage < 9 {
            let (d, r) = match sh.create_fault(i, stage) { Some(k) => { sh.count(["server unreachable during creation", "error status during creation", "slow creation", "ill-formed answer during creation", "incomplete answer during creation", "answer lost during creation"][k.min(5) as usize]); broken(k, good) } None => (0, ok(good)) };
            return finish(sh, i, h, rtt + d, out, r);
        }
        let plan = req.url.split('?').next().unwrap_or("").rsplit('/').next().and_then(|x| x.strip_prefix("call")).and_then(|x| x.parse::<usize>().ok()).filter(|p| *p < sh.c.rpcs.len());
        let Some(p) = plan else { return finish(sh, i, h, rtt, out, Ok(HttpResp { status: 404, headers: vec![], body: Ok(b"no such thing".to_vec()), body_delay: 0 })) };
        sh.st.borrow_mut().https[h].plan = Some(p);
        let RpcPlan { delay_ms, out: o } = sh.c.rpcs[p].clone();
        let ct = |s: &str| vec![("content-type".to_string(), s.as_bytes().to_vec())];
        let r = match o {
            RpcOut::Json(j) => HttpResp { status: 200, headers: ct("application/json"), body: Ok(j.to_string().into_bytes()), body_delay: 0 },
            RpcOut::Text(s) => HttpResp { status: 200, headers: ct("text/plain"), body: Ok(s.into_bytes()), body_delay: 0 },
            RpcOut::Raw(b, h) => HttpResp { status: 200, headers: h.map(|h| ct(&h)).unwrap_or_default(), body: Ok(b), body_delay: 0 },
            RpcOut::Status(s, b) => { sh.count("rpc error status"); HttpResp { status: s, headers: ct("text/plain"), body: Ok(b), body_delay: 0 } }
            RpcOut::Refuse => { sh.count("rpc refused"); return finish(sh, i, h, rtt + delay_ms * MS, out, Err(NetErr::Refused)) }
            RpcOut::BodyLost(d) => { sh.count("rpc answer lost"); HttpResp { status: 200, headers: ct("application/json"), body: Err("connection lost".into()), body_delay: d * MS } }
            RpcOut::Hang => { sh.count("rpc never answered"); HANG.with(|x| x.borrow_mut().push(Box::new(out))); return }
            RpcOut::Typed(t, b) => HttpResp { status: 200, headers: ct(&t), body: Ok(b), body_delay: 0 },
        };
        finish(sh, i, h, rtt + delay_ms * MS, out, Ok(r))
    }
    fn connect(&self, url: String, group: u32, out: Slot<Result<Conn, NetErr>>) {
        let sh = self.0.clone();
        let Some(i) = sh.inst_of(group) else { return };
        let fault = sh.create_fault(i, 1);
        let d = sh.lat() + sh.lat() + if fault == Some(2) || fault == Some(1) { 3_000 * MS } else { 0 };
        simcore::after(d, move || {
            if fault == Some(0) || fault == Some(5) { sh.count("connection refused"); return out.set(Err(NetErr::Refused)) }
            if simcore::is_dead(group) || out.abandoned() { return }
            let client = url.split("/network/").nth(1).and_then(|x| x.strip_suffix("/connect")).unwrap_or("?").to_string();
            let c = { let mut st = sh.st.borrow_mut(); let c = st.conns.len(); let conn = Conn::new(c, group, &url); st.conns.push(CRec { conn, inst: i, client, url: url.clone(), opened: now(), out: vec![], inn: vec![], dl: 0, ul: 0, hold: 0, dead: None, half: false, stalls: vec![], seen: 0 }); st.insts[i].conns.push(c); c };
            let conn = sh.st.borrow().conns[c].conn.clone();
            out.set(Ok(conn));
            match fault { Some(3) => kill(&sh, c, 0), Some(4) => kill(&sh, c, 3), _ => () }
            let (vm, inc) = { let st = sh.st.borrow(); (st.insts[i].vm, st.insts[i].inc) };
            if inc == 0 { schedule(&sh, Some(vm)) }
        });
    }
    fn frame(&self, c: Conn, f: Frame) {
        let id = c.0.borrow().id;
        let sh = &self.0;
        let l = sh.lat();
        let at = { let mut st = sh.st.borrow_mut(); let r = &mut st.conns[id]; let lost = r.half; r.out.push((now(), f.clone(), lost)); if lost { return } let t = (now() + l).max(r.ul); r.ul = t; t };
        let s = sh.clone();
        simcore::at(at, move || if let Frame::Text(t) = f { if s.st.borrow().conns[id].dead.is_none() { from_server(&s, id, &t) } });
    }
    fn gone(&self, c: Conn) { let id = c.0.borrow().id; let mut st = self.0.st.borrow_mut(); let r = &mut st.conns[id]; if r.dead.is_none() { r.dead = Some((now(), 8)) } }
}
thread_local! { pub static HANG: RefCell<Vec<Box<Slot<Result<HttpResp, NetErr>>>>> = const { RefCell::new(Vec::new()) }; }
