//! A simulated scenario: everything that is not decided by the kernel's choices is written down here.
use serde::{Serialize, Deserialize};
use serde_json::{Value as J, json};
use simcore::{Rng, mix, Policy};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Kind { Direct, Project, Clock, Async, Create, Multi }
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Case {
    pub kind: Kind, pub seed: u64, pub policy: u32, pub stall: u32, pub slice_ns: u64,
    pub net: Net, pub vms: Vec<Vm>, pub acts: Vec<Act>, pub rpcs: Vec<RpcPlan>, pub replies: Vec<ReplyPlan>, pub laters: Vec<LaterPlan>,
    pub run_ms: u64,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Net { pub lo_us: u64, pub hi_us: u64, pub relay: bool, pub drop_pm: u32, pub dup_pm: u32, pub reorder_pm: u32, pub create: Vec<(u8, u8)>, pub path: bool, pub svc: String, pub tls: bool }
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Vm { pub name: Option<String>, pub cache: u8, pub tick_ms: u64, pub loop_us: u64, pub burst: u32, pub start_ms: u64, pub ops: Vec<Op>, pub scripts: Vec<Script>, pub offset_min: i16, pub keys: Vec<KeyPlan> }
/// Operations of a program that drives the system directly.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    Send { ty: String, vals: Vec<(String, J)>, tgts: Vec<String>, wait: bool },
    Reply { nth: u32, val: J }, Inject { ty: String, vals: Vec<(String, J)> },
    Sleep(u64), Busy(u64), Drain(u32), Clock(u8), Forget,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Tgt { Vm(u32), Room, Nobody }
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum POp {
    Sleep(u64), Send { ty: u8, tgts: Vec<Tgt>, list: bool, x: J, wait: bool, extra: bool }, Rpc { plan: u32, host: bool, bad: bool, x: J }, Later { plan: u32 }, Print { plan: u32 }, BadSend, PublicId, Clock,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum PHat { Start, Msg(u8) }
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Script { pub hat: PHat, pub ops: Vec<POp>, pub pause_ms: u64, pub reply: u8, pub rpc: Option<u32>, pub spin: bool }
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Act { pub at_ms: u64, pub vm: u32, pub what: What }
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum What {
    Frame(String), Binary(Vec<u8>), Ping, Kill(u8), Hold(u64), HoldHttp(u64), Crash, Stop, Restart, StallWrites(u64),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct RpcPlan { pub delay_ms: u64, pub out: RpcOut }
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum RpcOut { Json(J), Text(String), Raw(Vec<u8>, Option<String>), Status(u16, Vec<u8>), Refuse, BodyLost(u64), Hang, Typed(String, Vec<u8>) }
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct ReplyPlan { pub sends: Vec<(u64, u8, J)> }
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct LaterPlan { pub delay_us: u64, pub how: u8 }
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct KeyPlan { pub delay_us: u64, pub how: u8, pub pollers: u8, pub every_us: u64 }

impl Case { pub fn policy(&self) -> Policy { match self.policy { 0 => Policy::Uniform, 1 => Policy::Priority, p => Policy::Sticky(p) } } }

pub struct G { r: Rng }
impl G {
    fn b(&mut self, n: u64) -> u64 { self.r.below(n) }
    fn ch(&mut self, a: u64, b: u64) -> bool { self.b(b) < a }
    fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T { let i = self.b(xs.len() as u64) as usize; &xs[i] }
    fn text(&mut self) -> String { self.pick(&["", "a", "hello world", "été ✓", "007", "<b>x</b>", "<costume>", "line\nbreak", "\"q\\\"", "{}", "everyone in room", "true", "12", "tab\there"]).to_string() }
    fn json(&mut self, d: u32, obj: bool) -> J {
        match self.b(if d == 0 { 5 } else { 8 }) {
            0 => json!(self.b(2000) as f64 / 4.0 - 100.0),
            1 => J::String(self.text()),
            2 => J::Bool(self.ch(1, 2)),
            3 => json!(self.b(100)),
            4 => J::String(format!("s{}", self.b(1000))),
            5 if obj => { let n = self.b(3); J::Object((0..n).map(|i| (format!("k{i}"), self.json(d - 1, obj))).collect()) }
            6 if obj && self.ch(1, 2) => J::Null,
            _ => { let n = self.b(4); J::Array((0..n).map(|_| self.json(d.saturating_sub(1), obj)).collect()) }
        }
    }
    fn fields(&mut self, obj: bool) -> Vec<(String, J)> {
        let n = self.b(4);
        (0..n).map(|i| ([format!("f{i}"), "x".into(), "body".into(), "Ünï".into()][if self.ch(3, 4) { 0 } else { self.b(4) as usize }].clone(), self.json(2, obj))).collect::<std::collections::BTreeMap<_, _>>().into_iter().collect()
    }
    fn net(&mut self, relay: bool) -> Net {
        let (lo, hi) = *self.pick(&[(50, 400), (500, 5_000), (5_000, 60_000), (20_000, 300_000)]);
        Net { lo_us: lo, hi_us: hi, relay, drop_pm: 0, dup_pm: 0, reorder_pm: 0, create: vec![], path: false, svc: self.pick(&["http://svc.sim", "https://services.sim/api", "http://sim.server"]).to_string(), tls: self.ch(1, 3) }
    }
    fn vm(&mut self, i: u32) -> Vm {
        let cache = self.b(4) as u8;
        Vm { name: if self.ch(1, 6) { None } else { Some(self.pick(&["proj", "my game", "été", "p@x", "P", " padded ", "a/b?c=1&d", "na#me", "UPPER case", "", "\u{7}x\"y", "loooooooooooooooooooooooooooooooooooooooooooooooooooooong"]).to_string() + if i > 0 { "2" } else { "" }) }, cache, tick_ms: *self.pick(&[1, 10, 10, 40]), loop_us: *self.pick(&[200, 1_000, 5_000, 20_000]), burst: *self.pick(&[1, 8, 64]), start_ms: self.b(3) * self.b(200), ops: vec![], scripts: vec![], offset_min: *self.pick(&[0, 0, 60, -300, 345]), keys: vec![] }
    }
    fn frame(&mut self, k: u32) -> String {
        let mut o = serde_json::Map::new();
        o.insert("type".into(), json!("message"));
        o.insert("dstId".into(), json!("whoever"));
        if self.ch(5, 6) { o.insert("srcId".into(), J::String(format!("peer@c{}#vm", self.b(3)))); }
        let ty = format!("t{}", self.b(3));
        o.insert("msgType".into(), J::String(ty));
        let mut f: serde_json::Map<String, J> = self.fields(true).into_iter().collect();
        f.insert("n".into(), json!(k));
        o.insert("content".into(), J::Object(f));
        if self.ch(1, 3) { o.insert("requestId".into(), J::String(format!("rq{}", self.b(6)))); }
        match self.b(26) {
            0 => { o.remove("content"); } 1 => { o.remove("msgType"); } 2 => { o.insert("content".into(), json!([1, 2])); } 3 => { o.insert("type".into(), json!("room-roles")); }
            4 => { o.remove("type"); } 5 => { o.insert("requestId".into(), json!(7)); } 6 => { o.insert("msgType".into(), json!(3)); } 7 => return "{\"type\":\"message\",".into(), 8 => return "[1,2,3]".into(), 9 => return String::new(),
            10 => { o.insert("type".into(), json!(12)); } 11 => { o.insert("requestId".into(), J::Null); } 12 => { o.insert("type".into(), json!("Message")); }
            13 => { o.insert("extra".into(), json!({"a": [null, 1]})); } 14 => { o.insert("msgType".into(), json!("")); }
            _ => (),
        }
        let s = J::Object(o).to_string();
        if self.ch(1, 40) { format!(" {s}\n") } else { s }
    }
    fn stray_reply(&mut self) -> String {
        let mut o = json!({"type": "message", "msgType": "__reply__", "requestId": format!("none{}", self.b(4)), "content": {"body": self.json(1, true)}});
        match self.b(4) { 0 => { o["content"] = json!({}); } 1 => { o.as_object_mut().unwrap().remove("requestId"); } 2 => { o["srcId"] = json!("x@y#vm"); } _ => () }
        o.to_string()
    }
    fn replies(&mut self) -> Vec<ReplyPlan> {
        (0..3 + self.b(5)).map(|k| {
            let n = *self.pick(&[0, 1, 1, 1, 2, 3]);
            ReplyPlan { sends: (0..n).map(|j| (match self.b(8) { 0 => 1_300 + self.b(400), 1 => 1_600 + self.b(900), 2 => self.b(1_400), _ => self.b(300) }, match self.b(10) { 0 => 1, 1 => 2, 2 => 3, _ => 0 }, json!(format!("answer {k}.{j} {}", self.b(100))))).collect() }
        }).collect()
    }
    fn rpc_plans(&mut self) -> Vec<RpcPlan> {
        let mut v: Vec<RpcPlan> = (0..6 + self.b(6)).map(|k| {
            let out = match self.b(16) {
                0 | 1 => RpcOut::Json(self.json(2, true)), 2 => RpcOut::Text(format!("plain text {k}")), 3 => RpcOut::Raw(vec![0xff, 0xfe, k as u8], None), 4 => RpcOut::Status(*self.pick(&[400, 404, 500, 503, 422, 301, 304]), if self.ch(1, 4) { format!("{{\"error\": {k}}}").into_bytes() } else { format!("failure {k}").into_bytes() }),
                5 => RpcOut::Status(500, vec![0xc3, 0x28]), 6 => RpcOut::Refuse, 7 => RpcOut::BodyLost(self.b(200)), 8 => if self.ch(1, 3) { RpcOut::Hang } else { RpcOut::Json(json!(k)) }, 9 => RpcOut::Typed("image/png".into(), vec![1, 2, 3, k as u8]), 10 => RpcOut::Typed(self.pick(&["Audio/MPEG; q=1", "IMAGE/PNG", "audio/x-wav", "image/svg+xml; charset=utf-8"]).to_string(), vec![b'"', 8, k as u8, b'"'].into_iter().skip(self.b(2) as usize).collect()),
                11 => RpcOut::Raw(format!("[{k}, \"x\"]").into_bytes(), Some("application/json; charset=utf-8".into())), 12 => RpcOut::Raw(b"".to_vec(), None), 13 => RpcOut::Status(*self.pick(&[302, 201, 204]), if self.ch(1, 2) { format!("\"moved {k}\"").into_bytes() } else { vec![] }),
                _ => RpcOut::Json(json!(format!("result {k}"))),
            };
            RpcPlan { delay_ms: match self.b(5) { 0 => 500 + self.b(1_500), 1 => 0, _ => self.b(120) }, out }
        }).collect();
        if v.is_empty() { v.push(RpcPlan { delay_ms: 0, out: RpcOut::Json(json!(1)) }) }
        v
    }
    fn script(&mut self, kind: Kind, me: u32, vms: u32, rpcs: u32, laters: u32, heavy: [u32; 6]) -> Script {
        let n = 1 + self.b(6);
        let mut ops = vec![];
        for _ in 0..n {
            let tot: u32 = heavy.iter().sum();
            let mut x = self.b(tot as u64) as u32;
            let mut k = 0;
            while x >= heavy[k] { x -= heavy[k]; k += 1 }
            ops.push(match k {
                0 => POp::Sleep(*self.pick(&[0, 1, 10, 100, 400])),
                1 | 2 => {
                    let nt = *self.pick(&[1, 1, 1, 2, 3, 0]);
                    let tgts = (0..nt).map(|_| match self.b(8) { 0 => Tgt::Room, 1 => Tgt::Nobody, _ => Tgt::Vm(if kind == Kind::Multi { let j = self.b(vms as u64) as u32; if j == me && vms > 1 && self.ch(2, 3) { (j + 1) % vms } else { j } } else { self.b(2) as u32 }) }).collect::<Vec<_>>();
                    POp::Send { ty: self.b(3) as u8, list: nt != 1 || self.ch(1, 3), tgts, x: self.json(2, false), wait: k == 2, extra: self.ch(1, 3) }
                }
                3 => POp::Rpc { plan: self.b(rpcs as u64) as u32, host: self.ch(1, 4), bad: self.ch(1, 10), x: self.json(2, false) },
                4 => if self.ch(1, 3) { POp::Print { plan: self.b(laters as u64) as u32 } } else { POp::Later { plan: self.b(laters as u64) as u32 } },
                _ => match self.b(3) { 0 => POp::BadSend, 1 => POp::PublicId, _ => POp::Clock },
            });
        }
        Script { hat: PHat::Start, ops, pause_ms: 0, reply: 0, rpc: None, spin: false }
    }
    fn handlers(&mut self, rpcs: u32) -> Vec<Script> {
        let mut v = vec![];
        for t in 0..3u8 {
            let n = *self.pick(&[1, 1, 1, 2, 0]);
            for _ in 0..n { v.push(Script { hat: PHat::Msg(t), ops: vec![], pause_ms: *self.pick(&[0, 0, 0, 5, 30]), reply: *self.pick(&[1, 1, 1, 0, 2]), rpc: if rpcs > 0 && self.ch(1, 8) { Some(self.b(rpcs as u64) as u32) } else { None }, spin: false }) }
        }
        v
    }
}

pub fn profile_of(id: &str, seed: u64) -> (Case, &'static str) {
    let mut g = G { r: Rng::new(mix(seed ^ 0x6e65)) };
    let shape: &'static str = match id {
        "N01" => *g.pick(&["receive", "receive", "receive", "receive project"]),
        "N02" => *g.pick(&["send", "send", "send", "send project", "send with faults"]),
        "N03" => *g.pick(&["waits", "waits", "waits project", "waits with faults"]),
        "N04" => *g.pick(&["calls", "calls", "calls", "calls with faults"]),
        "N05" => *g.pick(&["lost direct", "lost project", "lost project", "lost calls", "lost burst"]),
        "N06" => "clock",
        "N07" => *g.pick(&["keys", "keys", "late answers"]),
        "N08" => *g.pick(&["create", "create", "create with faults"]),
        "N09" => *g.pick(&["several", "several", "several with faults", "crash and restart"]),
        _ => "several",
    };
    let mut c = Case { kind: Kind::Direct, seed, policy: *g.pick(&[0, 1, 600, 900]), stall: if g.ch(1, 4) { *g.pick(&[20, 100]) } else { 0 }, slice_ns: *g.pick(&[500, 2_000, 5_000]), net: g.net(false), vms: vec![], acts: vec![], rpcs: vec![], replies: vec![], laters: vec![], run_ms: 600 };
    let mut vm = g.vm(0);
    match shape {
        "receive" => {
            let n = 4 + g.b(25);
            let mut t = 0;
            for k in 0..n {
                if g.ch(1, 2) { t += g.b(60) }
                let what = match g.b(14) { 0 => What::Ping, 1 => What::Frame(g.stray_reply()), 2 => if g.ch(1, 2) { What::Binary(vec![1, 2]) } else { What::Hold(50 + g.b(300)) }, _ => What::Frame(g.frame(k as u32)) };
                let again = if g.ch(1, 8) { g.b(3) } else { 0 };
                for _ in 0..again { c.acts.push(Act { at_ms: t, vm: 0, what: what.clone() }) }
                c.acts.push(Act { at_ms: t, vm: 0, what });
            }
            for _ in 0..g.b(12) { let op = match g.b(5) { 0 => Op::Inject { ty: format!("i{}", g.b(3)), vals: g.fields(false) }, 1 => Op::Sleep(g.b(100)), 2 => Op::Send { ty: "s".into(), vals: vec![], tgts: vec!["z@z#vm".into()], wait: g.ch(1, 2) }, 3 => Op::Clock(g.b(3) as u8), _ => Op::Drain(g.b(4) as u32) }; vm.ops.push(op) }
            c.replies = g.replies();
        }
        "send" | "send with faults" => {
            for k in 0..3 + g.b(20) { let op = match g.b(7) { 0 => Op::Sleep(g.b(60)), 1 => Op::Drain(3), 2 => Op::Reply { nth: g.b(4) as u32, val: g.json(2, true) }, _ => { let nt = *g.pick(&[1, 1, 2, 3, 0]); Op::Send { ty: if g.ch(1, 12) { g.text() } else { format!("s{}", g.b(3)) }, vals: { let mut v = g.fields(true); v.retain(|x| x.0 != "n"); v.push(("n".into(), json!(k))); v }, tgts: (0..nt).map(|_| g.pick(&["a@b#vm", "everyone in room", "bob", "", "p2@c1#vm"]).to_string()).collect(), wait: g.ch(1, 3) } } }; let again = if g.ch(1, 8) { g.b(4) } else { 0 }; for _ in 0..again { vm.ops.push(op.clone()) } vm.ops.push(op) }
            for _ in 0..g.b(5) { c.acts.push(Act { at_ms: g.b(300), vm: 0, what: What::Ping }) }
            for k in 0..g.b(6) { let f = g.frame(k as u32); c.acts.push(Act { at_ms: g.b(200), vm: 0, what: What::Frame(f) }) }
            c.replies = g.replies();
            if shape == "send with faults" { for _ in 0..1 + g.b(2) { let w = match g.b(4) { 0 => What::Kill(g.b(5) as u8), 1 => What::StallWrites(50 + g.b(500)), _ => What::Hold(50 + g.b(500)) }; c.acts.push(Act { at_ms: g.b(400), vm: 0, what: w }) } }
            c.run_ms = 2_200;
        }
        "waits" | "waits with faults" => {
            for k in 0..2 + g.b(10) { let op = match g.b(6) { 0 => Op::Sleep(g.b(400)), 1 => if g.ch(1, 2) { Op::Sleep(g.b(400)) } else { { let d = match g.b(4) { 0 => g.b(400), 1 => 1_400 + g.b(300), 2 => 3_000 + g.b(300), _ => g.b(1_600) }; Op::Busy(d) } }, 2 => if g.ch(1, 4) { Op::Forget } else { Op::Clock(g.b(3) as u8) }, _ => Op::Send { ty: "q".into(), vals: vec![("n".into(), json!(k))], tgts: vec!["peer@c#vm".into()], wait: true } }; vm.ops.push(op) }
            c.replies = g.replies();
            for _ in 0..g.b(4) { let f = g.stray_reply(); c.acts.push(Act { at_ms: g.b(1_500), vm: 0, what: What::Frame(f) }) }
            if shape == "waits with faults" { for _ in 0..1 + g.b(2) { let w = match g.b(4) { 0 => What::Kill(g.b(5) as u8), 1 => What::StallWrites(50 + g.b(2_000)), _ => What::Hold(50 + g.b(2_000)) }; c.acts.push(Act { at_ms: g.b(1_500), vm: 0, what: w }) } }
            c.run_ms = if vm.ops.iter().any(|o| matches!(o, Op::Busy(d) if *d > 2_000)) { 5_500 } else { 2_500 };
        }
        "receive project" | "send project" | "waits project" | "calls" | "calls with faults" | "lost project" | "lost calls" | "late answers" => {
            c.kind = Kind::Project;
            c.rpcs = g.rpc_plans();
            c.replies = g.replies();
            c.laters = (0..4 + g.b(5)).map(|_| LaterPlan { delay_us: match g.b(4) { 0 => 0, 1 => g.b(300_000), _ => g.b(5_000) }, how: *g.pick(&[0, 0, 0, 1, 2, 3]) }).collect();
            let (nr, nl) = (c.rpcs.len() as u32, c.laters.len() as u32);
            let heavy = match shape { "receive project" => [2, 2, 1, 1, 1, 0], "send project" => [2, 6, 3, 0, 0, 1], "waits project" => [2, 1, 6, 0, 0, 0], "calls" | "calls with faults" => [1, 1, 1, 8, 0, 1], "lost project" => [2, 4, 4, 2, 0, 1], "lost calls" => [2, 2, 2, 6, 1, 1], _ => [1, 1, 0, 1, 8, 1] };
            for _ in 0..1 + g.b(4) { let s = g.script(Kind::Project, 0, 1, nr, nl, heavy); vm.scripts.push(s) }
            let hs = g.handlers(nr);
            vm.scripts.extend(hs);
            if g.ch(1, 2) { vm.scripts.push(Script { hat: PHat::Start, ops: vec![], pause_ms: 0, reply: 0, rpc: None, spin: true }) }
            if shape != "calls" && shape != "late answers" { for k in 0..g.b(14) { let s = json!({"type": "message", "dstId": "me", "srcId": "peer@c9#vm", "msgType": format!("m{}", g.b(4)), "content": {"n": format!("x{k}"), "x": g.json(2, true)}, "requestId": format!("rq{k}")}); let mut s = s; if g.ch(1, 2) { s.as_object_mut().unwrap().remove("requestId"); } if g.ch(1, 5) { s["content"].as_object_mut().unwrap().remove("x"); } c.acts.push(Act { at_ms: g.b(500), vm: 0, what: What::Frame(s.to_string()) }) } }
            if shape.contains("lost") { for _ in 0..1 + g.b(2) { let w = match g.b(8) { 0 => What::StallWrites(50 + g.b(2_000)), 1 => What::HoldHttp(50 + g.b(2_000)), 2 => What::Hold(50 + g.b(1_000)), _ => What::Kill(g.b(5) as u8) }; c.acts.push(Act { at_ms: g.b(900), vm: 0, what: w }) } }
            if shape == "calls with faults" { for _ in 0..1 + g.b(2) { let w = match g.b(3) { 0 => What::Kill(g.b(5) as u8), _ => What::HoldHttp(50 + g.b(2_000)) }; c.acts.push(Act { at_ms: g.b(600), vm: 0, what: w }) } }
            c.run_ms = 4_000;
        }
        "lost direct" => {
            for k in 0..3 + g.b(14) { let op = match g.b(7) { 0 | 1 => Op::Sleep(g.b(300)), 2 => Op::Drain(2), 3 => Op::Reply { nth: g.b(4) as u32, val: g.json(1, true) }, _ => Op::Send { ty: "q".into(), vals: vec![("n".into(), json!(k))], tgts: vec!["peer@c#vm".into()], wait: g.ch(1, 2) } }; vm.ops.push(op) }
            for _ in 0..1 + g.b(2) { c.acts.push(Act { at_ms: g.b(500), vm: 0, what: What::Kill(g.b(5) as u8) }) }
            for k in 0..g.b(8) { let f = g.frame(k as u32); let w = if g.ch(1, 3) { What::Ping } else { What::Frame(f) }; c.acts.push(Act { at_ms: g.b(500), vm: 0, what: w }) }
            if g.ch(1, 3) { c.net.create.push((1, *g.pick(&[0, 2]))) }
            c.replies = g.replies();
            c.run_ms = 2_500;
        }
        "lost burst" => {
            for r in 0..1 + g.b(3) {
                let n = *g.pick(&[10, 40, 80, 150]);
                for k in 0..n { vm.ops.push(if g.ch(1, 30) { Op::Drain(2) } else { Op::Send { ty: "q".into(), vals: vec![("n".into(), json!(1000 * r + k))], tgts: vec!["peer@c#vm".into()], wait: g.ch(1, 6) } }) }
                vm.ops.push(Op::Sleep(g.b(600)));
            }
            let t = g.b(100);
            c.acts.push(Act { at_ms: t, vm: 0, what: What::StallWrites(200 + g.b(3_000)) });
            for _ in 0..g.b(40) { c.acts.push(Act { at_ms: t + g.b(400), vm: 0, what: What::Ping }) }
            if g.ch(1, 2) { let k = g.b(5) as u8; c.acts.push(Act { at_ms: t + g.b(1_500), vm: 0, what: What::Kill(k) }) }
            c.replies = g.replies();
            c.run_ms = 4_500;
        }
        "clock" => {
            c.kind = Kind::Clock;
            c.policy = *g.pick(&[0, 0, 1, 400]);
            let n = 2 + g.b(4);
            for i in 0..n { let mut v = g.vm(i as u32); v.ops = (0..4 + g.b(12)).map(|_| match g.b(5) { 0 => Op::Sleep(g.b(5)), 1 => Op::Clock(3), k => Op::Clock(k as u8 - 2) }).collect(); c.vms.push(v) }
            vm.cache = c.vms[0].cache;
        }
        "keys" => {
            c.kind = Kind::Async;
            c.policy = *g.pick(&[0, 0, 1, 400]);
            vm.keys = (0..1 + g.b(6)).map(|_| KeyPlan { delay_us: *g.pick(&[0, 0, 3, 10, 50, 500]), how: *g.pick(&[0, 0, 0, 1]), pollers: *g.pick(&[1, 1, 1, 2, 3]), every_us: *g.pick(&[0, 1, 5, 40]) }).collect();
        }
        "create" | "create with faults" => {
            c.kind = Kind::Create;
            vm.start_ms = 0;
            if shape == "create with faults" { for _ in 0..1 + g.b(2) { let f = (g.b(4) as u8, g.b(6) as u8); c.net.create.push(f) } }
            let k = g.b(3);
            for i in 0..k { let v = g.vm(i as u32 + 1); c.vms.push(v) }
            c.rpcs = vec![RpcPlan { delay_ms: 1, out: RpcOut::Json(json!("ok")) }];
            for v in c.vms.iter_mut().chain([&mut vm]) { v.scripts = vec![Script { hat: PHat::Start, ops: vec![POp::PublicId, POp::Rpc { plan: 0, host: false, bad: false, x: json!(1) }, POp::Send { ty: 0, tgts: vec![Tgt::Nobody], list: false, x: json!(1), wait: false, extra: false }], pause_ms: 0, reply: 0, rpc: None, spin: false }] }
            c.run_ms = 900;
        }
        _ => {
            c.kind = Kind::Multi;
            c.net.relay = true;
            let n = 2 + g.b(2) as u32;
            c.rpcs = g.rpc_plans();
            let nr = c.rpcs.len() as u32;
            let heavy = [2, 5, 5, if g.ch(1, 3) { 1 } else { 0 }, 0, 0];
            for i in 0..n {
                let mut v = if i == 0 { vm.clone() } else { g.vm(i) };
                for _ in 0..1 + g.b(3) { let s = g.script(Kind::Multi, i, n, nr, 1, heavy); v.scripts.push(s) }
                let hr = if g.ch(1, 3) { nr } else { 0 };
                let hs = g.handlers(hr);
                v.scripts.extend(hs);
                if i == 0 { vm = v } else { c.vms.push(v) }
            }
            c.laters = vec![LaterPlan { delay_us: 0, how: 0 }];
            if shape == "several with faults" {
                match g.b(4) { 0 => c.net.drop_pm = 100, 1 => c.net.dup_pm = 150, 2 => c.net.reorder_pm = 200, _ => { c.net.dup_pm = 60; c.net.drop_pm = 60; c.net.reorder_pm = 60 } }
                for _ in 0..1 + g.b(3) { let w = match g.b(5) { 0 => What::Kill(g.b(5) as u8), 1 => What::StallWrites(100 + g.b(900)), 2 => What::HoldHttp(100 + g.b(900)), _ => What::Hold(100 + g.b(1_500)) }; c.acts.push(Act { at_ms: 100 + g.b(900), vm: g.b(n as u64) as u32, what: w }) }
            }
            if shape == "crash and restart" { for _ in 0..1 + g.b(2) { let v = g.b(n as u64) as u32; let t = 50 + g.b(900); c.acts.push(Act { at_ms: t, vm: v, what: if g.ch(1, 3) { What::Stop } else { What::Crash } }); if g.ch(3, 4) { c.acts.push(Act { at_ms: t + g.b(600), vm: v, what: What::Restart }) } } }
            c.run_ms = 4_500;
        }
    }
    c.vms.insert(0, vm);
    c.acts.sort_by_key(|a| a.at_ms);
    (c, shape)
}
