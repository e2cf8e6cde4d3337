//! Seeded generator of cases: programs, inputs, host answers, clock behaviour and collector schedules.
use std::rc::Rc;
use crate::drive::*;
use crate::ir::*;
use crate::model::*;
use crate::rng::Rng;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(usize)]
pub enum K {
    Log, SetNum, Change, SetAny, Decl, If, IfElse, Repeat, Forever, Until, For, Foreach, Warp, WaitUntil, Try, Throw, Ret, Bcast, BcastWait, StopAll, StopThis, StopBlock, StopOthers, StopMy,
    Sleep, Clone, Delete, Fork, NetSend, NetWait, NetReply, Rpc, Sys, HostSys, Say, Ask, Prop, Move, ResetTimer, Pause, Watch, ListMut, Costume, CallFn, CallClo, SetClo, Hof, Block, SetList, Bad, SetEnt, Recur, OpEx, OpCmd, OpSet, Pen, Sound, N,
}
pub const BASE: [(K, u32); 50] = [
    (K::Log, 60), (K::SetNum, 14), (K::Change, 14), (K::SetAny, 5), (K::Decl, 6), (K::If, 10), (K::IfElse, 6), (K::Repeat, 12), (K::Forever, 2), (K::Until, 3), (K::For, 4), (K::Foreach, 4), (K::Warp, 5),
    (K::WaitUntil, 2), (K::Try, 6), (K::Throw, 2), (K::Ret, 2), (K::Bcast, 4), (K::BcastWait, 3), (K::StopThis, 1), (K::Sleep, 5), (K::Clone, 2), (K::Delete, 2), (K::Fork, 2), (K::NetSend, 2), (K::NetWait, 2), (K::Rpc, 4),
    (K::Sys, 3), (K::Say, 3), (K::Ask, 1), (K::Prop, 2), (K::Move, 2), (K::ListMut, 6), (K::CallFn, 7), (K::CallClo, 5), (K::SetClo, 5), (K::Hof, 3), (K::Block, 1), (K::SetList, 5), (K::Bad, 1), (K::SetEnt, 2), (K::StopBlock, 1), (K::Pause, 1), (K::Watch, 1),
    (K::StopMy, 1), (K::StopOthers, 1), (K::NetReply, 2), (K::ResetTimer, 1), (K::Costume, 1), (K::HostSys, 1),
];
#[derive(Clone)]
pub struct Prof {
    pub w: Vec<u32>,
    /// hats: flag, clone, key, local, net, custom
    pub hats: [u32; 6],
    /// actions: start, stop, key, custom, net, jump
    pub acts: [u32; 6],
    pub nacts: (i64, i64), pub scripts: (i64, i64), pub ents: (i64, i64), pub len: (i64, i64),
    pub recursive: bool, pub small_depth: bool, pub shadow: bool, pub init: bool, pub pad: bool, pub fault: u32, pub gc_heavy: bool, pub bounded: bool, pub time: bool, pub segs: u32, pub same_msg: bool, pub sub: u32,
    /// programs made of operators over values of every shape
    pub ops: bool,
    /// literals, messages and arguments replaced by extreme and malformed ones
    pub wild: bool,
    /// how often (of 6) the host keeps the sprites' properties
    pub props: u32,
}
impl Prof {
    pub fn base() -> Prof {
        let mut w = vec![0; K::N as usize];
        for (k, v) in BASE { w[k as usize] = v }
        Prof { w, hats: [6, 1, 1, 3, 3, 1], acts: [3, 1, 2, 2, 6, 2], nacts: (1, 9), scripts: (2, 6), ents: (1, 3), len: (2, 6), recursive: false, small_depth: false, shadow: false, init: false, pad: false, fault: 2, gc_heavy: false, bounded: false, time: false, segs: 260, same_msg: false, sub: 3, ops: false, wild: false, props: 2 }
    }
    pub fn set(mut self, xs: &[(K, u32)]) -> Self { for (k, v) in xs { self.w[*k as usize] = *v } self }
}
pub fn profile(id: &str) -> Prof {
    let mut p = Prof::base();
    match id {
        "S01" => { p.hats = [3, 0, 1, 1, 10, 1]; p.acts = [2, 1, 1, 1, 20, 1]; p.nacts = (4, 18); p.sub = 5; p = p.set(&[(K::Sleep, 8), (K::StopThis, 5), (K::StopAll, 2), (K::StopOthers, 2), (K::StopMy, 2), (K::Throw, 4), (K::Repeat, 16), (K::Delete, 3), (K::Clone, 3)]) }
        "S02" => { p.hats = [5, 1, 1, 12, 1, 1]; p.scripts = (3, 8); p.ents = (1, 4); p = p.set(&[(K::Bcast, 22), (K::BcastWait, 6), (K::Clone, 4), (K::Delete, 3), (K::Sleep, 8), (K::StopThis, 3), (K::SetEnt, 6)]) }
        "S03" => { p.hats = [5, 1, 1, 10, 1, 1]; p.scripts = (3, 8); p = p.set(&[(K::BcastWait, 24), (K::Bcast, 6), (K::Sleep, 10), (K::StopThis, 4), (K::StopMy, 3), (K::StopOthers, 1), (K::Throw, 5), (K::Delete, 4), (K::Clone, 4), (K::Rpc, 6)]) }
        "S04" => { p.acts = [4, 1, 4, 3, 6, 1]; p.sub = 8; p.nacts = (2, 12); p = p.set(&[(K::Warp, 22), (K::Repeat, 18), (K::For, 6), (K::Foreach, 6), (K::Until, 6), (K::WaitUntil, 5), (K::Hof, 7), (K::CallFn, 12), (K::CallClo, 9), (K::Sleep, 8), (K::Try, 9), (K::Throw, 5), (K::Ret, 5), (K::StopBlock, 3)]) }
        "S05" => { p.scripts = (3, 9); p.acts = [5, 1, 6, 4, 6, 1]; p.nacts = (3, 14); p.sub = 6; p = p.set(&[(K::Repeat, 26), (K::Forever, 6), (K::Sleep, 10), (K::WaitUntil, 5), (K::Fork, 8), (K::Bcast, 7), (K::BcastWait, 4), (K::Clone, 4), (K::StopMy, 4), (K::StopOthers, 2)]) }
        "S06" => { p.scripts = (3, 8); p.ents = (1, 4); p.acts = [6, 1, 3, 3, 8, 1]; p.nacts = (3, 14); p.sub = 5; p = p.set(&[(K::StopAll, 5), (K::StopThis, 10), (K::StopBlock, 8), (K::StopOthers, 6), (K::StopMy, 9), (K::Delete, 7), (K::Clone, 6), (K::Sleep, 9), (K::Repeat, 18), (K::Forever, 4), (K::CallClo, 8)]) }
        "S07" => { p.hats = [8, 1, 8, 2, 2, 2]; p.acts = [10, 7, 14, 2, 3, 1]; p.nacts = (5, 20); p.scripts = (3, 8); p = p.set(&[(K::Sleep, 9), (K::Repeat, 16), (K::Forever, 5), (K::StopThis, 3), (K::Rpc, 6), (K::BcastWait, 5)]) }
        "S08" => { p.hats = [3, 0, 1, 1, 1, 12]; p.acts = [2, 1, 1, 22, 2, 1]; p.nacts = (5, 20); p = p.set(&[(K::Sleep, 10), (K::Repeat, 18), (K::StopThis, 5), (K::StopAll, 2), (K::Throw, 4), (K::Rpc, 5)]) }
        "S09" => { p.fault = 6; p = p.set(&[(K::Try, 26), (K::Throw, 14), (K::Bad, 10), (K::CallFn, 14), (K::CallClo, 10), (K::Warp, 10), (K::Ret, 7), (K::StopBlock, 4), (K::Hof, 8), (K::Rpc, 8), (K::Foreach, 6), (K::For, 5), (K::HostSys, 4)]) }
        "S10" => { p.fault = 6; p.ents = (1, 4); p = p.set(&[(K::Rpc, 18), (K::Sys, 14), (K::Ask, 8), (K::Prop, 9), (K::Move, 10), (K::Say, 9), (K::Block, 8), (K::NetSend, 6), (K::NetWait, 6), (K::Costume, 4), (K::CallClo, 8), (K::SetEnt, 5), (K::Try, 8), (K::StopAll, 1), (K::StopMy, 2), (K::Clone, 3)]) }
        "S11" => { p.time = true; p.acts = [4, 1, 2, 1, 4, 12]; p.nacts = (2, 14); p = p.set(&[(K::Sleep, 30), (K::ResetTimer, 6), (K::Say, 8), (K::SetNum, 22), (K::WaitUntil, 6), (K::Repeat, 14), (K::Warp, 6)]) }
        "S12" => { p.hats = [5, 7, 2, 5, 3, 2]; p.ents = (2, 4); p.scripts = (3, 8); p = p.set(&[(K::Clone, 16), (K::Delete, 9), (K::SetEnt, 8), (K::Bcast, 6), (K::Change, 20), (K::Sleep, 5), (K::CallClo, 8), (K::SetClo, 8), (K::StopMy, 3), (K::Fork, 5), (K::ListMut, 9)]) }
        "S13" => { p = p.set(&[(K::SetClo, 20), (K::CallClo, 24), (K::Fork, 14), (K::Hof, 8), (K::Change, 20), (K::Decl, 10), (K::CallFn, 10), (K::SetEnt, 5), (K::ListMut, 8), (K::Sleep, 5)]); p.ents = (1, 4) }
        "S14" => { p.shadow = true; p.ents = (2, 4); p = p.set(&[(K::Decl, 16), (K::SetNum, 24), (K::Change, 20), (K::CallFn, 18), (K::CallClo, 14), (K::SetClo, 10), (K::For, 6), (K::Foreach, 6), (K::Clone, 4), (K::Ret, 4)]) }
        "S15" => { p.fault = 6; p.hats = [4, 0, 1, 1, 9, 1]; p.acts = [3, 1, 1, 1, 14, 2]; p.nacts = (4, 16); p = p.set(&[(K::NetWait, 22), (K::NetReply, 20), (K::NetSend, 5), (K::Sleep, 6), (K::StopThis, 3), (K::Try, 8)]) }
        "S16" => { p.gc_heavy = true; p = p.set(&[(K::SetClo, 10), (K::CallClo, 10), (K::ListMut, 16), (K::SetList, 14), (K::Hof, 9), (K::Foreach, 8), (K::Clone, 7), (K::Delete, 6), (K::Fork, 6), (K::Watch, 4), (K::Sleep, 7), (K::Rpc, 7)]) }
        "S16B" => { p.gc_heavy = true; p.bounded = true; p.segs = 900; p.len = (1, 4); p.scripts = (1, 3); p = p.set(&[(K::SetClo, 8), (K::CallClo, 8), (K::ListMut, 0), (K::SetList, 14), (K::SetAny, 10), (K::Hof, 8), (K::Foreach, 6), (K::Clone, 0), (K::Delete, 0), (K::Fork, 0), (K::Bcast, 4), (K::Watch, 0), (K::Log, 8), (K::Throw, 0), (K::Bad, 0), (K::Try, 4), (K::Forever, 0), (K::SetEnt, 0)]) }
        "S17" => { p.gc_heavy = true; p.init = true; p.fault = 4; p = p.set(&[(K::Bad, 6), (K::Try, 8)]) }
        "S18" => { p.recursive = true; p.small_depth = true; p = p.set(&[(K::Recur, 26), (K::CallFn, 12), (K::CallClo, 14), (K::SetClo, 8), (K::Try, 12), (K::Hof, 6), (K::Warp, 6)]) }
        "S19" => { p.acts = [5, 4, 4, 4, 8, 2]; p.nacts = (3, 14); p = p.set(&[(K::Sleep, 14), (K::Pause, 8), (K::StopAll, 3), (K::StopThis, 6), (K::StopOthers, 2), (K::StopMy, 2), (K::Delete, 4), (K::Clone, 3), (K::BcastWait, 6), (K::Repeat, 16), (K::Throw, 4), (K::Watch, 4)]) }
        "S20" => { p.gc_heavy = true; p = p.set(&[(K::Pause, 14), (K::Watch, 26), (K::Decl, 12), (K::Change, 22), (K::SetNum, 20), (K::SetClo, 8), (K::CallClo, 8), (K::Clone, 4), (K::Delete, 3), (K::CallFn, 10)]) }
        "S21" => { p.fault = 4; p = p.set(&[(K::HostSys, 60), (K::CallFn, 16), (K::CallClo, 12), (K::Try, 16), (K::Throw, 8), (K::Ret, 7), (K::Fork, 6), (K::Bcast, 5), (K::Clone, 4), (K::Hof, 6)]) }
        "S22" => { p.scripts = (2, 7); p = p.set(&[(K::Repeat, 18), (K::For, 18), (K::Foreach, 20), (K::Hof, 24), (K::ListMut, 22), (K::Sleep, 7), (K::SetList, 8), (K::Change, 18), (K::Try, 5), (K::Ret, 4)]) }
        "S23" => { p.init = true; p.pad = true; p.len = (2, 8); p = p.set(&[(K::IfElse, 12), (K::If, 12), (K::Until, 8), (K::For, 6), (K::Foreach, 6), (K::Warp, 6), (K::Try, 8), (K::Rpc, 8), (K::Costume, 3), (K::SetClo, 9), (K::CallClo, 9), (K::Hof, 6)]) }
        "S24" | "S24W" => {
            p.ops = true; p.wild = id == "S24W"; p.init = true; p.scripts = (1, 3); p.len = (4, 10); p.nacts = (0, 4); p.segs = 120; p.hats = [12, 0, 1, 1, 1, 1];
            for x in &mut p.w { *x = 0 }
            p = p.set(&[(K::Log, 40), (K::SetNum, 8), (K::Change, 8), (K::SetAny, 8), (K::Decl, 6), (K::If, 4), (K::Repeat, 3), (K::Foreach, 3), (K::Try, 3), (K::ListMut, 12), (K::SetList, 8), (K::CallFn, 6), (K::SetClo, 3), (K::CallClo, 3), (K::Hof, 5), (K::Clone, 1), (K::SetEnt, 2), (K::OpEx, 130), (K::OpCmd, 50), (K::OpSet, 24), (K::Costume, 5), (K::Sound, 3)])
        }
        "S26" => {
            p.props = 6; p.fault = 1; p.ents = (1, 4); p.scripts = (2, 5);
            p = p.set(&[(K::Prop, 50), (K::Move, 60), (K::Pen, 90), (K::Clone, 10), (K::Delete, 2), (K::CallClo, 8), (K::SetEnt, 8), (K::Try, 10), (K::Sleep, 6), (K::OpSet, 4)])
        }
        "S25" => {
            p.wild = true; p.init = true; p.ents = (1, 4); p.fault = 5; p.acts = [5, 1, 6, 5, 8, 3]; p.time = true;
            p = p.set(&[(K::OpEx, 60), (K::OpCmd, 30), (K::OpSet, 10), (K::Pen, 12), (K::Sound, 12), (K::Costume, 10), (K::ListMut, 12), (K::Try, 16), (K::Bad, 10), (K::Warp, 0), (K::Foreach, 8), (K::Sleep, 9), (K::Prop, 8), (K::Move, 8), (K::HostSys, 3), (K::NetReply, 5), (K::Rpc, 8), (K::Sys, 6), (K::Hof, 8)])
        }
        _ => (),
    }
    // the operators and the less usual commands take part everywhere else too
    if matches!(id, "S09" | "S10" | "S12" | "S13" | "S14" | "S16" | "S17" | "S22" | "S23" | "base") { for (k, v) in [(K::OpEx, 5), (K::OpCmd, 3), (K::Pen, 2), (K::Sound, 2)] { p.w[k as usize] = v } }
    match id { "S10" => p = p.set(&[(K::Pen, 14), (K::Sound, 12), (K::Costume, 8)]), "S23" => p = p.set(&[(K::OpEx, 20), (K::OpCmd, 10), (K::Pen, 6), (K::Sound, 5), (K::OpSet, 3), (K::Costume, 5)]), "S17" => p = p.set(&[(K::OpEx, 12), (K::OpCmd, 6), (K::OpSet, 3), (K::Costume, 8), (K::Sound, 5)]), "S22" => p = p.set(&[(K::OpCmd, 12)]), "S16B" => p = p.set(&[(K::OpEx, 6)]), _ => () }
    p
}

struct G<'a> { r: &'a mut Rng, p: &'a Prof, w: Vec<u32>, vars: Vec<String>, fields: Vec<String>, globals: Vec<String>, ent: usize, nents: usize, funcs: Vec<(String, usize)>, in_func: bool, in_warp: bool, in_clo: bool, budget: i64, clones: i64, uniq: u32, in_hat: Option<Hat>, loops: u32, names: Names }
fn kind(n: &str) -> char {
    let n = n.strip_prefix('f').unwrap_or(n);
    match n.as_bytes()[0] { b'n' | b'x' => 'n', b'l' | b'y' => 'l', b'm' | b'q' => 'm', b'c' | b'z' => 'c', b'e' => 'e', b't' => 't', b'p' => 'p', _ => 'r' }
}
/// The names used in one case: mostly clearly different ones, sometimes ones that are easily confused.
#[derive(Clone)]
struct Names { msgs: [&'static str; 3], nets: [&'static str; 3], cust: [&'static str; 2], keys: [&'static str; 3], chars: [char; 4] }
impl Names {
    fn pick(r: &mut Rng) -> Names {
        let plain = Names { msgs: ["go", "ping", "end"], nets: ["msg", "tick", "data"], cust: ["evt", "other"], keys: ["a", "b", "b"], chars: ['a', 'b', 'c', 'c'] };
        if !r.chance(1, 5) { return plain }
        let mut n = plain;
        n.msgs = *r.pick(&[["go", "Go", "GO"], ["go", "gone", "g"], ["go", "go ", " go"], ["go", "go\n", "go1"], ["go", "og", ""], ["5", "5.0", "05"], ["true", "True", "go"], ["any key", "go", "any msg"], ["éa", "e\u{301}a", "ÉA"]]);
        n.nets = *r.pick(&[["msg", "Msg", "MSG"], ["msg", "msg2", "ms"], ["msg", "msg ", " msg"], ["message", "tick", "data"]]);
        n.cust = *r.pick(&[["evt", "Evt"], ["evt", "evt "], ["evt", "ev"], ["go", "msg"]]);
        let k: ([&str; 3], [char; 4]) = *r.pick(&[(["a", "A", "b"], ['a', 'A', 'b', 'B']), (["space", "a", "enter"], [' ', 'a', '\n', 's']), (["up arrow", "down arrow", "u"], ['\u{1}', '\u{2}', 'u', '\u{3}']), (["left arrow", "right arrow", "0"], ['\u{3}', '\u{4}', '0', 'l']), (["é", "É", "+"], ['é', 'É', '+', 'e'])]);
        n.keys = k.0;
        n.chars = k.1;
        n
    }
}

impl<'a> G<'a> {
    fn b(&mut self, e: Ex) -> B<Ex> { Box::new(e) }
    fn vars_of(&self, k: char) -> Vec<String> { self.vars.iter().chain(&self.fields).chain(&self.globals).filter(|x| kind(x) == k).cloned().collect() }
    fn var(&mut self, k: char) -> Option<String> {
        let loc: Vec<String> = self.vars.iter().filter(|x| kind(x) == k).cloned().collect();
        if !loc.is_empty() && self.r.chance(2, 3) { return Some(self.r.pick(&loc).clone()) }
        let v = self.vars_of(k);
        if v.is_empty() { None } else { Some(self.r.pick(&v).clone()) }
    }
    /// Texts that a compact encoding could confuse: written like numbers, or parts of each other.
    fn coded_text(&mut self) -> String {
        if self.r.chance(1, 2) { return (*self.r.pick(&["007", "+5", "-0", "12 ", "0", "00", "5", "-1", "1.0", "128", "-129", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "1e3", "-", "+", " 7", "٣", "0x5"])).into() }
        let long: Vec<char> = (0..400u32).map(|i| if i % 23 == 7 { 'é' } else { (b'a' + ((i * i * 7 + i / 3 * 5 + i / 29) % 26) as u8) as char }).collect();
        let n = *self.r.pick(&[1, 2, 3, 8, 30, 200, 400]);
        let a = self.r.us(long.len() - n + 1);
        long[a..a + n].iter().collect()
    }
    fn num(&mut self, d: u32) -> Ex {
        if d == 0 || self.r.chance(2, 5) {
            return match self.var('n') { Some(v) if self.r.chance(3, 5) => Ex::V(v), _ => Ex::N(*self.r.pick(&[0.0, 1.0, 2.0, 3.0, 4.0, 5.0, 7.0, 10.0, -1.0, 0.5, 255.0, 256.0, 1000.0, 70000.0])) };
        }
        match self.r.below(12) {
            0..=4 => { let (a, b) = (self.num(d - 1), self.num(d - 1)); Ex::Add(self.b(a), self.b(b)) }
            5..=6 => { let (a, b) = (self.num(d - 1), self.num(d - 1)); Ex::Sub(self.b(a), self.b(b)) }
            7 => { let l = self.list(d - 1); Ex::Len(self.b(l)) }
            8 => { let (c, a, b) = (self.cond(d - 1), self.num(d - 1), self.num(d - 1)); Ex::Cond(self.b(c), self.b(a), self.b(b)) }
            9 if self.p.time || self.r.chance(1, 3) => Ex::Timer,
            10 => match self.var('l') { Some(l) => { let n = self.r.range(1, 3) as f64; if self.r.chance(1, 2) { let l = self.b(Ex::V(l)); Ex::Last(l) } else { let l = self.b(Ex::V(l)); let n = self.b(Ex::N(n)); Ex::Get(l, n) } } None => Ex::N(6.0) },
            _ => Ex::N(self.r.range(-3, 400) as f64),
        }
    }
    /// A value to set or change a property by.
    fn propv(&mut self) -> Ex {
        match self.r.below(8) {
            0 | 1 => self.num(1),
            2 => Ex::S((*self.r.pick(&["12", " 7 ", "-30", "1e2", "abc", "", "0x10"])).into()),
            3 if self.r.chance(1, 3) => self.any(1),
            _ => Ex::N(*self.r.pick(&[0.0, 15.0, 45.0, 90.0, 180.0, 270.0, 359.0, 360.0, 361.0, 720.0, -15.0, -90.0, -360.0, -1000.0, 100.0, 101.0, 99.5, 50.0, 30.0, 0.1, -0.1, 33.25])),
        }
    }
    fn cond(&mut self, d: u32) -> Ex {
        if d == 0 { return Ex::T(self.r.chance(1, 2)) }
        match self.r.below(9) {
            0 => Ex::T(self.r.chance(1, 2)),
            1..=3 => { let (a, b) = (self.num(d - 1), self.num(d - 1)); if self.r.chance(1, 2) { Ex::Lt(self.b(a), self.b(b)) } else { Ex::Gt(self.b(a), self.b(b)) } }
            4..=5 => { let (a, b) = (self.num(d - 1), self.num(d - 1)); Ex::Eq(self.b(a), self.b(b)) }
            6 => { let a = self.cond(d - 1); Ex::Not(self.b(a)) }
            7 => { let (a, b) = (self.cond(d - 1), self.cond(d - 1)); if self.r.chance(1, 2) { Ex::And(self.b(a), self.b(b)) } else { Ex::Or(self.b(a), self.b(b)) } }
            _ => { let (a, b) = (self.any(0), self.any(0)); Ex::Same(self.b(a), self.b(b)) }
        }
    }
    fn text(&mut self, d: u32) -> Ex {
        if self.p.pad && self.r.chance(1, 3) { return Ex::S(self.coded_text()) }
        if d == 0 || self.r.chance(1, 2) { return Ex::S(self.r.pick(&["", "a", "hello", "abc def", "12", "go", "x1", "émoji ✓", "peer"]).to_string()) }
        match self.r.below(5) {
            0..=2 => { let n = self.r.us(3); let mut v = vec![]; for _ in 0..=n { let e = if self.r.chance(1, 2) { self.num(d - 1) } else { self.text(d - 1) }; v.push(e) } Ex::Cat(v) }
            3 => Ex::Msg,
            _ => match self.var('t') { Some(v) => Ex::V(v), None => Ex::Answer },
        }
    }
    fn list(&mut self, d: u32) -> Ex {
        if d == 0 || self.r.chance(1, 2) { if let Some(v) = self.var('l') { return Ex::V(v) } }
        let d = d.saturating_sub(1);
        match self.r.below(8) {
            0 => { let l = self.list(d); Ex::Cdr(self.b(l)) }
            1 => { let (x, l) = (self.num(d), self.list(d)); Ex::Cons(self.b(x), self.b(l)) }
            2 => { let l = self.list(d); Ex::Copy(self.b(l)) }
            _ => { let n = self.r.us(5); Ex::L((0..n).map(|_| self.num(d)).collect()) }
        }
    }
    fn ent_ex(&mut self) -> Ex {
        match self.r.below(5) {
            0 | 1 => Ex::This,
            2 => match self.var('e') { Some(v) => Ex::V(v), None => Ex::This },
            _ => { let n = self.r.us(self.nents); Ex::Ent(ent_name(n)) }
        }
    }
    fn any(&mut self, d: u32) -> Ex {
        match self.r.below(14) {
            0..=3 => self.num(d), 4..=5 => self.text(d), 6 => self.cond(d), 7 => self.list(d),
            8 => match self.var('r') { Some(v) => Ex::V(v), None => self.num(d) },
            9 => match self.var('m') { Some(v) => Ex::V(v), None => self.text(d) },
            10 => match self.var('c') { Some(v) => Ex::V(v), None => self.num(d) },
            11 => self.ent_ex(),
            12 => match self.r.below(5) { 0 => Ex::Answer, 1 => Ex::RpcErr, 2 => Ex::SysErr, 3 if self.r.chance(1, 3) => Ex::UnixMs, _ => Ex::Msg },
            _ => { let n = self.r.us(3); Ex::L((0..n).map(|_| self.any(0)).collect()) }
        }
    }
    fn odd_num(&mut self) -> f64 { *self.r.pick(&[0.0, 1.0, 2.0, 3.0, 4.0, 5.0, -1.0, -2.0, -5.0, 0.5, 1.5, 2.5, -2.5, 0.1, 1e-7, 10.0, 90.0, 360.0, -360.0, 7.25, 100.0, 1e6, 1e10, 123456789.125, 1e15, 1e16, -1e16, 1e300, 65.0, 9731.0, 55296.0, 1114112.0]) }
    fn odd_text(&mut self) -> String { (*self.r.pick(&["", " ", "a", "A", "abc", "ABC", "hello world", "5", "05", "5.0", " 5 ", "-3", "+7", "1e2", ".5", "0x1F", "0b101", "0o17", "0xZZ", "inf", "nan", "-0", "x,y", "a,b\nc,d", "\"q\"\"r\",2", "\"bad", "line1\nline2", "one\ttwo", "cr\rcr", "[1,2,[3]]", "{\"a\":1,\"b\":[true]}", "null", "émoji ✓", "e\u{301}x", "ßtraße", "true", "C4", "Eb3", "f#5", "aa", "don't stop", "🇩🇪x", "2\u{fe0f}\u{20e3}", "नमस्ते", "👨\u{200d}👩\u{200d}👧", "ab क्षि"])).to_string() }
    /// An operand of any shape.
    fn val(&mut self, d: u32) -> Ex {
        match self.r.below(30) {
            0..=6 => Ex::N(self.odd_num()), 7..=10 => Ex::S(self.odd_text()),
            11..=15 => match self.var('p') { Some(v) => Ex::V(v), None => self.any(1) },
            16 | 17 => { let k = *self.r.pick(&['m', 'l']); match self.var(k) { Some(v) => Ex::V(v), None => self.any(1) } }
            18..=20 if d > 0 => { let n = self.r.us(4); Ex::L((0..n).map(|_| self.val(d - 1)).collect()) }
            21 => Ex::Lit(self.lit(2)),
            22 => Ex::T(self.r.chance(1, 2)),
            23 | 24 if d > 0 => { let e = self.opex(d - 1); e }
            25 => self.any(1),
            26 => Ex::Op("CostumeList".into(), vec![]),
            27 => { let b = Box::new(Ex::Op("SoundList".into(), vec![])); Ex::Last(b) }
            _ => self.numv(d),
        }
    }
    fn lit(&mut self, d: u32) -> Lit { match self.r.below(if d > 0 { 6 } else { 4 }) { 0 | 1 => Lit::N(self.odd_num()), 2 => Lit::S(self.odd_text()), 3 => if self.r.chance(1, 3) { Lit::T(true) } else { Lit::N(self.r.range(0, 9) as f64) }, _ => { let n = self.r.us(4); Lit::L((0..n).map(|_| self.lit(d - 1)).collect()) } } }
    /// An operand that mostly consists of numbers, in any nesting.
    fn numv(&mut self, d: u32) -> Ex {
        match self.r.below(16) {
            0..=5 => Ex::N(self.odd_num()), 6 => Ex::N(self.r.range(-20, 20) as f64 / 4.0), 7 => Ex::S((*self.r.pick(&["5", " 12 ", "-1.5", "1e3", "0x10", "0"])).into()),
            8..=10 => { let n = self.r.us(4); Ex::L((0..n).map(|_| if d > 0 { self.numv(d - 1) } else { Ex::N(self.r.range(-9, 9) as f64) }).collect()) }
            11 | 12 => match self.var('l') { Some(v) => Ex::V(v), None => Ex::N(3.0) },
            13 => match self.var('p') { Some(v) => Ex::V(v), None => Ex::N(2.0) },
            _ => self.num(1),
        }
    }
    fn textv(&mut self, d: u32) -> Ex { match self.r.below(8) { 0..=4 => Ex::S(self.odd_text()), 5 => self.numv(0), 6 => { let n = self.r.us(4); Ex::L((0..n).map(|_| if d > 0 { self.textv(d - 1) } else { Ex::S(self.odd_text()) }).collect()) } _ => self.val(d) } }
    fn listv(&mut self, d: u32) -> Ex {
        match self.r.below(12) {
            0..=3 => match self.var('p') { Some(v) => Ex::V(v), None => self.list(1) }, 4 | 5 => { let k = *self.r.pick(&['m', 'l']); match self.var(k) { Some(v) => Ex::V(v), None => self.list(1) } }
            6 | 7 => { let n = self.r.us(5); Ex::L((0..n).map(|_| self.val(d.saturating_sub(1))).collect()) }
            8 => { let (n, m) = (self.r.us(4), self.r.us(4)); Ex::L((0..n).map(|_| { let k = if self.r.chance(1, 4) { self.r.us(4) } else { m }; Ex::L((0..k).map(|_| Ex::N(self.r.range(-9, 9) as f64)).collect()) }).collect()) }
            9 => Ex::Lit({ let n = self.r.us(4); Lit::L((0..n).map(|_| self.lit(1)).collect()) }),
            10 if d > 0 => self.val(d - 1),
            _ => self.list(1),
        }
    }
    fn indexv(&mut self, l: &Ex) -> Ex {
        match self.r.below(12) {
            0..=4 => Ex::N(self.r.range(1, 4) as f64), 5 => Ex::S((*self.r.pick(&["1", "2", " 3", "x", "last"])).into()),
            6..=8 => { let n = self.r.us(5); Ex::L((0..n).map(|_| if self.r.chance(1, 5) { Ex::L(vec![Ex::N(self.r.range(1, 3) as f64), Ex::N(1.0)]) } else { Ex::N(self.r.range(1, 4) as f64) }).collect()) }
            9 => l.clone(), 10 => Ex::L(vec![l.clone()]),
            _ => self.val(0),
        }
    }
    fn opex(&mut self, d: u32) -> Ex {
        let odd = self.r.chance(1, 9);
        macro_rules! num { () => { if odd { self.val(d) } else { self.numv(d) } } }
        macro_rules! txt { () => { if odd { self.val(d) } else { self.textv(d) } } }
        macro_rules! lst { () => { if odd { self.val(d) } else { self.listv(d) } } }
        let o = |n: &str, xs: Vec<Ex>| Ex::Op(n.to_string(), xs);
        match self.r.below(40) {
            0..=2 => { let n = *self.r.pick(&["Neg", "Abs", "Sqrt", "Floor", "Ceil", "Round", "Sin", "Cos", "Tan", "Asin", "Acos", "Atan"]); let a = num!(); o(n, vec![a]) }
            3..=7 => { let n = *self.r.pick(&["Div", "Mod", "Mod", "Pow", "Log", "Atan2"]); let (a, b) = (num!(), num!()); o(n, vec![a, b]) }
            8 | 9 => { let (a, b) = (num!(), num!()); let (a, b) = (Box::new(a), Box::new(b)); if self.r.chance(1, 2) { Ex::Add(a, b) } else { Ex::Sub(a, b) } }
            10..=12 => { let n = *self.r.pick(&["AddN", "MulN", "MinN", "MaxN"]); let k = self.r.us(4); let v = (0..k).map(|_| num!()).collect(); o(n, v) }
            13 => { let n = *self.r.pick(&["AddL", "MulL", "MinL", "MaxL", "CatL"]); let a = lst!(); o(n, vec![a]) }
            14..=16 => { let (a, b) = match self.r.below(4) { 0 => (num!(), num!()), 1 => (txt!(), txt!()), 2 => (lst!(), lst!()), _ => (self.val(d), self.val(d)) }; match self.r.below(7) { 0 => o("Neq", vec![a, b]), 1 => o("LessEq", vec![a, b]), 2 => o("GreaterEq", vec![a, b]), 3 => Ex::Lt(Box::new(a), Box::new(b)), 4 => Ex::Gt(Box::new(a), Box::new(b)), 5 => Ex::Same(Box::new(a), Box::new(b)), _ => Ex::Eq(Box::new(a), Box::new(b)) } }
            17 => { let (a, b) = match self.r.below(3) { 0 => (Ex::N(self.r.range(-3, 6) as f64), Ex::N(self.r.range(-3, 9) as f64)), 1 => (Ex::N(self.r.range(-6, 12) as f64 / 4.0), num!()), _ => (num!(), num!()) }; if self.r.chance(1, 12) { let k = self.r.range(-2, 3) as f64; let s = if self.r.chance(1, 2) { 1.0 } else { -1.0 }; let big = *self.r.pick(&[18014398509481984.0, 36028797018963968.0, 1e18, 1e300, f64::MAX]); o("Range", vec![Ex::N(big * s), Ex::N(*self.r.pick(&[big * s + k * 1024.0, 0.0, big * s, -big]))]) } else if self.r.chance(1, 2) { o("Range", vec![a, b]) } else if self.r.chance(1, 10) { let big = |r: &mut crate::rng::Rng| { let x = *r.pick(&[9007199254740992.0, 1e17, 1e19, 2e19, 1e300, f64::MAX]); Ex::N(if r.chance(1, 3) { -x } else { x }) }; let x = big(&mut self.r); let y = if self.r.chance(1, 3) { b } else { big(&mut self.r) }; if self.r.chance(1, 2) { o("Random", vec![x, y]) } else { o("Random", vec![y, x]) } } else { o("Random", vec![a, b]) } }
            18 | 19 => { let n = *self.r.pick(&["StrLen", "StrGetLast", "StrGetRandom", "CharToUnicode", "SplitLetter", "SplitWord", "SplitTab", "SplitCR", "SplitLF", "SplitCsv", "SplitCsv", "SplitJson", "SplitJson"]); let a = txt!(); o(n, vec![a]) }
            20 => { let n = *self.r.pick(&["StrGet", "SplitBy"]); let t = txt!(); if n == "StrGet" { let i = if self.r.chance(2, 3) { Ex::N(self.r.range(1, 4) as f64) } else { num!() }; o(n, vec![i, t]) } else { let p = if self.r.chance(2, 3) { Ex::S((*self.r.pick(&["", ",", "a", "l", " ", "5"])).into()) } else { txt!() }; o(n, vec![t, p]) } }
            21 => { let n = "UnicodeToChar"; let a = num!(); o(n, vec![a]) }
            22..=26 => { let n = *self.r.pick(&["ListRank", "ListDims", "ListFlatten", "ListColumns", "ListRev", "ListLines", "ListCsv", "ListJson", "ListIsEmpty", "GetRandom"]); let a = lst!(); o(n, vec![a]) }
            27 => { let (l, v) = (lst!(), if self.r.chance(1, 2) { Ex::N(self.r.range(1, 5) as f64) } else { self.val(d) }); if self.r.chance(1, 2) { o("Find", vec![v, l]) } else { o("Contains", vec![l, v]) } }
            28 | 29 => { let l = lst!(); let i = self.indexv(&l); Ex::Get(Box::new(l), Box::new(i)) }
            30 => { let l = Box::new(lst!()); match self.r.below(5) { 0 => Ex::Last(l), 1 => Ex::Len(l), 2 => Ex::Cdr(l), 3 => Ex::Copy(l), _ => { let x = self.val(d); Ex::Cons(Box::new(x), l) } } }
            31 => { let k = self.r.us(4); let v: Vec<Ex> = (0..k).map(|_| lst!()).collect(); if self.r.chance(1, 2) { o("ListCatN", v) } else { let l = lst!(); o("ListCatL", vec![if self.r.chance(2, 3) { Ex::L(v) } else { l }]) } }
            32 => { let mut v = vec![lst!()]; let k = self.r.us(4); for _ in 0..k { v.push(if self.r.chance(5, 6) { Ex::N(self.r.range(0, 4) as f64) } else { self.val(0) }) } if self.r.chance(2, 3) { o("ReshapeN", v) } else { let l = Ex::L(v.split_off(1)); v.push(l); o("ReshapeL", v) } }
            33 => { let k = self.r.us(4); let mut v: Vec<Ex> = (0..k).map(|_| lst!()).collect(); if self.r.chance(1, 10) { let n = self.r.us(8); for _ in 0..n { v.push(o("Range", vec![Ex::N(1.0), Ex::N(900.0)])) } let i = self.r.us(v.len() + 1); v.insert(i, Ex::L(vec![])) } if self.r.chance(1, 2) { o("CombN", v) } else { o("CombL", vec![Ex::L(v)]) } }
            34 => { let a = if self.r.chance(1, 2) { self.cond(1) } else { let k = self.r.us(3); Ex::L((0..k).map(|_| self.cond(1)).collect()) }; Ex::Not(Box::new(a)) }
            35 => { let t = *self.r.pick(&["Number", "Text", "Bool", "List", "Sprite", "Costume", "Sound"]); let a = self.val(d); o(&format!("Is:{t}"), vec![a]) }
            36 => { let n = *self.r.pick(&["Costume", "CostumeNumber", "CostumeList", "CostumeName", "SoundList", "SoundName"]); let v = if n.ends_with("Name") { vec![match self.r.below(4) { 0 => Ex::S((*self.r.pick(&["cost0", "cost1", "snd0", "", "none"])).into()), 1 => o("Costume", vec![]), 2 => Ex::Last(Box::new(o(if n.starts_with('S') { "SoundList" } else { "CostumeList" }, vec![]))), _ => self.val(0) }] } else { vec![] }; o(n, v) }
            37 => { let q = *self.r.pick(&["Year", "Month", "Date", "DayOfWeek", "Hour", "Minute", "Second"]); if self.r.chance(1, 3) { o(if self.r.chance(1, 2) { "Pi" } else { "E" }, vec![]) } else { o(&format!("RT:{q}"), vec![]) } }
            38 => { let k = self.r.us(4); Ex::Cat((0..k).map(|_| if self.r.chance(1, 2) { self.textv(d) } else { self.val(d) }).collect()) }
            _ => { let a = self.val(d); Ex::Len(Box::new(a)) }
        }
    }
    fn opcmd(&mut self) -> St {
        let l = if self.r.chance(1, 12) { self.val(1) } else { match { let k = *self.r.pick(&['p', 'p', 'l', 'm']); self.var(k) } { Some(v) => Ex::V(v), None => self.list(0) } };
        let v = if self.r.chance(1, 8) { l.clone() } else { self.val(1) };
        match self.r.below(10) {
            0 | 1 => { let i = self.indexv(&l); St::Op("Insert".into(), vec![v, i, l]) }
            2 => St::Op("InsertRandom".into(), vec![v, l]),
            3 => St::Op("RemoveLast".into(), vec![l]),
            4 => St::Op("AssignLast".into(), vec![l, v]),
            5 => St::Op("AssignRandom".into(), vec![l, v]),
            6 | 7 => { let i = self.indexv(&l); St::SetItem(l, i, v) }
            8 => { let i = self.indexv(&l); St::Remove(l, i) }
            _ => St::Push(l, v),
        }
    }
    fn effect(&mut self) -> &'static str { *self.r.pick(&["ColorH", "ColorS", "ColorV", "ColorT", "Fisheye", "Whirl", "Pixelate", "Mosaic", "Negative"]) }
    fn penattr(&mut self) -> &'static str { *self.r.pick(&["PenSize", "PenColorH", "PenColorS", "PenColorV", "PenColorT"]) }
    fn sound_ex(&mut self) -> Ex { match self.r.below(8) { 0..=2 => Ex::S((*self.r.pick(&["snd0", "snd1", "snd2", "", "none"])).into()), 3..=5 => Ex::Last(Box::new(Ex::Op("SoundList".into(), vec![]))), _ => self.any(1) } }
    fn note_ex(&mut self) -> Ex { match self.r.below(9) { 0..=2 => Ex::N(self.r.range(0, 127) as f64), 3 => Ex::N(*self.r.pick(&[128.0, -1.0, 60.5, 316.0, 256.0, 1e9, 127.0, 0.0])), 4 | 5 => Ex::S((*self.r.pick(&["C4", "A0", "C8", "Eb3", "f#5", " g4 ", "Bbb2", "C-1", "Cn4", "E♭4", "C4#", "H4", "C", "4C", "C44", "C+4", "G9", "G#9", "B99", "C2147483647", "C-2147483648", "C99999999999", "60", ""])).into()), 6 => { let n = self.r.us(4); Ex::L((0..n).map(|_| Ex::N(self.r.range(20, 120) as f64)).collect()) } _ => self.any(1) } }
    fn bad(&mut self) -> Ex {
        match self.r.below(7) {
            0 => { let a = self.b(Ex::S("word".into())); let b = self.b(Ex::N(1.0)); Ex::Add(a, b) }
            1 => Ex::V("missing".into()),
            2 => { let l = self.list(0); let i = self.b(Ex::N(99.0)); Ex::Get(self.b(l), i) }
            3 => { let n = self.b(Ex::N(4.0)); Ex::Len(n) }
            4 => Ex::Ent("nobody".into()),
            5 => { let l = self.b(Ex::L(vec![])); Ex::Last(l) }
            _ => { let c = self.b(Ex::N(1.0)); let a = self.num(0); let b = self.num(0); Ex::Cond(c, self.b(a), self.b(b)) }
        }
    }
    /// A closure with `n` numeric parameters.
    fn clo(&mut self, n: usize, want: char) -> Ex {
        let params: Vec<String> = (0..n).map(|i| if self.p.shadow && self.r.chance(1, 3) { "n0".to_string() } else { format!("xp{}", i as u32 + 2 * (self.uniq % 2)) }).collect();
        self.uniq += 1;
        let mut caps: Vec<String> = vec![];
        for v in self.vars.clone() { if self.r.chance(2, 3) && !caps.contains(&v) { caps.push(v) } }
        if self.r.chance(1, 6) { if let Some(v) = self.var('n') { if !caps.contains(&v) { caps.push(v) } } }
        let saved = (std::mem::take(&mut self.vars), self.in_func, self.in_clo, self.in_warp, self.w[K::Forever as usize]);
        self.vars = caps.clone();
        self.vars.extend(params.iter().cloned());
        self.in_func = true;
        self.in_clo = true;
        if self.r.chance(5, 6) { self.w[K::Forever as usize] = 0 }
        let len = if self.budget <= 0 { 1 } else { self.r.range(1, 3) };
        let mut b = if want == 'b' || want == 'n' { let n = self.r.us(2) as i64; self.body_n(1, n) } else { self.body_n(1, len) };
        let ret = match want { 'b' => self.cond(2), 'n' => self.num(2), _ => self.any(1) };
        if want != ' ' && self.r.chance(19, 20) || self.r.chance(1, 2) { b.push(self.st(St::Ret(ret))) }
        (self.vars, self.in_func, self.in_clo, self.in_warp, self.w[K::Forever as usize]) = saved;
        Ex::Clo { params, caps, body: Rc::new(b) }
    }
    fn clo_ex(&mut self, n: usize, want: char) -> Ex {
        if want == ' ' && self.r.chance(3, 4) {
            let name = if n == 0 { "c0" } else { "c1" };
            let v = self.vars_of('c');
            let v: Vec<_> = v.into_iter().filter(|x| x.ends_with(&name[1..])).collect();
            if !v.is_empty() { return Ex::V(self.r.pick(&v).clone()) }
        }
        self.clo(n, want)
    }
    fn st(&self, k: St) -> Stm { Stm { id: 0, k } }
    fn body(&mut self, d: u32) -> Body {
        let n = if d == 0 || self.budget <= 0 { 1 } else { self.r.range(1, 3) };
        let keep = self.vars.len();
        let b = self.body_n(d, n);
        if self.r.chance(4, 5) { self.vars.truncate(keep) }
        Rc::new(b)
    }
    fn body_n(&mut self, d: u32, n: i64) -> Vec<Stm> {
        let mut out = vec![];
        for _ in 0..n { let s = self.stmt(d); out.extend(s) }
        out
    }
    fn local(&mut self, k: char) -> String {
        let shadow = self.p.shadow && self.r.chance(1, 2);
        let i = self.r.below(2);
        match (k, shadow) {
            ('n', false) => format!("x{i}"), ('n', true) => (*self.r.pick(&["n0", "n1", "fn0"])).into(),
            ('l', false) => format!("y{i}"), ('l', true) => "l0".into(),
            ('c', _) => format!("z{i}"), ('r', false) => format!("w{i}"), ('r', true) => "r0".into(),
            ('e', _) => "ee0".into(), ('t', _) => format!("t{i}"), _ => format!("q{i}"),
        }
    }
    fn log(&mut self) -> Stm {
        let n = self.r.us(3);
        let xs = (0..n).map(|_| if self.r.chance(2, 3) { match self.r.below(4) { 0 => self.num(1), 1 => self.any(1), _ => match { let v: Vec<String> = self.vars.iter().chain(&self.globals).chain(&self.fields).cloned().collect(); if v.is_empty() { None } else { Some(self.r.pick(&v).clone()) } } { Some(v) => Ex::V(v), None => self.num(1) } } } else { self.any(1) }).collect();
        self.st(St::Log(xs))
    }
    fn dst(&mut self, pre: bool) -> (String, Vec<Ex>) {
        let v = self.var('r').unwrap_or_else(|| "r0".into());
        let p = if pre && self.r.chance(1, 4) { let n = self.r.range(1, 3); (0..n).map(|_| self.any(1)).collect() } else { vec![] };
        (v, p)
    }
    fn let_or_do(&mut self, e: Eff) -> Stm {
        let can_do = !matches!(e, Eff::Prop(_) | Eff::Get(_) | Eff::NetWait { .. } | Eff::Map { .. } | Eff::Keep { .. } | Eff::Find { .. } | Eff::Combine { .. });
        if can_do && self.r.chance(1, 3) { return self.st(St::Do(e)) }
        let (var, pre) = self.dst(true);
        self.st(St::Let { var, pre, eff: e })
    }
    fn named(&mut self, max: usize) -> Vec<(String, Ex)> {
        let n = self.r.us(max + 1);
        (0..n).map(|i| { let k = if self.r.chance(1, 10) { "k0".to_string() } else { format!("k{i}") }; let v = match self.r.below(8) { 0 => self.list(1), 1 => self.cond(1), 2 if self.r.chance(1, 3) => self.any(1), 3 => self.text(1), _ => self.num(1) }; (k, v) }).collect()
    }
    fn stmt(&mut self, d: u32) -> Vec<Stm> {
        self.budget -= 1;
        let mut k = loop {
            let k = self.r.weighted(&self.w);
            if (k == K::Ret as usize || k == K::StopBlock as usize) && !self.in_func && self.r.chance(3, 4) { continue }
            if k == K::Clone as usize { if self.clones <= 0 { continue } if self.loops > 0 && self.r.chance(3, 4) { continue } self.clones -= 1 }
            break k;
        };
        let compound = [K::If, K::IfElse, K::Repeat, K::Forever, K::Until, K::For, K::Foreach, K::Warp, K::Try].iter().any(|x| *x as usize == k);
        if compound && (d == 0 || self.budget <= 0) { k = K::Log as usize }
        if self.loops > 2 && [K::Repeat, K::For, K::Foreach, K::Hof, K::CallFn].iter().any(|x| *x as usize == k) { k = K::Change as usize }
        let k: K = unsafe_k(k);
        let mut out = vec![];
        macro_rules! push { ($x:expr) => {{ let x = $x; out.push(self.st(x)) }} }
        macro_rules! in_loop { ($x:expr) => {{ self.loops += 1; let b = $x; self.loops -= 1; b }} }
        match k {
            K::Log | K::N => out.push(self.log()),
            K::SetNum => { let v = self.var('n').unwrap(); let e = self.num(2); push!(St::Set(v, e)) }
            K::Change => { let v = self.var('n').unwrap(); let e = if self.r.chance(2, 3) { Ex::N(self.r.range(1, 9) as f64) } else { self.num(1) }; push!(St::Change(v, e)) }
            K::SetAny => { let v = self.var('r').unwrap(); let e = self.any(2); push!(St::Set(v, e)) }
            K::Decl => {
                let kd = *self.r.pick(&['n', 'n', 'n', 'l', 'r', 'c', 't']);
                let v = self.local(kd);
                push!(St::Decl(vec![v.clone()]));
                if !self.vars.contains(&v) { self.vars.push(v.clone()) }
                if self.r.chance(4, 5) {
                    let e = match kd { 'n' => self.num(1), 'l' => { let n = self.r.us(4); Ex::L((0..n).map(|_| self.num(0)).collect()) } 'c' => self.clo(if v.ends_with('0') { 0 } else { 1 }, ' '), 't' => self.text(1), _ => self.any(1) };
                    push!(St::Set(v, e))
                } else if self.r.chance(1, 2) { push!(St::Log(vec![Ex::V(v)])) }
            }
            K::If => { let c = self.cond(2); let b = self.body(d - 1); push!(St::If(c, b)) }
            K::IfElse => { let c = self.cond(2); let b = self.body(d - 1); let e = self.body(d - 1); push!(St::IfElse(c, b, e)) }
            K::Repeat => { let n = if self.r.chance(5, 6) { Ex::N(self.r.range(0, 5) as f64) } else { Ex::N(*self.r.pick(&[0.5, -1.0, 2.5, 12.0])) }; let b = in_loop!(self.body(d - 1)); push!(St::Repeat(n, b)) }
            K::Forever => if self.in_warp { out.push(self.log()) } else { let b = in_loop!(self.body(d - 1)); push!(St::Forever(b)) },
            K::Until => {
                // bounded by a counter that only this loop advances, most of the time
                let v = self.var('n').unwrap();
                let n = self.r.range(1, 6) as f64;
                let (a, c) = (self.b(Ex::V(v.clone())), self.b(Ex::N(n)));
                let mut b = in_loop!((*self.body(d - 1)).clone());
                b.push(self.st(St::Change(v.clone(), Ex::N(1.0))));
                if self.r.chance(2, 3) { push!(St::Set(v, Ex::N(0.0))) }
                push!(St::Until(Ex::Gt(a, c), Rc::new(b)))
            }
            K::WaitUntil => if self.in_warp && self.r.chance(5, 6) { out.push(self.log()) } else { let c = if self.r.chance(1, 2) { let t = self.b(Ex::Timer); let n = self.num(0); Ex::Gt(t, self.b(n)) } else { self.cond(2) }; push!(St::WaitUntil(c)) },
            K::For => { let v = self.local('n'); let (a, z) = (Ex::N(self.r.range(-1, 4) as f64), if self.r.chance(4, 5) { Ex::N(self.r.range(-1, 5) as f64) } else { Ex::N(3.5) }); let had = self.vars.contains(&v); self.vars.push(v.clone()); let b = in_loop!(self.body(d - 1)); if had { self.vars.pop(); } push!(St::For(v, a, z, b)) }
            K::Foreach => { let num = self.r.chance(2, 3); let v = self.local(if num { 'n' } else { 'r' }); let l = if num { self.list(1) } else { match self.var('m') { Some(m) => Ex::V(m), None => self.list(1) } }; self.vars.push(v.clone()); let b = in_loop!(self.body(d - 1)); push!(St::Foreach(v, l, b)) }
            K::Warp => { let s = self.in_warp; self.in_warp = true; let b = self.body(d - 1); self.in_warp = s; push!(St::Warp(b)) }
            K::Try => { let mut b = (*self.body(d - 1)).clone(); if self.r.chance(1, 3) { let e = self.text(1); let s = self.st(St::Throw(e)); b.push(s) } let v = self.local('t'); let had = self.vars.contains(&v); if !had { self.vars.push(v.clone()) } let mut h = (*self.body(d - 1)).clone(); if self.r.chance(1, 2) { h.insert(0, self.st(St::Log(vec![Ex::V(v.clone())]))) } push!(St::Try { body: Rc::new(b), var: v, handler: Rc::new(h) }) }
            K::Throw => { let e = self.text(2); if self.r.chance(1, 2) { let c = self.cond(2); let t = self.st(St::Throw(e)); push!(St::If(c, Rc::new(vec![t]))) } else { push!(St::Throw(e)) } }
            K::Bad => { let e = self.bad(); let v = self.var('r').unwrap(); match self.r.below(4) { 0 => push!(St::Log(vec![e])), 1 => push!(St::If(e, Rc::new(vec![]))), 2 => { let l = self.any(0); push!(St::Push(l, e)) } _ => push!(St::Set(v, e)) } }
            K::Ret => { let e = self.any(1); if self.r.chance(1, 2) { let c = self.cond(1); let s = self.st(St::Ret(e)); push!(St::If(c, Rc::new(vec![s]))) } else { push!(St::Ret(e)) } }
            K::Bcast | K::BcastWait => {
                let msg = match self.r.below(12) { 0 => { let mut v = Ex::Cat(vec![Ex::S("g".into()), Ex::S("o".into())]); if self.r.chance(1, 2) { v = Ex::N(5.0) } v } 1 => self.any(1), _ => Ex::S((*self.r.pick(&self.names.msgs)).into()) };
                let target = match self.r.below(6) { 0 => Some(self.ent_ex()), 1 => { let n = if self.r.chance(1, 2) { self.r.us(3) } else { self.r.us(7) }; Some(Ex::L((0..n).map(|_| self.ent_ex()).collect())) } 2 if self.r.chance(1, 8) => Some(self.any(1)), _ => None };
                push!(St::Bcast { msg, target, wait: k == K::BcastWait })
            }
            K::StopAll => self.guard(&mut out, St::Stop(StopMode::All)),
            K::StopThis => self.guard(&mut out, St::Stop(StopMode::This)),
            K::StopBlock => self.guard(&mut out, St::Stop(StopMode::Block)),
            K::StopOthers => self.guard(&mut out, St::Stop(StopMode::Others)),
            K::StopMy => self.guard(&mut out, St::Stop(StopMode::MyOthers)),
            K::Sleep => { let e = match self.r.below(12) { 0 => Ex::N(0.0), 1 => Ex::N(-1.0), 2 if self.p.time => Ex::N(*self.r.pick(&[1e9, 1e17, 1e30, 1e300])), 3 => self.num(1), 4 => Ex::N(1.0), 5 => Ex::N(0.0004), _ => Ex::N(self.r.range(1, 60) as f64 / 1000.0) }; push!(St::Sleep(e)) }
            K::Clone => { let e = self.ent_ex(); let eff = Eff::Clone(e); match self.var('e') { Some(v) if self.r.chance(2, 3) => push!(St::Let { var: v, pre: vec![], eff }), _ => { let s = self.let_or_do(eff); out.push(s) } } }
            K::Delete => self.guard(&mut out, St::Delete),
            K::Fork => { let n = self.r.us(2); let clo = self.clo_ex(n, ' '); let args = (0..n).map(|_| self.num(1)).collect(); push!(St::Fork { clo, args }) }
            K::NetSend | K::NetWait => {
                let target = match self.r.below(6) { 0 => { let n = self.r.us(3); Ex::L((0..n).map(|i| Ex::S(format!("peer{i}"))).collect()) } 1 if self.r.chance(1, 4) => self.any(1), 2 => Ex::S("everyone in room".into()), _ => Ex::S("peer".into()) };
                let vals = self.named(3);
                let ty = (*self.r.pick(&self.names.nets)).to_string();
                if k == K::NetSend { push!(St::NetSend { target, ty, vals }) } else { let (var, pre) = self.dst(true); push!(St::Let { var, pre, eff: Eff::NetWait { target, ty, vals } }) }
            }
            K::NetReply => { let e = if self.r.chance(1, 10) { self.any(1) } else { self.num(1) }; push!(St::NetReply(e)) }
            K::Rpc => { let args = self.named(3); let host = if self.r.chance(1, 6) { Some("srv".to_string()) } else { None }; let e = Eff::Rpc { host, service: (*self.r.pick(&["Maps", "Data"])).into(), rpc: (*self.r.pick(&["find", "get"])).into(), args }; let s = self.let_or_do(e); out.push(s) }
            K::Sys => { let n = self.r.us(3); let args = (0..n).map(|_| self.any(1)).collect(); let name = (*self.r.pick(&["read", "open"])).into(); let s = self.let_or_do(Eff::Sys { name, args }); out.push(s) }
            K::HostSys => {
                let name = *self.r.pick(&["hpush", "hpush", "hget", "hget", "hpop", "htag"]);
                let args = match name { "hpush" | "htag" => vec![self.num(1)], _ => vec![] };
                if name == "hget" { push!(St::Let { var: "r0".into(), pre: vec![], eff: Eff::Sys { name: name.into(), args } }); push!(St::Log(vec![Ex::V("r0".into())])) } else { let s = self.let_or_do(Eff::Sys { name: name.into(), args }); out.push(s) }
            }
            K::Say => { let v = self.any(1); let dur = if self.r.chance(1, 4) { Some(Ex::N(self.r.range(0, 40) as f64 / 1000.0)) } else { None }; let think = self.r.chance(1, 3); push!(St::Say { think, v, dur }) }
            K::Ask => { let v = self.text(1); push!(St::Ask(v)); if self.r.chance(2, 3) { push!(St::Log(vec![Ex::Answer])) } }
            K::Prop => { let p = self.r.below(6) as u8; let s = self.let_or_do(Eff::Prop(p)); out.push(s) }
            K::Move => match self.r.below(7) {
                0 | 1 => { let p = self.r.below(4) as u8; let e = self.propv(); push!(St::SetProp(p, e)) }
                2 => { let p = self.r.below(4) as u8; let e = self.propv(); push!(St::ChProp(p, e)) }
                3 => { let (x, y) = (self.num(1), self.num(1)); push!(St::Goto(x, y)) }
                4 => { let e = if self.r.chance(1, 2) { self.ent_ex() } else { Ex::L(vec![self.num(0), self.num(0)]) }; push!(St::GotoEnt(e)) }
                5 => { let e = self.num(1); push!(St::Forward(e)) }
                _ => push!(if self.r.chance(1, 2) { St::ClearEffects } else { St::StopSounds }),
            },
            K::ResetTimer => push!(St::ResetTimer),
            K::Pause => push!(St::Pause),
            K::Watch => { let kd = *self.r.pick(&['n', 'n', 'r', 'l']); let v = self.var(kd).unwrap_or_else(|| "n0".into()); push!(if self.r.chance(3, 4) { St::Show(v) } else { St::Hide(v) }) }
            K::ListMut => {
                let mixed = self.r.chance(1, 4);
                let l = if mixed { self.var('m') } else { self.var('l') };
                let l = Ex::V(l.unwrap_or_else(|| "l0".into()));
                match self.r.below(8) {
                    0..=3 => { let v = if mixed { self.any(1) } else { self.num(1) }; push!(St::Push(l, v)) }
                    4 | 5 => { let i = Ex::N(self.r.range(1, 3) as f64); let v = if mixed { self.any(1) } else { self.num(1) }; push!(St::SetItem(l, i, v)) }
                    6 => { let i = Ex::N(self.r.range(1, 3) as f64); push!(St::Remove(l, i)) }
                    _ => push!(St::RemoveAll(l)),
                }
            }
            K::SetList => { let mixed = self.r.chance(1, 4); if mixed { let v = self.var('m').unwrap_or_else(|| "m0".into()); let n = self.r.us(4); let e = Ex::L((0..n).map(|_| self.any(1)).collect()); push!(St::Set(v, e)) } else { let v = self.var('l').unwrap_or_else(|| "l0".into()); let e = self.list(2); push!(St::Set(v, e)) } }
            K::Costume => { if self.r.chance(1, 2) { push!(St::NextCostume) } else { let e = Ex::S((*self.r.pick(&["cost0", "cost1", "", "cost2", "none"])).into()); let e = if self.r.chance(1, 3) { Ex::Last(Box::new(Ex::Op("CostumeList".into(), vec![]))) } else { e }; push!(St::Costume(e)) } }
            K::CallFn | K::Recur => {
                if self.funcs.is_empty() { out.push(self.log()); return out }
                let (f, n) = self.r.pick(&self.funcs.clone()).clone();
                let mut args: Vec<Ex> = (0..n).map(|_| self.num(1)).collect();
                let mut ups = vec![];
                if f.starts_with('u') {
                    // the last parameter names a variable of the caller that the block works on
                    let v = self.local('n');
                    args[n - 1] = match self.r.below(14) { 0 => Ex::S("nowhere".into()), 1 => Ex::S("n0".into()), 2 => Ex::N(1.0), _ => Ex::S(v.clone()) };
                    ups.push(v.clone());
                    if !self.vars.contains(&v) { self.vars.push(v) }
                }
                let logs = ups.first().cloned();
                let s = self.let_or_do(Eff::Call { f, args, ups });
                if let Some(v) = logs { out.push(s); out.push(self.st(St::Log(vec![Ex::V(v)]))); return out }
                out.push(s)
            }
            K::CallClo => { let n = self.r.us(2); let clo = self.clo_ex(n, ' '); let m = if self.r.chance(1, 25) { n + 1 } else { n }; let args = (0..m).map(|_| self.num(1)).collect(); let ent = if self.r.chance(1, 4) { Some(self.ent_ex()) } else { None }; let s = self.let_or_do(Eff::CallClo { ent, clo, args }); out.push(s) }
            K::SetClo => { let v = self.var('c').unwrap_or_else(|| "c0".into()); let n = if v.ends_with('0') { 0 } else { 1 }; let e = self.clo(n, ' '); push!(St::Set(v, e)) }
            K::Hof => {
                let l = self.list(1);
                let e = match self.r.below(4) { 0 => Eff::Map { f: self.clo(1, 'n'), list: l }, 1 => Eff::Keep { f: self.clo(1, 'b'), list: l }, 2 => Eff::Find { f: self.clo(1, 'b'), list: l }, _ => Eff::Combine { f: self.clo(2, 'n'), list: l } };
                let s = self.let_or_do(e);
                out.push(s)
            }
            K::Block => { let n = self.r.us(3); let args = (0..n).map(|_| self.any(1)).collect(); let s = self.let_or_do(Eff::Block { name: "customThing".into(), args }); out.push(s) }
            K::OpEx => {
                let e = self.opex(2);
                let v = match self.r.below(4) { 0 => self.var('p'), 1 => self.var('r'), _ => None };
                let mut b = vec![match v { Some(v) => self.st(St::Set(v, e)), None => self.st(St::Log(vec![e])) }];
                if self.r.chance(1, 4) { let v: Vec<String> = self.vars_of('p'); if !v.is_empty() { let v = self.r.pick(&v).clone(); b.push(self.st(St::Log(vec![Ex::V(v)]))) } }
                self.tried(&mut out, b)
            }
            K::OpCmd => { let c = self.opcmd(); let b = vec![self.st(c)]; self.tried(&mut out, b) }
            K::OpSet => { let v = self.var('p').or_else(|| self.var('r')).unwrap_or_else(|| "r0".into()); let e = match self.r.below(3) { 0 => self.listv(2), 1 => Ex::Lit(self.lit(3)), _ => self.val(2) }; push!(St::Set(v, e)) }
            K::Pen => match self.r.below(9) {
                0 | 1 => { let n = format!("{}Effect:{}", if self.r.chance(1, 2) { "Set" } else { "Ch" }, self.effect()); let e = self.propv(); push!(St::Op(n, vec![e])) }
                2 | 3 => { let n = format!("{}Pen:{}", if self.r.chance(1, 2) { "Set" } else { "Ch" }, self.penattr()); let e = if self.r.chance(1, 4) { self.any(1) } else { self.propv() }; push!(St::Op(n, vec![e])) }
                4 => { let n = if self.r.chance(1, 2) { self.effect() } else { self.penattr() }; let s = self.let_or_do(Eff::Get(n.into())); out.push(s) }
                5 => { let n = *self.r.pick(&["Visible:T", "Visible:F", "PenDown:T", "PenDown:F", "PenClear", "PenColor:00000000", "PenColor:ff0000ff", "PenColor:12345678", "PenColor:fffefd80"]); push!(St::Op(n.into(), vec![])) }
                6 => { let e = self.num(1); push!(St::Op("TurnLeft".into(), vec![e])) }
                7 => { let e = if self.r.chance(1, 2) { self.ent_ex() } else { Ex::L(vec![self.num(0), self.num(0)]) }; push!(St::Op("PointTowards".into(), vec![e])) }
                _ => { let (x, y) = (self.num(1), self.num(1)); push!(St::Op("PointXY".into(), vec![x, y])) }
            },
            K::Sound => { let s = match self.r.below(5) {
                0 => { let e = self.sound_ex(); St::Op(if self.r.chance(1, 2) { "PlaySound" } else { "PlaySoundB" }.into(), vec![e]) }
                1..=3 => { let e = self.note_ex(); let b = if self.r.chance(5, 6) { Ex::N(*self.r.pick(&[0.5, 1.0, 2.0, 0.0, -1.0])) } else { self.any(0) }; St::Op(if self.r.chance(1, 2) { "PlayNotes" } else { "PlayNotesB" }.into(), vec![e, b]) }
                _ => { let e = self.num(1); St::Op("Rest".into(), vec![e]) }
            }; let b = vec![self.st(s)]; self.tried(&mut out, b) }
            K::SetEnt => match self.var('e') { Some(v) => { let e = self.ent_ex(); push!(St::Set(v, e)) } None => out.push(self.log()) },
        }
        if self.r.chance(1, 4) && self.w[K::Log as usize] > 20 { out.push(self.log()) }
        out
    }
    /// Mostly inside an error handler, so that the script goes on after a refused operand.
    fn tried(&mut self, out: &mut Vec<Stm>, b: Vec<Stm>) {
        if self.r.chance(5, 6) { let h = if self.r.chance(1, 3) { vec![self.st(St::Log(vec![Ex::S("caught".into())]))] } else { vec![] }; let s = St::Try { body: Rc::new(b), var: "te".into(), handler: Rc::new(h) }; out.push(self.st(s)) } else { out.extend(b) }
    }
    fn guard(&mut self, out: &mut Vec<Stm>, s: St) {
        let st = self.st(s);
        if self.r.chance(2, 3) { let c = self.cond(2); out.push(self.st(St::If(c, Rc::new(vec![st])))) } else { out.push(st) }
    }
}
fn unsafe_k(k: usize) -> K {
    const ALL: [K; K::N as usize + 1] = [
        K::Log, K::SetNum, K::Change, K::SetAny, K::Decl, K::If, K::IfElse, K::Repeat, K::Forever, K::Until, K::For, K::Foreach, K::Warp, K::WaitUntil, K::Try, K::Throw, K::Ret, K::Bcast, K::BcastWait, K::StopAll, K::StopThis, K::StopBlock, K::StopOthers, K::StopMy,
        K::Sleep, K::Clone, K::Delete, K::Fork, K::NetSend, K::NetWait, K::NetReply, K::Rpc, K::Sys, K::HostSys, K::Say, K::Ask, K::Prop, K::Move, K::ResetTimer, K::Pause, K::Watch, K::ListMut, K::Costume, K::CallFn, K::CallClo, K::SetClo, K::Hof, K::Block, K::SetList, K::Bad, K::SetEnt, K::Recur, K::OpEx, K::OpCmd, K::OpSet, K::Pen, K::Sound, K::N,
    ];
    debug_assert_eq!(ALL[k] as usize, k);
    ALL[k]
}
pub fn ent_name(i: usize) -> String { if i == 0 { "stage".into() } else { format!("sprite{i}") } }

fn sn_num(r: &mut Rng) -> Sn { Sn::N(r.range(0, 50) as f64) }
fn sn_any(r: &mut Rng) -> Sn {
    match r.below(6) { 0 => Sn::S("text".into()), 1 => Sn::T(true), 2 => Sn::L(vec![sn_num(r), Sn::S("in".into())]), _ => sn_num(r) }
}
fn field(r: &mut Rng) -> (String, Sn) { let i = r.below(3); if i < 2 { (format!("x{i}"), sn_num(r)) } else { ("w0".into(), sn_any(r)) } }

fn gen_lit(r: &mut Rng, d: u32) -> Lit {
    match r.below(if d > 0 { 8 } else { 5 }) {
        0..=2 => Lit::N(*r.pick(&[0.0, 1.0, 2.0, 3.0, 5.0, -4.0, 2.5, 100.0, 1e20])), 3 => Lit::S((*r.pick(&["a", "B", "12", "x y", "", "3", "0x11"])).into()), 4 => if r.chance(1, 2) { Lit::T(r.chance(1, 2)) } else { Lit::N(7.0) },
        _ => Lit::L((0..r.us(4)).map(|_| gen_lit(r, d - 1)).collect()),
    }
}
pub fn gen_case(p: &Prof, seed: u64) -> Case {
    let mut rng = Rng::new(seed);
    let mut r = rng.clone();
    rng.next();
    // swarm: drop a random part of the statement kinds (never logging or counting)
    let mut w = p.w.clone();
    for (i, x) in w.iter_mut().enumerate() { if i > 2 && *x > 0 && *x < 12 && r.chance(2, 5) { *x = 0 } }
    let names = Names::pick(&mut r);
    let nents = r.range(p.ents.0, p.ents.1) as usize;
    let mut globals = vec![
        ("n0".to_string(), Lit::N(0.0)), ("n1".into(), Lit::N(3.0)), ("l0".into(), Lit::L(vec![Lit::N(1.0), Lit::N(2.0), Lit::N(3.0)])), ("m0".into(), Lit::L(vec![Lit::S("s".into()), Lit::N(9.0)])),
        ("r0".into(), Lit::N(0.0)), ("r1".into(), Lit::S("init".into())), ("c0".into(), Lit::N(0.0)), ("c1".into(), Lit::N(0.0)), ("e0".into(), Lit::N(0.0)),
    ];
    if p.init {
        globals.push(("m1".into(), Lit::Shared(1, vec![Lit::N(1.0), Lit::Shared(2, vec![Lit::S("deep".into()), Lit::T(true)]), Lit::Ref(2)])));
        globals.push(("m2".into(), Lit::Ref(1)));
        globals.push(("n2".into(), Lit::N(*r.pick(&[-1.0, 0.5, 1e10, 65536.0, 4294967296.0, 123.456, -70000.0]))));
        globals.push(("t9".into(), Lit::S("x".repeat(r.us(40)))));
        if r.chance(1, 4) { globals.push(("m3".into(), Lit::Shared(3, vec![Lit::N(1.0), Lit::Ref(3)]))) }
    }
    if p.ops {
        globals.push(("p0".into(), gen_lit(&mut r, 3)));
        globals.push(("p1".into(), Lit::Shared(11, (0..r.us(4)).map(|_| gen_lit(&mut r, 2)).collect())));
        globals.push(("p2".into(), match r.below(4) { 0 => Lit::Ref(11), 1 => Lit::L(vec![Lit::Ref(11), Lit::Ref(11), Lit::N(4.0)]), 2 => Lit::L(vec![Lit::Shared(12, vec![Lit::N(1.0), Lit::N(2.0)]), Lit::Ref(12), Lit::Ref(11)]), _ => gen_lit(&mut r, 3) }));
        globals.push(("p3".into(), match r.below(6) { 0 => Lit::Shared(13, vec![Lit::N(1.0), Lit::Ref(13)]), 1 => Lit::Shared(13, vec![Lit::L(vec![Lit::Ref(13)]), Lit::N(2.0)]), 2 => Lit::L((0..r.us(4)).map(|_| Lit::L((0..r.us(4)).map(|_| Lit::N(r.range(-4, 9) as f64)).collect())).collect()), _ => gen_lit(&mut r, 2) }));
    }
    let gnames: Vec<String> = globals.iter().map(|x| x.0.clone()).collect();
    let nfuncs = r.range(0, 3) as usize;
    let mut ents = vec![];
    let budget = r.range(14, if p.recursive { 40 } else { 60 });
    // entities
    let mut ent_fields: Vec<Vec<(String, Lit)>> = vec![];
    for i in 0..nents {
        let mut f = vec![("fn0".to_string(), Lit::N(i as f64 * 100.0)), ("fr0".into(), Lit::N(0.0)), ("fl0".into(), Lit::L(vec![Lit::N(5.0), Lit::N(6.0)])), ("fe0".into(), Lit::N(0.0)), ("fc0".into(), Lit::N(0.0))];
        if p.shadow && r.chance(1, 2) { f.push(("n0".into(), Lit::N(77.0))) }
        if p.init && r.chance(1, 2) { f.push(("fm1".into(), Lit::Ref(1))) }
        if r.chance(1, 4) { f.remove(0); f.insert(0, ("fn0".into(), Lit::N(1.0))) }
        ent_fields.push(f)
    }
    let gfuncs: Vec<(String, usize)> = (0..nfuncs).map(|i| if r.chance(1, 4) { (format!("u{i}"), r.range(1, 2) as usize) } else { (format!("f{i}"), r.us(3)) }).collect();
    let mut clones = if w[K::Clone as usize] > 0 { 6 } else { 0 };
    let mut funcs = vec![];
    let mut mk = |r: &mut Rng, ent: Option<usize>, callable: Vec<(String, usize)>, params: &[String], len: i64, budget: i64, clones: &mut i64, is_func: bool| -> Vec<Stm> {
        let fields: Vec<String> = ent.map(|e| ent_fields[e].iter().map(|x| x.0.clone()).collect()).unwrap_or_default();
        let mut g = G { r, p, w: w.clone(), vars: params.to_vec(), fields, globals: gnames.clone(), ent: ent.unwrap_or(0), nents, funcs: callable, in_func: is_func, in_warp: false, in_clo: false, budget, clones: *clones, uniq: 0, in_hat: None, names: names.clone(), loops: if is_func && !p.recursive { 1 } else { 0 } };
        if is_func { g.w[K::Forever as usize] = 0 }
        let b = g.body_n(if is_func { 2 } else { 3 }, len);
        *clones = g.clones;
        let _ = (g.ent, g.in_clo, &g.in_hat);
        b
    };
    for i in 0..nfuncs {
        let callable: Vec<_> = if p.recursive { gfuncs.clone() } else { gfuncs[i + 1..].to_vec() };
        let params: Vec<String> = (0..gfuncs[i].1).map(|j| if p.shadow && r.chance(1, 2) { "n0".into() } else { format!("x{j}") }).collect();
        let mut params2: Vec<String> = vec![];
        for x in params { if params2.contains(&x) { params2.push(format!("xx{}", params2.len())) } else { params2.push(x) } }
        if gfuncs[i].0.starts_with('u') { *params2.last_mut().unwrap() = "xu".into() }
        let ups = if gfuncs[i].0.starts_with('u') { vec!["xu".to_string()] } else { vec![] };
        let len = r.range(1, 3);
        let body = mk(&mut r, None, callable, &params2, len, 10, &mut clones, true);
        funcs.push(Func { name: gfuncs[i].0.clone(), params: params2, body: Rc::new(body), ups });
    }
    for i in 0..nents {
        let mut callable = gfuncs.clone();
        let mut efuncs = vec![];
        if r.chance(1, 3) {
            let np = r.us(2);
            let params: Vec<String> = (0..np).map(|j| format!("x{j}")).collect();
            let body = mk(&mut r, Some(i), if p.recursive { let mut v = gfuncs.clone(); v.push((format!("mf{i}"), np)); v } else { gfuncs.clone() }, &params, 2, 8, &mut clones, true);
            // a method may have the same name as a global block and then hides it
            let name = if r.chance(1, 3) && nfuncs > 0 && gfuncs[0].0.starts_with('f') && gfuncs[0].1 == np && !p.recursive { gfuncs[0].0.clone() } else { format!("mf{i}") };
            if name.starts_with("mf") { callable.push((name.clone(), np)) }
            efuncs.push(Func { name, params, body: Rc::new(body), ups: vec![] });
        }
        let total = r.range(p.scripts.0, p.scripts.1);
        let ns = if nents == 1 { total } else { (total as f64 / nents as f64).ceil() as i64 };
        let mut scripts = vec![];
        for _ in 0..ns {
            let (hat, params): (Hat, Vec<String>) = match r.weighted(&p.hats) {
                0 => (Hat::Flag, vec![]), 1 => (Hat::Clone, vec![]), 2 => (Hat::Key(if r.chance(1, 4) { None } else { Some((*r.pick(&names.keys)).into()) }), vec![]),
                3 => (Hat::Local(if r.chance(1, 5) { None } else { Some((*r.pick(&names.msgs)).into()) }), vec![]),
                4 => { let f: Vec<String> = ["x0", "x1", "w0"].iter().filter(|_| r.chance(1, 2)).map(|x| x.to_string()).collect(); (Hat::Net { ty: (*r.pick(&names.nets)).into(), fields: f.clone() }, f) }
                _ => { let f: Vec<String> = ["x0", "x1", "w0"].iter().filter(|_| r.chance(1, 2)).map(|x| x.to_string()).collect(); (Hat::Custom { name: (*r.pick(&names.cust)).into(), fields: f.clone() }, f) }
            };
            let len = r.range(p.len.0, p.len.1);
            let mut body = mk(&mut r, Some(i), callable.clone(), &params, len, budget / 2, &mut clones, false);
            if r.chance(2, 3) { body.insert(0, Stm { id: 0, k: St::Log(params.iter().map(|x| Ex::V(x.clone())).collect()) }) }
            if p.bounded { body = vec![Stm { id: 0, k: St::Forever(Rc::new(body)) }] }
            scripts.push(ScriptDef { hat, body: Rc::new(body) });
        }
        if r.chance(1, 8) { scripts.push(ScriptDef { hat: Hat::None, body: Rc::new(vec![Stm { id: 0, k: St::Log(vec![]) }]) }) }
        ents.push(EntDef { name: ent_name(i), fields: ent_fields[i].clone(), funcs: efuncs, scripts, costumes: if w[K::Costume as usize] > 0 { r.us(4) as u32 } else { 0 }, sounds: if w[K::Sound as usize] > 0 { r.us(3) as u32 } else { 0 }, look: look(&mut r) });
    }
    let mut prog = Prog { globals, funcs, ents };
    renumber(&mut prog);
    // inputs
    let mut actions = vec![];
    if r.chance(9, 10) { actions.push(Action { at: 0, sub: 0, what: What::Start }) }
    let n = r.range(p.nacts.0, p.nacts.1);
    let mut at = 0i64;
    for _ in 0..n {
        at += match r.below(4) { 0 => 0, 1 => r.range(0, 2), 2 => r.range(0, 12), _ => r.range(0, 40) };
        let what = match r.weighted(&p.acts) {
            0 => What::Start, 1 => What::Stop, 2 => if r.chance(1, 8) { What::KeyUp(*r.pick(&names.chars)) } else { What::Key(*r.pick(&names.chars)) },
            3 => What::Custom { name: (*r.pick(&names.cust)).into(), args: (0..r.us(3)).map(|_| field(&mut r)).collect(), interrupt: r.chance(1, 4), maxq: *r.pick(&[0, 0, 1, 2, 5, 1000]) },
            4 => What::Net { ty: (*r.pick(&names.nets)).into(), fields: (0..r.us(4)).map(|_| field(&mut r)).collect(), reply: r.chance(1, 2) },
            _ => if p.time { What::Jump(*r.pick(&[5, 50, 1000, 100_000, 10_000_000_000, -5, -30, -1000, -100_000])) } else { What::Jump(*r.pick(&[5, 50, 1000, -10])) },
        };
        let sub = if r.chance(p.sub as u64, 10) { r.range(1, 14) as u32 } else { 0 };
        actions.push(Action { at: at as u32, sub, what });
        // bursts of the same message
        while r.chance(1, 4) && actions.len() < 40 { let mut a = actions.last().unwrap().clone(); if !matches!(a.what, What::Net { .. } | What::Custom { .. } | What::Key(_) | What::Start) { break } if let What::Net { fields, .. } = &mut a.what { if let Some(f) = fields.first_mut() { f.1 = sn_num(&mut r) } } actions.push(a) }
    }
    let fault_on = r.chance(p.fault as u64, 10);
    let slow = r.chance(1, 2);
    let outcomes = (0..80).map(|_| {
        let delay = match r.below(10) { 0..=4 => 0, 5 | 6 => r.range(1, 20) as u64, 7 | 8 => if slow { r.range(20, 400) as u64 } else { 1 }, _ => if fault_on && r.chance(1, 4) { NEVER } else { 30 } };
        let res = if fault_on && r.chance(1, 4) { *r.pick(&[Res::Err, Res::Err, Res::PollErr, Res::PerfErr]) } else { *r.pick(&[Res::Num, Res::Num, Res::Num, Res::Text, Res::List, Res::Empty, Res::Yes]) };
        Outcome { delay, res }
    }).collect();
    let clock = match r.below(20) { 0 => ClockMode::Timeless, 1..=6 => ClockMode::Real, _ => ClockMode::Arbitrary };
    let gc = match r.below(if p.gc_heavy { 6 } else { 12 }) { 0..=1 => GcPat::Full(1), 2 => GcPat::Debt(1), 3 => GcPat::Rand(r.next()), 4 => GcPat::Full(r.range(2, 9) as u32), 5 => GcPat::Debt(r.range(2, 30) as u32), 6 | 7 => GcPat::Rand(r.next()), _ => GcPat::Never };
    let compare = if p.ops { 1 } else if r.chance(1, 4) { 1 } else { 16 };
    let gc = if p.gc_heavy && gc == GcPat::Never { GcPat::Full(1) } else { gc };
    let case = Case {
        prog, opts: Opts { max_depth: if p.small_depth { r.range(2, 24) as usize } else { *r.pick(&[40, 60, 60]) }, rpc_soft: r.chance(1, 3), sys_soft: r.chance(1, 3), clock, props: r.chance(p.props as u64, 6) },
        actions, outcomes, start_ms: if clock == ClockMode::Arbitrary && r.chance(1, 2) { r.below(1000) } else { 1_600_000_000_000 + r.below(100_000) }, tick: *r.pick(&[0, 1, 1, 2, 5, 20]), gc, segs: p.segs, idle_thresh: r.range(1, 9) as u32, burst: r.range(1, 4) as u32,
        compare_every: compare, pad: if p.pad { *r.pick(&[0, 0, 0, 1, 3, 3, 20, 20, 60, 60, 150, 150, 150, 2500]) } else { 0 }, bounded: p.bounded, keep: if p.bounded { 0 } else { *r.pick(&[0, 0, 1, 3, 1000]) },
    };
    if p.wild { wild(case, &mut r) } else { case }
}
/// How a sprite stands in the project file.
fn look(r: &mut Rng) -> Look {
    if r.chance(1, 3) { return Look::default() }
    const P: [f64; 10] = [0.0, 1.0, -1.0, 12.5, -240.0, 100.0, 1e6, 0.1, -0.0, 33.0];
    Look {
        pos: (*r.pick(&P), *r.pick(&P)), heading: *r.pick(&[90.0, 0.0, 45.0, 180.0, 270.0, 360.0, -90.0, 725.5, -0.25, 359.5]), scale: *r.pick(&[1.0, 0.5, 2.0, 0.0, 0.25, 10.0]), visible: r.chance(2, 3),
        color: *r.pick(&[(10, 20, 30, 255), (0, 0, 0, 255), (255, 255, 255, 255), (255, 0, 0, 128), (0, 255, 0, 0), (1, 2, 255, 254), (200, 100, 200, 7), (128, 128, 127, 255), (17, 17, 16, 1)]),
        active: *r.pick(&[Some(0), Some(0), Some(1), Some(2), None]),
    }
}
const WILD_N: [f64; 38] = [1e308, -1e308, f64::MAX, 5e-324, -5e-324, 9007199254740992.0, 9007199254740993.0, -9007199254740992.0, 9223372036854775807.0, -9223372036854775808.0, 18446744073709551615.0, 1.8446744073709552e19, 1e300, 1e15, 1e16, 999999999999999.9, 0.1, 0.30000000000000004, -0.0, 1e-5, 9.9e-6, 255.0, 256.0, 65535.0, 65536.0, 2147483647.0, 2147483648.0, -2147483648.0, 4294967295.0, 4294967296.0, 4294967296.5, -1.0, -0.5, 0.5, 1e-320, 55296.0, 1114112.0, 90.0];
const WILD_S: [&str; 49] = ["", " ", "1e400", "-1e400", "nan", "NaN", "inf", "-infinity", "0x", "0X7fffffffffffffff", "0xffffffffffffffff", "0b", "0b12", "0o8", "0x-1", "-0x1", "0x+1", "0b٣", "0é", "é", "1_000", "٣", "\0", "\u{feff}1", "1.", ".5", "-", "+", "1e", "1e5", " 12 ", "12\n", "🇫🇷🇫🇷", "👨‍👩‍👧", "a\u{301}b", "İ", "ﬁ", "\r\n", "a,b\n\"c\"\"d\",e", "[1,{\"a\":null}]", "{\"a\":[[[1e999]]]}", "\"", "9223372036854775808", "C#9999999999999999999", "1\u{fe0f}\u{20e3}", "x\u{20d0}\u{20d1}", "नमस्ते", "हिन्दी", "e\u{301}\u{20d2}"];
/// Puts extreme and malformed values wherever a value stands in the program, the messages and the inputs.
fn wild(c: Case, r: &mut Rng) -> Case {
    fn go(j: &mut serde_json::Value, r: &mut Rng) {
        use serde_json::Value as J;
        match j {
            J::Array(x) => x.iter_mut().for_each(|x| go(x, r)),
            J::Object(m) if m.len() == 1 => {
                let k = m.keys().next().unwrap().clone();
                match (k.as_str(), m.values_mut().next().unwrap()) {
                    ("N", J::Number(_)) | ("S", J::String(_)) if r.chance(1, 9) => {
                        let v = match r.below(9) {
                            0..=4 => serde_json::json!({ "N": *r.pick(&WILD_N) }),
                            8 if r.chance(1, 6) => serde_json::json!({ "S": (*r.pick(&["ab", "9", "é", "👩‍👧 ", "0x"])).repeat(r.range(100, 3000) as usize) }),
                            _ => serde_json::json!({ "S": *r.pick(&WILD_S) }),
                        };
                        *j = v;
                    }
                    // the size of these results is the size the program asks for
                    ("Op", J::Array(a)) => {
                        if a[0] == "Range" && r.chance(1, 4) { *j = serde_json::json!({ "Op": ["Range", [{ "N": *r.pick(&[1.8014398509481984e16, -1e17, 1e300, -1e300, f64::MAX, f64::MIN]) }, { "N": *r.pick(&WILD_N) }]] }); return }
                        if a[0] == "CombN" && r.chance(1, 3) {
                            let mut v: Vec<J> = (0..r.range(2, 9)).map(|_| serde_json::json!({ "Op": ["Range", [{ "N": 1.0 }, { "N": 900.0 }]] })).collect();
                            let i = r.us(v.len() + 1);
                            v.insert(i, serde_json::json!({ "L": [] }));
                            *j = serde_json::json!({ "Op": ["CombN", v] });
                            return
                        }
                        if a[0].as_str().is_some_and(|x| x == "Range" || x.starts_with("Reshape") || x.starts_with("Comb")) { a[0] = "Atan2".into(); if let Some(v) = a[1].as_array_mut() { v.truncate(2); while v.len() < 2 { v.push(serde_json::json!({ "N": 0.5 })) } } }
                        a.iter_mut().for_each(|x| go(x, r))
                    }
                    (_, v) => go(v, r),
                }
            }
            J::Object(m) => m.values_mut().for_each(|x| go(x, r)),
            _ => (),
        }
    }
    let mut j = serde_json::to_value(&c).unwrap();
    for k in ["prog", "actions"] { go(&mut j[k], r) }
    let mut c: Case = serde_json::from_value(j).unwrap();
    for a in &mut c.actions {
        match &mut a.what {
            What::Key(k) | What::KeyUp(k) if r.chance(1, 4) => *k = *r.pick(&['ß', 'İ', '\0', '\u{10ffff}', ' ', 'ﬀ', 'Σ']),
            What::Jump(d) if r.chance(1, 6) => *d = *r.pick(&[i64::MAX, i64::MIN, -1, i64::MAX / 2]),
            What::Custom { maxq, .. } if r.chance(1, 6) => *maxq = u32::MAX,
            _ => (),
        }
    }
    let real = c.opts.clock == ClockMode::Real;
    if real { for a in &mut c.actions { if let What::Jump(d) = &mut a.what { *d = (*d).clamp(-1_000_000_000_000, 1_000_000_000_000) } } }
    if r.chance(1, 20) { c.opts.max_depth = *r.pick(&[1, 2, 3]) }
    if r.chance(1, 10) { c.tick = if real { 86_400_000 } else { *r.pick(&[u64::MAX, 1 << 62, 86_400_000]) } }
    if r.chance(1, 10) { c.start_ms = if real { *r.pick(&[0, 1, 951_782_399_000, 951_868_800_000, 1_709_164_800_000, 4_102_444_800_000, 100_000_000_000_000]) } else { *r.pick(&[0, 1, 253_402_300_800_000, u64::MAX, 1 << 62]) } }
    c
}
