//! Executable reference model of the language and scheduler semantics.
//! Written from the documented behaviour; executes the same program and schedule as the real VM and yields the same observable events.
use std::collections::{BTreeMap, VecDeque, HashMap};
use std::rc::Rc;
use serde::{Serialize, Deserialize};
use crate::ir::*;
#[path = "ops.rs"]
mod ops;
use ops::stringify;
#[path = "looks.rs"]
pub mod looks;
use looks::Looks;

pub const NEVER: u64 = u64::MAX;
pub const SNAP_LIMIT: usize = 5_000;

/// Snapshot of a value as seen by an observer.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Sn { N(f64), S(String), T(bool), L(Vec<Sn>), Cyc, C, E(u32), I(String), A(String), O, Any, Has(String) }
impl Sn {
    /// `self` is the model's expectation, `o` the observation.
    pub fn matches(&self, o: &Sn) -> bool {
        match (self, o) {
            (Sn::Any, Sn::S(_)) => true,
            (Sn::Has(x), Sn::S(y)) => y.contains(x.as_str()),
            (Sn::L(a), Sn::L(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.matches(b)),
            (a, b) => a == b,
        }
    }
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Ev {
    Log(Sn),
    Perf { seq: u32, ent: u32, what: String, args: Vec<Sn> },
    Send { seq: u32, ty: String, vals: Vec<(String, Sn)>, targets: Vec<String>, wait: bool },
    Reply { msg: u32, val: Sn },
    Yield,
    Term { ent: u32, val: Sn },
    Err { ent: u32, text: Sn, sites: Vec<Option<u32>>, locals: Vec<Vec<String>> },
    Watch { create: bool, ent: u32, name: String, val: Sn },
    Pause, Idle,
}
impl Ev {
    pub fn matches(&self, o: &Ev) -> bool {
        match (self, o) {
            (Ev::Log(a), Ev::Log(b)) => a.matches(b),
            (Ev::Perf { seq: s1, ent: e1, what: w1, args: a1 }, Ev::Perf { seq: s2, ent: e2, what: w2, args: a2 }) => s1 == s2 && e1 == e2 && w1 == w2 && a1.len() == a2.len() && a1.iter().zip(a2).all(|(a, b)| a.matches(b)),
            (Ev::Send { seq: s1, ty: t1, vals: v1, targets: g1, wait: w1 }, Ev::Send { seq: s2, ty: t2, vals: v2, targets: g2, wait: w2 }) => s1 == s2 && t1 == t2 && g1 == g2 && w1 == w2 && v1.len() == v2.len() && v1.iter().zip(v2).all(|(a, b)| a.0 == b.0 && a.1.matches(&b.1)),
            (Ev::Reply { msg: m1, val: v1 }, Ev::Reply { msg: m2, val: v2 }) => m1 == m2 && v1.matches(v2),
            (Ev::Term { ent: e1, val: v1 }, Ev::Term { ent: e2, val: v2 }) => e1 == e2 && v1.matches(v2),
            (Ev::Err { ent: e1, text: t1, sites: s1, locals: l1 }, Ev::Err { ent: e2, text: t2, sites: s2, locals: l2 }) => e1 == e2 && t1.matches(t2) && s1.len() == s2.len() && s1.iter().zip(s2).all(|(a, b)| a.is_none() || a == b) && l1 == l2,
            (Ev::Watch { create: c1, ent: e1, name: n1, val: v1 }, Ev::Watch { create: c2, ent: e2, name: n2, val: v2 }) => c1 == c2 && e1 == e2 && n1 == n2 && v1.matches(v2),
            (a, b) => a == b,
        }
    }
    pub fn kind(&self) -> &'static str {
        match self {
            Ev::Log(_) => "log", Ev::Perf { .. } => "perform", Ev::Send { .. } => "send", Ev::Reply { .. } => "reply", Ev::Yield => "yield", Ev::Term { .. } => "terminate",
            Ev::Err { .. } => "error", Ev::Watch { .. } => "watch", Ev::Pause => "pause", Ev::Idle => "idle",
        }
    }
}

/// How the simulated host answers one operation.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Res { Num, Text, List, Empty, Yes, Err, PollErr, PerfErr }
impl Res { pub fn fine(self) -> bool { !matches!(self, Res::Err | Res::PollErr | Res::PerfErr) } }
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct Outcome { pub delay: u64, pub res: Res }

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum ClockMode { Arbitrary, Real, Timeless }

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Opts { pub max_depth: usize, pub rpc_soft: bool, pub sys_soft: bool, pub clock: ClockMode, /** the host keeps sprite properties */ #[serde(default)] pub props: bool }

/// Text that is only partly predicted (wording of internal errors is not specified).
#[derive(Clone, Debug, PartialEq)]
pub enum Txt { S(Rc<str>), Any, Has(Rc<str>) }
#[derive(Clone, Debug, PartialEq)]
pub enum V { N(f64), S(Rc<str>), T(bool), L(usize), C(usize), E(usize), I(usize), A(usize), O(Txt) }
#[derive(Debug)]
pub enum Er { Fail(Txt), Discard(&'static str) }
type R<T> = Result<T, Er>;
/// Numbers are finite; anything else is an error.
fn fin(x: f64) -> R<f64> { if x.is_finite() { Ok(x + 0.0) } else { fail() } }
fn fail<T>() -> R<T> { Err(Er::Fail(Txt::Any)) }
fn discard<T>(s: &'static str) -> R<T> { Err(Er::Discard(s)) }
fn s(x: &str) -> V { V::S(Rc::from(x)) }

#[derive(Clone)]
pub struct Closure { params: Vec<String>, caps: Vec<(String, usize)>, body: Body, def_ent: Option<usize> }
#[derive(Clone)]
pub struct Ent { pub def: usize, pub orig: Option<usize>, pub fields: Vec<(String, usize)>, costume: Option<usize>, pub looks: Looks }
#[derive(Clone, Default, Debug)]
struct Host { stack: Vec<V>, ent: usize, disp: Option<V>, tag: Option<V> }

#[derive(Clone)]
enum Cont { Drop, Set { var: String, pre: Option<Vec<V>>, site: u32 }, Item }
#[derive(Clone, Copy, PartialEq)]
enum LK { Map, Keep, Find, Combine }
#[derive(Clone)]
enum Ctl {
    Seq(Body, usize),
    Repeat { left: f64, b: Body, i: usize, on: bool },
    Forever { b: Body, i: usize, on: bool },
    Until { b: Body, i: usize, on: bool },
    For { b: Body, i: usize, on: bool, cur: f64, cnt: f64, d: f64 },
    Foreach { b: Body, i: usize, on: bool, items: VecDeque<V> },
    WaitUntil { b: Body, i: usize },
    Warp,
    Try { b: Body, i: usize, warp: u32, depth: usize },
    List { k: LK, f: V, items: VecDeque<V>, acc: Vec<V>, cur: Option<V>, cont: Cont, site: u32 },
    SayDur { b: Body, i: usize, phase: u8 },
}
#[derive(Clone)]
struct Frame { ent: usize, def_ent: Option<usize>, locals: Vec<(String, usize)>, ctl: Vec<Ctl>, warp: u32, depth: usize, site: Option<u32>, ret: Cont }
#[derive(Clone, Copy, PartialEq)]
enum Act { Rpc, Sys, Input, Push, Cmd }
#[derive(Clone)]
enum Pend {
    Op { done_at: u64, seq: u32, res: Res, act: Act, ent: usize, special: Option<V>, cont: Cont, site: u32 },
    Reply { done_at: u64, seq: u32, res: Res, cont: Cont, site: u32 },
    Barrier(u32), Sleep(u64), Turn,
}
#[derive(Clone)]
pub struct Proc { frames: Vec<Frame>, warp: u32, pend: Option<Pend>, rpc_err: Option<V>, sys_err: Option<V>, answer: Option<V>, msg: Option<V>, barrier: Option<u32>, reply: Option<u32>, host: Host }
#[derive(Clone)]
struct Ctx { locals: Vec<(String, usize)>, barrier: Option<u32>, reply: Option<u32>, msg: Option<V>, host: Host }
#[derive(Clone)]
struct Script { ent: usize, def: (usize, usize), proc: Option<u64>, queue: VecDeque<Ctx> }

#[derive(Clone, Debug, PartialEq)]
pub enum In {
    Start, Stop, Key(char),
    Custom { name: String, args: Vec<(String, V)>, interrupt: bool, maxq: usize },
    Net { no: u32, ty: String, fields: Vec<(String, V)>, reply: bool },
}

#[derive(Clone)]
pub struct Model {
    pub prog: Rc<Prog>, opts: Opts,
    pub lists: Vec<Vec<V>>, pub cells: Vec<V>, clos: Vec<Closure>, pub ents: Vec<Ent>,
    pub globals: Vec<(String, usize)>,
    scripts: Vec<Script>, pub procs: BTreeMap<u64, Proc>, queue: VecDeque<u64>,
    next_proc: u64, next_barrier: u32, pub seq: u32, timer: u64, pub now: u64,
    outcomes: Rc<Vec<Outcome>>,
    pub evs: Vec<Ev>, pub discard: Option<&'static str>, pub sched_op: bool,
    pub cov: HashMap<&'static str, u64>, pub track: bool,
    pub watch: Vec<usize>,
    /// a value became too big to observe (nested sharing grows exponentially when written out)
    pub big: std::cell::Cell<bool>,
    work: usize, rand_calls: u64, pub ops_seen: HashMap<String, u64>,
}

enum Flow { Next, Yield, Dead }

impl Model {
    pub fn new(prog: Rc<Prog>, opts: Opts, outcomes: Rc<Vec<Outcome>>, now: u64) -> Self {
        let mut m = Model {
            prog: prog.clone(), opts, lists: vec![], cells: vec![], clos: vec![], ents: vec![], globals: vec![], scripts: vec![], procs: Default::default(), queue: Default::default(),
            next_proc: 0, next_barrier: 0, seq: 0, timer: 0, now, outcomes, evs: vec![], discard: None, sched_op: false, cov: Default::default(), track: true, watch: vec![], big: std::cell::Cell::new(false),
            work: 0, rand_calls: 0, ops_seen: Default::default(),
        };
        let mut shared: HashMap<u32, usize> = Default::default();
        for (_, l) in &prog.globals { Self::reg(l, &mut m, &mut shared) }
        for e in &prog.ents { for (_, l) in &e.fields { Self::reg(l, &mut m, &mut shared) } }
        let c = { let v = m.list(vec![]); m.cell(v) };
        m.globals.push((LOG.into(), c));
        let c = m.cell(V::N(0.0));
        m.globals.push(("junk".into(), c));
        for (n, l) in &prog.globals { let v = Self::val(l, &mut m, &shared); let c = m.cell(v); m.globals.push((n.clone(), c)) }
        for (i, e) in prog.ents.iter().enumerate() {
            let fields = e.fields.iter().map(|(n, l)| { let v = Self::val(l, &mut m, &shared); (n.clone(), m.cell(v)) }).collect();
            m.ents.push(Ent { def: i, orig: None, fields, costume: e.look.active.filter(|x| *x < e.costumes).map(|x| i * 100 + x as usize), looks: Looks::new(&e.look) });
            for (j, sc) in e.scripts.iter().enumerate() {
                if sc.hat != Hat::None { m.scripts.push(Script { ent: i, def: (i, j), proc: None, queue: Default::default() }) }
            }
        }
        m.timer = m.time().unwrap_or(0);
        m
    }
    fn reg(l: &Lit, m: &mut Model, sh: &mut HashMap<u32, usize>) {
        match l {
            Lit::Shared(r, xs) => { let id = m.lists.len(); m.lists.push(vec![]); sh.insert(*r, id); xs.iter().for_each(|x| Self::reg(x, m, sh)) }
            Lit::L(xs) => xs.iter().for_each(|x| Self::reg(x, m, sh)),
            _ => (),
        }
    }
    fn val(l: &Lit, m: &mut Model, sh: &HashMap<u32, usize>) -> V {
        match l {
            Lit::N(v) => V::N(*v + 0.0), Lit::S(v) => s(v), Lit::T(v) => V::T(*v),
            Lit::L(xs) => { let vs = xs.iter().map(|x| Self::val(x, m, sh)).collect(); m.list(vs) }
            Lit::Shared(r, xs) => { let vs: Vec<V> = xs.iter().map(|x| Self::val(x, m, sh)).collect(); m.lists[sh[r]] = vs; V::L(sh[r]) }
            Lit::Ref(r) => sh.get(r).map_or(V::N(0.0), |x| V::L(*x)),
        }
    }
    /// A literal makes a new value every time it is evaluated.
    fn literal(&mut self, l: &Lit) -> V { let mut sh = Default::default(); Self::reg(l, self, &mut sh); Self::val(l, self, &sh) }
    fn hit(&mut self, k: &'static str) { if self.track { *self.cov.entry(k).or_insert(0) += 1 } }
    fn list(&mut self, v: Vec<V>) -> V { self.lists.push(v); V::L(self.lists.len() - 1) }
    fn cell(&mut self, v: V) -> usize { self.cells.push(v); self.cells.len() - 1 }
    /// The most values that any list ever made comes to when written out.
    pub fn tree_size(&self) -> usize {
        fn go(m: &Model, l: usize, memo: &mut HashMap<usize, usize>, depth: usize) -> usize {
            if let Some(x) = memo.get(&l) { return *x }
            if depth > 200 { return usize::MAX }
            memo.insert(l, 1);
            let n = m.lists[l].iter().fold(1usize, |a, v| a.saturating_add(match v { V::L(x) => go(m, *x, memo, depth + 1), V::S(x) => 1 + x.len() / 16, _ => 1 }));
            memo.insert(l, n);
            n
        }
        let mut memo = HashMap::new();
        (0..self.lists.len()).map(|l| go(self, l, &mut memo, 0)).max().unwrap_or(0)
    }
    fn time(&self) -> R<u64> { if self.opts.clock == ClockMode::Timeless { fail() } else { Ok(self.now) } }
    pub fn mkval(&mut self, x: &Sn) -> V {
        match x {
            Sn::N(v) => V::N(*v), Sn::S(v) => s(v), Sn::T(v) => V::T(*v),
            Sn::L(xs) => { let vs = xs.iter().map(|x| self.mkval(x)).collect(); self.list(vs) }
            _ => V::N(0.0),
        }
    }
    pub fn snap(&self, v: &V) -> Sn {
        fn go(m: &Model, v: &V, st: &mut Vec<usize>, n: &mut usize) -> Sn {
            *n += 1;
            if *n > SNAP_LIMIT { m.big.set(true); return Sn::O }
            match v {
                V::N(x) => Sn::N(*x), V::S(x) => Sn::S(x.to_string()), V::T(x) => Sn::T(*x), V::C(_) => Sn::C, V::E(x) => Sn::E(*x as u32), V::I(x) => Sn::I(format!("cost{}", x % 100)), V::A(x) => Sn::A(format!("snd{}", x % 100)),
                V::O(Txt::Any) => Sn::Any, V::O(Txt::Has(x)) => Sn::Has(x.to_string()), V::O(Txt::S(x)) => Sn::S(x.to_string()),
                V::L(l) => {
                    if st.contains(l) { return Sn::Cyc }
                    st.push(*l);
                    let r = Sn::L(m.lists[*l].iter().map(|x| go(m, x, st, n)).collect());
                    st.pop();
                    r
                }
            }
        }
        go(self, v, &mut vec![], &mut 0)
    }

    // ------------------------------------------------------------ scheduler

    fn host(&self, ent: usize, disp: Option<&Host>) -> Host { Host { stack: vec![], ent, disp: disp.map(|d| d.tag.clone().unwrap_or(V::N(0.0))), tag: None } }
    fn alive(&self, p: Option<u64>) -> bool { p.map(|k| self.procs.contains_key(&k)).unwrap_or(false) }
    fn spawn(&mut self, ent: usize, def_ent: Option<usize>, body: Body, c: Ctx) -> u64 {
        let id = self.next_proc;
        self.next_proc += 1;
        self.procs.insert(id, Proc {
            frames: vec![Frame { ent, def_ent, locals: c.locals, ctl: vec![Ctl::Seq(body, 0)], warp: 0, depth: c.host.stack.len(), site: None, ret: Cont::Drop }],
            warp: 0, pend: None, rpc_err: None, sys_err: None, answer: None, msg: c.msg, barrier: c.barrier, reply: c.reply, host: c.host,
        });
        self.queue.push_back(id);
        if self.procs.len() > 120 { self.discard = Some("too many scripts") }
        id
    }
    fn promote(&mut self) { for i in 0..self.scripts.len() { self.promote_one(i) } }
    fn promote_one(&mut self, i: usize) {
        if self.alive(self.scripts[i].proc) { return }
        if let Some(c) = self.scripts[i].queue.pop_front() {
            let (ent, def) = (self.scripts[i].ent, self.scripts[i].def);
            let body = self.prog.ents[def.0].scripts[def.1].body.clone();
            let id = self.spawn(ent, Some(def.0), body, c);
            self.scripts[i].proc = Some(id);
        }
    }
    fn stop_script(&mut self, i: usize) -> bool {
        self.scripts[i].queue.clear();
        match self.scripts[i].proc.take() { Some(p) => self.procs.remove(&p).is_some(), None => false }
    }
    fn schedule(&mut self, i: usize, c: Ctx, maxq: usize) {
        self.scripts[i].queue.push_back(c);
        if self.alive(self.scripts[i].proc) { self.hit("trigger while running"); }
        self.promote_one(i);
        if self.scripts[i].queue.len() > maxq { self.scripts[i].queue.pop_back(); self.hit("trigger dropped"); }
        if self.scripts[i].queue.len() > 1 { self.hit("queue of 2+"); }
    }
    fn hat(&self, i: usize) -> &Hat { let d = self.scripts[i].def; &self.prog.ents[d.0].scripts[d.1].hat }
    fn bind(&mut self, names: &[String], args: &[(String, V)]) -> Vec<(String, usize)> {
        let mut l = vec![];
        for n in names {
            let v = args.iter().rev().find(|x| x.0 == *n).map(|x| x.1.clone()).unwrap_or(V::N(0.0));
            let c = self.cell(v);
            define(&mut l, n, c);
        }
        l
    }
    fn fresh(&mut self, v: &V) -> V { let sn = self.snap(v); self.mkval(&sn) }
    pub fn input(&mut self, x: &In) {
        let n = self.scripts.len();
        match x {
            In::Stop => {
                self.hit(if self.procs.is_empty() { "stop while idle" } else { "stop while running" });
                for i in 0..n { self.stop_script(i); }
                self.procs.clear();
                self.queue.clear();
            }
            In::Start => for i in 0..n {
                if *self.hat(i) == Hat::Flag {
                    self.promote();
                    if self.stop_script(i) { self.hit("start while running") }
                    let c = Ctx { locals: vec![], barrier: None, reply: None, msg: None, host: self.host(self.scripts[i].ent, None) };
                    self.schedule(i, c, 0);
                }
            },
            In::Key(k) => for i in 0..n {
                let hit = match self.hat(i) { Hat::Key(None) => true, Hat::Key(Some(f)) => *k == match f.as_str() { "up arrow" => '\u{1}', "down arrow" => '\u{2}', "left arrow" => '\u{3}', "right arrow" => '\u{4}', "enter" => '\n', "space" => ' ', f => f.chars().next().unwrap().to_ascii_lowercase() }, _ => false };
                if hit {
                    self.promote();
                    let c = Ctx { locals: vec![], barrier: None, reply: None, msg: None, host: self.host(self.scripts[i].ent, None) };
                    self.schedule(i, c, 0);
                }
            },
            In::Custom { name, args, interrupt, maxq } => for i in 0..n {
                let f = match self.hat(i) { Hat::Custom { name: x, fields } if x == name => fields.clone(), _ => continue };
                self.promote();
                let args: Vec<_> = args.iter().map(|x| (x.0.clone(), self.fresh(&x.1))).collect();
                let locals = self.bind(&f, &args);
                if *interrupt && self.stop_script(i) { self.hit("custom interrupt") }
                let c = Ctx { locals, barrier: None, reply: None, msg: None, host: self.host(self.scripts[i].ent, None) };
                self.schedule(i, c, *maxq);
            },
            In::Net { no, ty, fields, reply } => for i in 0..n {
                let f = match self.hat(i) { Hat::Net { ty: x, fields } if x == ty => fields.clone(), _ => continue };
                self.promote();
                let args: Vec<_> = fields.iter().map(|x| (x.0.clone(), self.fresh(&x.1))).collect();
                let locals = self.bind(&f, &args);
                let c = Ctx { locals, barrier: None, reply: if *reply { Some(*no) } else { None }, msg: None, host: self.host(self.scripts[i].ent, None) };
                if self.alive(self.scripts[i].proc) { self.hit("message queued") }
                self.schedule(i, c, usize::MAX);
            },
        }
    }
    pub fn waiting_contexts(&self) -> usize { self.scripts.iter().map(|s| s.queue.len()).sum() }
    /// Runs until at least one observable event was produced.
    pub fn segment(&mut self, budget: usize) {
        self.evs.clear();
        self.sched_op = false;
        for _ in 0..budget {
            self.micro();
            if self.big.get() { self.discard = Some("big value") }
            if self.discard.is_some() || !self.evs.is_empty() { return }
            if self.cells.len() > 60_000 || self.lists.len() > 60_000 { self.discard = Some("model memory"); return }
        }
        self.discard = Some("segment too long");
    }
    fn micro(&mut self) {
        let id = loop {
            match self.queue.pop_front() {
                None => {
                    if self.waiting_contexts() > 0 { self.promote(); if !self.queue.is_empty() { continue } }
                    self.hit("idle reported");
                    self.evs.push(Ev::Idle);
                    return;
                }
                Some(id) => if self.procs.contains_key(&id) { break id }
            }
        };
        let mut p = self.procs.remove(&id).unwrap();
        // the process stays registered (so that scope operations see it) as a placeholder while it runs
        let first_ent = p.frames[0].ent;
        self.procs.insert(id, Proc { frames: vec![Frame { ent: first_ent, def_ent: None, locals: vec![], ctl: vec![], warp: 0, depth: 0, site: None, ret: Cont::Drop }], warp: 0, pend: None, rpc_err: None, sys_err: None, answer: None, msg: None, barrier: p.barrier, reply: None, host: Default::default() });
        let flow = match self.exec(id, &mut p) {
            Ok(f) => f,
            Err((Er::Discard(x), _)) => { self.discard = Some(x); Flow::Next }
            Err((Er::Fail(t), site)) => self.raise(&mut p, t, site),
        };
        let survived = self.procs.contains_key(&id);
        if survived { self.procs.insert(id, p); }
        match flow {
            Flow::Next => if survived { self.queue.push_front(id) } else { self.promote() },
            Flow::Yield => { self.promote(); if survived { self.queue.push_back(id) } }
            Flow::Dead => { self.procs.remove(&id); self.promote(); }
        }
    }
    fn raise(&mut self, p: &mut Proc, t: Txt, site: Option<u32>) -> Flow {
        for fi in (0..p.frames.len()).rev() {
            for ci in (0..p.frames[fi].ctl.len()).rev() {
                if let Ctl::Try { b, i, warp, depth } = &p.frames[fi].ctl[ci] {
                    let (b, i, warp, depth) = (b.clone(), *i, *warp, *depth);
                    if fi + 1 < p.frames.len() { self.hit("error caught across calls") } else { self.hit("error caught") }
                    if p.warp != warp { self.hit("error left a warp") }
                    if p.host.stack.len() != depth { self.hit("host state unwound by error") }
                    if p.frames[fi].ctl.iter().any(|c| matches!(c, Ctl::List { .. })) { self.hit("error caught inside a list operation") }
                    p.frames.truncate(fi + 1);
                    p.frames[fi].ctl.truncate(ci);
                    p.warp = warp;
                    p.host.stack.truncate(depth);
                    if let St::Try { var, handler, .. } = &b[i].k {
                        let c = self.cell(match t { Txt::S(x) => V::S(x), t => V::O(t) });
                        define(&mut p.frames[fi].locals, var, c);
                        p.frames[fi].ctl.push(Ctl::Seq(handler.clone(), 0));
                    }
                    return Flow::Next;
                }
            }
        }
        self.hit("error uncaught");
        // the report writes out every variable in sight
        for (n, c) in &self.globals { if n != LOG { self.snap(&self.cells[*c]); } }
        for f in &p.frames { for (_, c) in f.locals.iter().chain(&self.ents[f.ent].fields) { self.snap(&self.cells[*c]); } }
        if self.big.get() { self.discard = Some("big value"); return Flow::Dead }
        let mut sites: Vec<Option<u32>> = p.frames[1..].iter().map(|f| f.site).collect();
        sites.push(site);
        let text = match t { Txt::S(x) => Sn::S(x.to_string()), Txt::Any => Sn::Any, Txt::Has(x) => Sn::Has(x.to_string()) };
        let locals = p.frames.iter().map(|f| { let mut v: Vec<String> = f.locals.iter().map(|x| x.0.clone()).collect(); v.sort(); v }).collect();
        self.evs.push(Ev::Err { ent: p.frames.last().unwrap().ent as u32, text, sites, locals });
        Flow::Dead
    }

    // ------------------------------------------------------------ expressions

    fn find_cell(&self, p: &Proc, n: &str) -> R<usize> {
        let f = p.frames.last().unwrap();
        if let Some(x) = f.locals.iter().find(|x| x.0 == n) { return Ok(x.1) }
        if let Some(x) = self.ents[f.ent].fields.iter().find(|x| x.0 == n) { return Ok(x.1) }
        if let Some(x) = self.globals.iter().find(|x| x.0 == n) { return Ok(x.1) }
        fail()
    }
    fn num(&self, v: &V) -> R<f64> { if let V::L(_) = v { discard("list arithmetic") } else { self.sc(v) } }
    fn bool(&self, v: &V) -> R<bool> { match v { V::T(x) => Ok(*x), _ => fail() } }
    fn lst(&self, v: &V) -> R<usize> { match v { V::L(x) => Ok(*x), _ => fail() } }
    fn entv(&self, v: &V) -> R<usize> { match v { V::E(x) => Ok(*x), _ => fail() } }
    fn index(&self, v: &V, len: usize) -> R<usize> {
        let x = self.sc(v)?;
        if x != x.trunc() || x < 1.0 || x > len as f64 { return fail() }
        Ok(x as usize - 1)
    }
    fn same(&self, a: &V, b: &V) -> R<bool> {
        Ok(match (a, b) {
            (V::O(_), _) | (_, V::O(_)) => return discard("opaque comparison"),
            (V::N(a), V::N(b)) => a.to_bits() == b.to_bits(),
            (a, b) => a == b,
        })
    }
    fn evs(&mut self, p: &Proc, xs: &[Ex]) -> R<Vec<V>> { xs.iter().map(|x| self.ev(p, x)).collect() }
    fn ev(&mut self, p: &Proc, e: &Ex) -> R<V> {
        Ok(match e {
            Ex::N(v) => V::N(*v + 0.0), Ex::S(v) => s(v), Ex::T(v) => V::T(*v),
            Ex::V(n) => self.cells[self.find_cell(p, n)?].clone(),
            Ex::L(xs) => { let v = self.evs(p, xs)?; self.list(v) }
            Ex::Add(a, b) => { let (a, b) = (self.ev(p, a)?, self.ev(p, b)?); self.work = 0; self.arith("Add", &a, &b)? }
            Ex::Sub(a, b) => { let (a, b) = (self.ev(p, a)?, self.ev(p, b)?); self.work = 0; self.arith("Sub", &a, &b)? }
            Ex::Lt(a, b) => { let (a, b) = (self.ev(p, a)?, self.ev(p, b)?); V::T(self.rel("Lt", &a, &b)?) }
            Ex::Gt(a, b) => { let (a, b) = (self.ev(p, a)?, self.ev(p, b)?); V::T(self.rel("Gt", &a, &b)?) }
            Ex::Eq(a, b) => { let (a, b) = (self.ev(p, a)?, self.ev(p, b)?); V::T(self.rel("Eq", &a, &b)?) }
            Ex::Same(a, b) => { let (a, b) = (self.ev(p, a)?, self.ev(p, b)?); V::T(self.same(&a, &b)?) }
            Ex::Not(a) => { let a = self.ev(p, a)?; self.work = 0; self.not(&a)? }
            Ex::And(a, b) => { let a = self.ev(p, a)?; if !self.bool(&a)? { V::T(false) } else { let b = self.ev(p, b)?; V::T(self.bool(&b)?) } }
            Ex::Or(a, b) => { let a = self.ev(p, a)?; if self.bool(&a)? { V::T(true) } else { let b = self.ev(p, b)?; V::T(self.bool(&b)?) } }
            Ex::Cond(c, a, b) => { let c = self.ev(p, c)?; if self.bool(&c)? { self.ev(p, a)? } else { self.ev(p, b)? } }
            Ex::Cat(xs) => {
                let mut r = String::new();
                let mut opaque = false;
                for v in self.evs(p, xs)? { if let V::O(_) = v { opaque = true } else { self.shown(&v, &mut vec![], &mut r)? } }
                if r.len() > 20_000 { return discard("big text") }
                if opaque { V::O(Txt::Any) } else { s(&r) }
            }
            Ex::Get(l, i) => { let (i, l) = (self.ev(p, i)?, self.ev(p, l)?); let l = self.lst(&l)?; self.work = 0; if let V::L(_) = i { self.hit("several positions at once") } self.unary(&i, true, &mut |m, i| { let k = m.index(i, m.lists[l].len())?; Ok(m.lists[l][k].clone()) })? }
            Ex::Lit(l) => self.literal(l),
            Ex::Op(n, xs) => self.op(p, n, xs)?,
            Ex::Last(l) => { let l = self.ev(p, l)?; let l = self.lst(&l)?; match self.lists[l].last() { Some(x) => x.clone(), None => return fail() } }
            Ex::Len(l) => { let l = self.ev(p, l)?; V::N(self.lists[self.lst(&l)?].len() as f64) }
            Ex::Cdr(l) => { let l = self.ev(p, l)?; let l = self.lst(&l)?; if self.lists[l].is_empty() { return fail() } let v = self.lists[l][1..].to_vec(); self.list(v) }
            Ex::Cons(x, l) => { let (x, l) = (self.ev(p, x)?, self.ev(p, l)?); let l = self.lst(&l)?; let mut v = vec![x]; v.extend(self.lists[l].iter().cloned()); self.list(v) }
            Ex::Copy(l) => { let l = self.ev(p, l)?; let v = self.lists[self.lst(&l)?].clone(); self.list(v) }
            Ex::This => V::E(p.frames.last().unwrap().ent),
            Ex::Ent(n) => match self.prog.ents.iter().position(|e| e.name == *n) { Some(i) => V::E(i), None => return fail() },
            Ex::Timer => V::N(self.time()?.saturating_sub(self.timer) as f64 / 1000.0),
            Ex::Answer => p.answer.clone().unwrap_or_else(|| s("")),
            Ex::Msg => p.msg.clone().unwrap_or_else(|| s("")),
            Ex::RpcErr => p.rpc_err.clone().unwrap_or_else(|| s("")),
            Ex::SysErr => p.sys_err.clone().unwrap_or_else(|| s("")),
            Ex::UnixMs => if self.opts.clock == ClockMode::Real { V::N(self.now as f64) } else { return fail() },
            Ex::Clo { params, caps, body } => {
                let mut cs = vec![];
                for c in caps { let cell = self.find_cell(p, c)?; define(&mut cs, c, cell) }
                self.clos.push(Closure { params: params.clone(), caps: cs, body: body.clone(), def_ent: p.frames.last().unwrap().def_ent });
                V::C(self.clos.len() - 1)
            }
        })
    }
    fn text(&self, v: &V) -> R<Txt> { Ok(match v { V::S(x) => Txt::S(x.clone()), V::N(x) => Txt::S(Rc::from(stringify(*x).as_str())), V::O(t) => t.clone(), _ => return fail() }) }
    fn simple(&self, v: &V) -> R<Sn> {
        fn ok(s: &Sn) -> bool { match s { Sn::L(xs) => xs.iter().all(ok), Sn::C | Sn::E(_) | Sn::Cyc => false, _ => true } }
        let x = self.snap(v);
        if ok(&x) { Ok(x) } else { fail() }
    }

    // ------------------------------------------------------------ execution of one script

    fn exec(&mut self, id: u64, p: &mut Proc) -> Result<Flow, (Er, Option<u32>)> {
        if let Some(pd) = p.pend.take() {
            match pd {
                Pend::Turn => (),
                Pend::Sleep(until) => {
                    let t = self.time().map_err(|e| (e, None))?;
                    if t < until { p.pend = Some(Pend::Sleep(until)); self.evs.push(Ev::Yield); return Ok(Flow::Yield) }
                    self.hit("sleep ended");
                }
                Pend::Barrier(b) => {
                    if self.procs.values().any(|q| q.barrier == Some(b)) { p.pend = Some(Pend::Barrier(b)); self.evs.push(Ev::Yield); return Ok(Flow::Yield) }
                    self.hit("barrier released");
                }
                Pend::Op { done_at, seq, res, act, ent, special, cont, site } => {
                    if self.now < done_at { p.pend = Some(Pend::Op { done_at, seq, res, act, ent, special, cont, site }); self.evs.push(Ev::Yield); return Ok(Flow::Yield) }
                    let er = |t| Err((Er::Fail(t), Some(site)));
                    let soft = match act { Act::Rpc => self.opts.rpc_soft, Act::Sys => self.opts.sys_soft, _ => false };
                    match res {
                        Res::PollErr => { self.hit("poll failure"); return er(Txt::Any) }
                        Res::PerfErr => unreachable!(),
                        Res::Err => {
                            let m: Rc<str> = Rc::from(format!("hosterr{seq}").as_str());
                            if !soft { self.hit("hard host error"); return er(Txt::Has(m)) }
                            self.hit("soft host error");
                            let v = V::S(m);
                            match act { Act::Rpc => p.rpc_err = Some(v.clone()), Act::Sys => p.sys_err = Some(v.clone()), _ => unreachable!() }
                            return self.deliver(p, cont, v);
                        }
                        _ => {
                            let v = match special {
                                Some(v) => v,
                                None => self.host_value(res, seq),
                            };
                            match act {
                                Act::Cmd => return Ok(Flow::Next),
                                Act::Rpc => p.rpc_err = None,
                                Act::Sys => p.sys_err = None,
                                Act::Input => { p.answer = Some(v); return Ok(Flow::Next) }
                                Act::Push => (),
                            }
                            return self.deliver(p, cont, v);
                        }
                    }
                }
                Pend::Reply { done_at, seq, res, cont, site } => {
                    if self.now < done_at { p.pend = Some(Pend::Reply { done_at, seq, res, cont, site }); self.evs.push(Ev::Yield); return Ok(Flow::Yield) }
                    let v = match res {
                        Res::Err => { self.hit("reply timeout"); s("") }
                        Res::PollErr => { self.hit("bad reply"); return Err((Er::Fail(Txt::Any), Some(site))) }
                        Res::PerfErr => unreachable!(),
                        res => self.host_value(res, seq),
                    };
                    return self.deliver(p, cont, v);
                }
            }
            return Ok(Flow::Next);
        }
        let f = p.frames.last_mut().unwrap();
        let Some(top) = f.ctl.last_mut() else { return self.ret(p, s("")) };
        match top {
            Ctl::Seq(b, pc) => {
                if *pc >= b.len() { f.ctl.pop(); return Ok(Flow::Next) }
                let (b, i) = (b.clone(), *pc);
                *pc += 1;
                self.stmt(id, p, b, i)
            }
            Ctl::Warp => { f.ctl.pop(); p.warp -= 1; Ok(Flow::Next) }
            Ctl::Try { .. } => { f.ctl.pop(); Ok(Flow::Next) }
            Ctl::Repeat { left, b, i, on } => {
                if *on { *left -= 1.0; *on = false; return Ok(self.yld(p)) }
                if *left > 0.0 {
                    *on = true;
                    let St::Repeat(_, body) = &b[*i].k else { unreachable!() };
                    let body = body.clone();
                    f.ctl.push(Ctl::Seq(body, 0));
                } else { f.ctl.pop(); }
                Ok(Flow::Next)
            }
            Ctl::Forever { b, i, on } => {
                if *on { *on = false; return Ok(self.yld(p)) }
                *on = true;
                let St::Forever(body) = &b[*i].k else { unreachable!() };
                let body = body.clone();
                f.ctl.push(Ctl::Seq(body, 0));
                Ok(Flow::Next)
            }
            Ctl::Until { b, i, on } => {
                if *on { *on = false; return Ok(self.yld(p)) }
                let (b, i) = (b.clone(), *i);
                let St::Until(c, body) = &b[i].k else { unreachable!() };
                let v = self.ev(p, c).and_then(|v| self.bool(&v)).map_err(|e| (e, Some(b[i].id)))?;
                let f = p.frames.last_mut().unwrap();
                if v { f.ctl.pop(); } else {
                    if let Some(Ctl::Until { on, .. }) = f.ctl.last_mut() { *on = true }
                    f.ctl.push(Ctl::Seq(body.clone(), 0));
                }
                Ok(Flow::Next)
            }
            Ctl::WaitUntil { b, i } => {
                let (b, i) = (b.clone(), *i);
                let St::WaitUntil(c) = &b[i].k else { unreachable!() };
                let v = self.ev(p, c).and_then(|v| self.bool(&v)).map_err(|e| (e, Some(b[i].id)))?;
                if v { p.frames.last_mut().unwrap().ctl.pop(); Ok(Flow::Next) } else { Ok(self.yld(p)) }
            }
            Ctl::For { b, i, on, cur, cnt, d } => {
                if *on { *cnt -= 1.0; *cur += *d; *on = false; return Ok(self.yld(p)) }
                if *cnt < 0.0 { f.ctl.pop(); return Ok(Flow::Next) }
                *on = true;
                let (b, i, cur) = (b.clone(), *i, *cur);
                let St::For(v, _, _, body) = &b[i].k else { unreachable!() };
                let c = self.find_cell(p, v).map_err(|e| (e, Some(b[i].id)))?;
                self.cells[c] = V::N(cur);
                p.frames.last_mut().unwrap().ctl.push(Ctl::Seq(body.clone(), 0));
                Ok(Flow::Next)
            }
            Ctl::Foreach { b, i, on, items } => {
                if *on { *on = false; return Ok(self.yld(p)) }
                let Some(x) = items.pop_front() else { f.ctl.pop(); return Ok(Flow::Next) };
                *on = true;
                let (b, i) = (b.clone(), *i);
                let St::Foreach(v, _, body) = &b[i].k else { unreachable!() };
                let c = self.find_cell(p, v).map_err(|e| (e, Some(b[i].id)))?;
                self.cells[c] = x;
                p.frames.last_mut().unwrap().ctl.push(Ctl::Seq(body.clone(), 0));
                Ok(Flow::Next)
            }
            Ctl::SayDur { b, i, phase } => {
                *phase += 1;
                let (b, i, ph) = (b.clone(), *i, *phase);
                let St::Say { think, dur, .. } = &b[i].k else { unreachable!() };
                let site = b[i].id;
                match ph {
                    1 => { let v = self.ev(p, dur.as_ref().unwrap()).map_err(|e| (e, Some(site)))?; self.sleep(p, &v, site) }
                    _ => { p.frames.last_mut().unwrap().ctl.pop(); self.perform(p, if *think { "think" } else { "say" }.into(), vec![], Act::Cmd, None, Cont::Drop, site) }
                }
            }
            Ctl::List { k, f: clo, items, acc, cur, cont, site } => {
                let site = *site;
                match (k, items.pop_front()) {
                    (LK::Combine, Some(x)) if cur.is_none() => { *cur = Some(x); Ok(Flow::Next) }
                    (LK::Combine, Some(x)) => { let (clo, a) = (clo.clone(), cur.clone().unwrap()); self.call_clo(p, None, clo, vec![a, x], Cont::Item, site) }
                    (_, Some(x)) => { *cur = Some(x.clone()); let clo = clo.clone(); self.call_clo(p, None, clo, vec![x], Cont::Item, site) }
                    (k, None) => {
                        let (k, acc, cur, cont) = (*k, std::mem::take(acc), cur.take(), cont.clone());
                        f.ctl.pop();
                        let v = match k { LK::Map | LK::Keep => self.list(acc), LK::Find => s(""), LK::Combine => cur.unwrap_or(V::N(0.0)) };
                        self.deliver(p, cont, v)
                    }
                }
            }
        }
    }
    fn yld(&mut self, p: &Proc) -> Flow {
        if p.warp > 0 { self.hit("yield inside warp"); Flow::Next } else {
            if self.queue.len() > 1 { self.hit("several scripts took turns") }
            if p.frames.iter().map(|f| f.ctl.iter().filter(|c| !matches!(c, Ctl::Seq(..) | Ctl::Warp | Ctl::Try { .. })).count()).sum::<usize>() > 1 { self.hit("nested loops suspended") }
            self.hit("loop suspended"); self.evs.push(Ev::Yield); Flow::Yield }
    }
    fn ret(&mut self, p: &mut Proc, v: V) -> Result<Flow, (Er, Option<u32>)> {
        let f = p.frames.last().unwrap();
        if p.frames.len() == 1 {
            self.evs.push(Ev::Term { ent: f.ent as u32, val: self.snap(&v) });
            return Ok(Flow::Dead);
        }
        if f.ctl.len() > 1 { self.hit("return out of nested blocks") }
        if p.warp != f.warp { self.hit("return out of a warp") }
        if p.host.stack.len() != f.depth { self.hit("host state unwound by return") }
        let f = p.frames.pop().unwrap();
        p.warp = f.warp;
        p.host.stack.truncate(f.depth);
        self.deliver(p, f.ret, v)
    }
    fn deliver(&mut self, p: &mut Proc, c: Cont, v: V) -> Result<Flow, (Er, Option<u32>)> {
        match c {
            Cont::Drop => Ok(Flow::Next),
            Cont::Set { var, pre, site } => {
                let v = match pre { Some(mut xs) => { xs.push(v); self.list(xs) } None => v };
                let c = self.find_cell(p, &var).map_err(|e| (e, Some(site)))?;
                self.cells[c] = v;
                Ok(Flow::Next)
            }
            Cont::Item => {
                let f = p.frames.last_mut().unwrap();
                let Some(Ctl::List { k, acc, cur, cont, site, .. }) = f.ctl.last_mut() else { unreachable!() };
                match k {
                    LK::Map => { acc.push(v); Ok(self.yld(p)) }
                    LK::Combine => { *cur = Some(v); Ok(self.yld(p)) }
                    LK::Keep | LK::Find => {
                        let b = match v { V::T(b) => b, _ => return Err((Er::Fail(Txt::Any), Some(*site))) };
                        if !b { return Ok(self.yld(p)) }
                        let x = cur.take().unwrap();
                        if *k == LK::Keep { acc.push(x); Ok(self.yld(p)) } else {
                            let cont = cont.clone();
                            f.ctl.pop();
                            self.deliver(p, cont, x)
                        }
                    }
                }
            }
        }
    }
    fn sleep(&mut self, p: &mut Proc, v: &V, site: u32) -> Result<Flow, (Er, Option<u32>)> {
        let ms = self.num(v).map(|x| x * 1000.0).map_err(|e| (e, Some(site)))?;
        if ms <= 0.0 { self.hit("sleep of zero"); p.pend = Some(Pend::Turn); self.evs.push(Ev::Yield); return Ok(Flow::Yield) }
        let t = self.time().map_err(|e| (e, Some(site)))?;
        p.pend = Some(Pend::Sleep(t.saturating_add(ms as u64)));
        Ok(Flow::Next)
    }
    /// What the host answers to one of its operations.
    fn host_value(&mut self, res: Res, seq: u32) -> V {
        match res { Res::Num => V::N(1000.0 + seq as f64), Res::Text => s(&format!("r{seq}")), Res::Empty => { self.hit("empty answers"); s("") } Res::Yes => V::T(true), _ => self.list(vec![V::N(seq as f64), s("x")]) }
    }
    fn outcome(&mut self) -> (u32, Outcome) {
        let seq = self.seq;
        self.seq += 1;
        (seq, self.outcomes.get(seq as usize).copied().unwrap_or(Outcome { delay: 0, res: Res::Num }))
    }
    fn perform(&mut self, p: &mut Proc, what: String, args: Vec<V>, act: Act, mut special: Option<V>, cont: Cont, site: u32) -> Result<Flow, (Er, Option<u32>)> {
        let (seq, mut o) = self.outcome();
        let ent = p.frames.last().unwrap().ent;
        if self.opts.props && o.res.fine() {
            match self.looks_op(ent, &what, &args) {
                Ok(Some(v)) => special = Some(v),
                Ok(None) => (),
                Err(Er::Fail(_)) => { self.hit("property refused"); o.res = Res::Err }
                Err(e) => return Err((e, Some(site))),
            }
        }
        let args = args.iter().map(|x| self.snap(x)).collect();
        self.hit("host operations");
        self.evs.push(Ev::Perf { seq, ent: ent as u32, what, args });
        if o.res == Res::PerfErr { self.hit("perform failure"); return Err((Er::Fail(Txt::Any), Some(site))) }
        if o.delay == NEVER { self.hit("operation never completes") }
        p.pend = Some(Pend::Op { done_at: self.now.saturating_add(o.delay), seq, res: o.res, act, ent, special, cont, site });
        Ok(Flow::Next)
    }
    fn send(&mut self, p: &mut Proc, target: V, ty: &str, vals: Vec<(String, V)>, wait: Option<Cont>, site: u32) -> Result<Flow, (Er, Option<u32>)> {
        let er = |e| (e, Some(site));
        let one = |v: &V| match v { V::S(x) => Ok(x.to_string()), V::O(_) => discard("opaque target"), _ => fail() };
        let targets = match &target { V::L(l) => self.lists[*l].iter().map(one).collect::<R<Vec<_>>>(), v => one(v).map(|x| vec![x]) }.map_err(er)?;
        let mut out: Vec<(String, Sn)> = vec![];
        for (k, v) in &vals { let v = self.simple(v).map_err(er)?; match out.iter_mut().find(|x| x.0 == *k) { Some(x) => x.1 = v, None => out.push((k.clone(), v)) } }
        let (seq, o) = self.outcome();
        self.evs.push(Ev::Send { seq, ty: ty.into(), vals: out, targets, wait: wait.is_some() });
        if o.res == Res::PerfErr { self.hit("send failure"); return Err(er(Er::Fail(Txt::Any))) }
        if let Some(cont) = wait {
            self.hit("reply awaited");
            if o.delay == NEVER { self.hit("reply never comes") }
            p.pend = Some(Pend::Reply { done_at: self.now.saturating_add(o.delay), seq, res: o.res, cont, site });
        }
        Ok(Flow::Next)
    }
    fn prep_clo(&mut self, clo: &V, args: Vec<V>) -> R<(Vec<(String, usize)>, Body, Option<usize>)> {
        let c = match clo { V::C(c) => self.clos[*c].clone(), _ => return fail() };
        if c.params.len() != args.len() { return fail() }
        let mut locals = c.caps.clone();
        for (n, v) in c.params.iter().zip(args) { let cell = self.cell(v); define(&mut locals, n, cell) }
        Ok((locals, c.body, c.def_ent))
    }
    fn call_clo(&mut self, p: &mut Proc, ent: Option<V>, clo: V, args: Vec<V>, ret: Cont, site: u32) -> Result<Flow, (Er, Option<u32>)> {
        let er = |e| (e, Some(site));
        let (locals, body, def_ent) = self.prep_clo(&clo, args).map_err(er)?;
        let ent = match ent { None => p.frames.last().unwrap().ent, Some(v) => { self.hit("closure run for another sprite"); self.entv(&v).map_err(er)? } };
        if p.frames.len() >= self.opts.max_depth { self.hit("depth limit (closure)"); return Err(er(Er::Fail(Txt::Any))) }
        self.hit("closure called");
        self.hit(if matches!(ret, Cont::Item) { "list operation with calls" } else { "nested scopes" });
        p.frames.push(Frame { ent, def_ent, locals, ctl: vec![Ctl::Seq(body, 0)], warp: p.warp, depth: p.host.stack.len(), site: Some(site), ret });
        Ok(Flow::Next)
    }
    fn eff(&mut self, p: &mut Proc, e: &Eff, cont: Cont, site: u32) -> Result<Flow, (Er, Option<u32>)> {
        let er = |e| (e, Some(site));
        match e {
            Eff::Rpc { host, service, rpc, args } => {
                let mut out: Vec<(String, V)> = vec![];
                for (k, x) in args { let v = self.ev(p, x).map_err(er)?; match out.iter_mut().find(|y| y.0 == *k) { Some(y) => y.1 = v, None => out.push((k.clone(), v)) } }
                let what = format!("rpc {} {service} {rpc} ({})", host.as_deref().unwrap_or("-"), out.iter().map(|x| x.0.as_str()).collect::<Vec<_>>().join(","));
                self.perform(p, what, out.into_iter().map(|x| x.1).collect(), Act::Rpc, None, cont, site)
            }
            Eff::Sys { name, args } => {
                let args = self.evs(p, args).map_err(er)?;
                let ok = self.outcomes.get(self.seq as usize).map(|o| o.res != Res::PerfErr).unwrap_or(true);
                let mut special = None;
                if ok {
                    match name.as_str() {
                        "hpush" => { p.host.stack.push(args.first().cloned().unwrap_or(V::N(0.0))); special = Some(V::N(p.host.stack.len() as f64)) }
                        "hpop" => special = Some(p.host.stack.pop().unwrap_or(V::N(-1.0))),
                        "hget" => { let v = vec![V::N(p.host.stack.len() as f64), p.host.stack.last().cloned().unwrap_or(V::N(-1.0)), V::N(p.host.ent as f64), p.host.disp.clone().unwrap_or_else(|| s("none"))]; special = Some(self.list(v)) }
                        "htag" => { p.host.tag = Some(args.first().cloned().unwrap_or(V::N(0.0))); special = Some(V::N(0.0)) }
                        _ => (),
                    }
                }
                self.perform(p, format!("sys {name}"), args, Act::Sys, special, cont, site)
            }
            Eff::Block { name, args } => { let args = self.evs(p, args).map_err(er)?; self.perform(p, format!("block {name}"), args, Act::Push, None, cont, site) }
            Eff::Prop(x) => self.perform(p, format!("get {}", PROPS[(*x % 6) as usize]), vec![], Act::Push, None, cont, site),
            Eff::Get(x) => self.perform(p, format!("get {x}"), vec![], Act::Push, None, cont, site),
            Eff::Call { f, args, ups } => {
                for u in ups { let c = self.cell(V::N(0.0)); define(&mut p.frames.last_mut().unwrap().locals, u, c) }
                let args = self.evs(p, args).map_err(er)?;
                if p.frames.len() >= self.opts.max_depth { self.hit("depth limit (block)"); return Err(er(Er::Fail(Txt::Any))) }
                let def = p.frames.last().unwrap().def_ent;
                let prog = self.prog.clone();
                let (func, def_ent) = match def.and_then(|d| prog.ents[d].funcs.iter().find(|x| x.name == *f)) {
                    Some(x) => (x, def),
                    None => match prog.funcs.iter().find(|x| x.name == *f) { Some(x) => (x, None), None => return Err((Er::Discard("unknown function"), None)) },
                };
                if func.params.len() != args.len() { return Err((Er::Discard("argument count"), None)) }
                let mut locals = vec![];
                for (n, v) in func.params.iter().zip(args) { let c = self.cell(v); define(&mut locals, n, c) }
                self.hit("nested scopes");
                let mut bad = false;
                for u in &func.ups {
                    let v = locals.iter().find(|x| x.0 == *u).map(|x| self.cells[x.1].clone());
                    let cell = match &v { Some(V::S(n)) => p.frames.last().unwrap().locals.iter().find(|x| *x.0 == **n).map(|x| x.1), _ => None };
                    match cell { Some(c) => { self.hit("caller's variable shared with a block"); define(&mut locals, u, c) } None => { bad = true; break } }
                }
                let fr = p.frames.last().unwrap();
                let frame = Frame { ent: fr.ent, def_ent, locals, ctl: vec![Ctl::Seq(func.body.clone(), 0)], warp: p.warp, depth: p.host.stack.len(), site: Some(site), ret: cont };
                p.frames.push(frame);
                if bad { return Err((Er::Fail(Txt::Any), None)) }
                Ok(Flow::Next)
            }
            Eff::CallClo { ent, clo, args } => {
                let ent = match ent { Some(e) => Some(self.ev(p, e).map_err(er)?), None => None };
                let clo = self.ev(p, clo).map_err(er)?;
                let args = self.evs(p, args).map_err(er)?;
                self.call_clo(p, ent, clo, args, cont, site)
            }
            Eff::NetWait { target, ty, vals } => {
                let mut out = vec![];
                for (k, x) in vals { out.push((k.clone(), self.ev(p, x).map_err(er)?)) }
                let t = self.ev(p, target).map_err(er)?;
                self.send(p, t, ty, out, Some(cont), site)
            }
            Eff::Clone(e) => {
                let v = self.ev(p, e).map_err(er)?;
                let t = self.entv(&v).map_err(er)?;
                let (def, orig, costume, looks) = (self.ents[t].def, self.ents[t].orig.unwrap_or(t), self.ents[t].costume, self.ents[t].looks.clone());
                if self.ents[t].orig.is_some() { self.hit("clone of a clone") }
                let fields = self.ents[t].fields.clone().into_iter().map(|(n, c)| { let v = self.cells[c].clone(); (n, self.cell(v)) }).collect();
                self.ents.push(Ent { def, orig: Some(orig), fields, costume, looks });
                let me = self.ents.len() - 1;
                self.hit("clone created");
                self.sched_op = true;
                let n = self.scripts.len();
                for i in 0..n { if self.scripts[i].ent == orig { let d = self.scripts[i].def; self.scripts.push(Script { ent: me, def: d, proc: None, queue: Default::default() }) } }
                for i in n..self.scripts.len() {
                    if *self.hat(i) == Hat::Clone {
                        self.promote();
                        let c = Ctx { locals: vec![], barrier: None, reply: None, msg: None, host: self.host(me, Some(&p.host)) };
                        self.schedule(i, c, 0);
                    }
                }
                if self.ents.len() > 80 { self.discard = Some("too many clones") }
                self.deliver(p, cont, V::E(me))
            }
            Eff::Map { f, list } | Eff::Keep { f, list } | Eff::Find { f, list } | Eff::Combine { f, list } => {
                let k = match e { Eff::Map { .. } => LK::Map, Eff::Keep { .. } => LK::Keep, Eff::Find { .. } => LK::Find, _ => LK::Combine };
                let f = self.ev(p, f).map_err(er)?;
                let l = self.ev(p, list).map_err(er)?;
                let l = self.lst(&l).map_err(er)?;
                let items = self.lists[l].iter().cloned().collect();
                p.frames.last_mut().unwrap().ctl.push(Ctl::List { k, f, items, acc: vec![], cur: None, cont, site });
                Ok(Flow::Next)
            }
        }
    }
    fn cmd(&mut self, p: &mut Proc, what: &str, args: Vec<V>, site: u32) -> Result<Flow, (Er, Option<u32>)> { self.perform(p, what.into(), args, Act::Cmd, None, Cont::Drop, site) }
    fn stmt(&mut self, id: u64, p: &mut Proc, b: Body, i: usize) -> Result<Flow, (Er, Option<u32>)> {
        let site = b[i].id;
        let er = |e| (e, Some(site));
        let hd = er;
        macro_rules! ctl { ($c:expr) => {{ let c = $c; p.frames.last_mut().unwrap().ctl.push(c); }} }
        macro_rules! ev { ($e:expr) => { self.ev(p, $e).map_err(er)? } }
        match &b[i].k {
            St::Log(xs) => {
                let mut v = vec![V::N(site as f64)];
                v.extend(self.evs(p, xs).map_err(er)?);
                let l = self.list(v);
                self.evs.push(Ev::Log(self.snap(&l)));
            }
            St::Set(n, e) => { let v = ev!(e); let c = self.find_cell(p, n).map_err(er)?; self.cells[c] = v }
            St::Change(n, e) => {
                let v = ev!(e);
                let c = self.find_cell(p, n).map_err(er)?;
                let old = self.cells[c].clone();
                self.work = 0;
                let r = self.arith("Add", &old, &v).map_err(er)?;
                self.cells[c] = r
            }
            St::Decl(vs) => for v in vs { let c = self.cell(V::N(0.0)); define(&mut p.frames.last_mut().unwrap().locals, v, c) },
            St::Let { var, pre, eff } => {
                let pre = if pre.is_empty() { None } else { Some(self.evs(p, pre).map_err(er)?) };
                return self.eff(p, eff, Cont::Set { var: var.clone(), pre, site }, site);
            }
            St::Do(e) => {
                let cont = match e { Eff::Prop(_) | Eff::Get(_) | Eff::NetWait { .. } | Eff::Map { .. } | Eff::Keep { .. } | Eff::Find { .. } | Eff::Combine { .. } => Cont::Set { var: "junk".into(), pre: None, site }, _ => Cont::Drop };
                return self.eff(p, e, cont, site);
            }
            St::If(c, body) => { let v = self.ev(p, c).and_then(|v| self.bool(&v)).map_err(hd)?; if v { ctl!(Ctl::Seq(body.clone(), 0)) } }
            St::IfElse(c, x, y) => { let v = self.ev(p, c).and_then(|v| self.bool(&v)).map_err(hd)?; ctl!(Ctl::Seq(if v { x.clone() } else { y.clone() }, 0)) }
            St::Repeat(n, _) => match self.ev(p, n).map_err(hd)? { V::N(left) => ctl!(Ctl::Repeat { left, b: b.clone(), i, on: false }), _ => return Err((Er::Discard("repeat count"), None)) },
            St::Forever(_) => ctl!(Ctl::Forever { b: b.clone(), i, on: false }),
            St::Until(..) => ctl!(Ctl::Until { b: b.clone(), i, on: false }),
            St::WaitUntil(..) => ctl!(Ctl::WaitUntil { b: b.clone(), i }),
            St::For(v, x, z, _) => {
                let c = self.cell(V::N(0.0));
                define(&mut p.frames.last_mut().unwrap().locals, v, c);
                let x = self.ev(p, x).and_then(|v| self.num(&v)).map_err(hd)?;
                let z = self.ev(p, z).and_then(|v| self.num(&v)).map_err(hd)?;
                ctl!(Ctl::For { b: b.clone(), i, on: false, cur: x, cnt: fin((z - x).abs()).map_err(er)?, d: if x > z { -1.0 } else { 1.0 } })
            }
            St::Foreach(v, l, _) => {
                let c = self.cell(V::N(0.0));
                define(&mut p.frames.last_mut().unwrap().locals, v, c);
                let l = self.ev(p, l).and_then(|v| self.lst(&v)).map_err(hd)?;
                let items = self.lists[l].iter().cloned().collect();
                ctl!(Ctl::Foreach { b: b.clone(), i, on: false, items })
            }
            St::Warp(body) => { p.warp += 1; if p.warp > 1 { self.hit("nested warp") } ctl!(Ctl::Warp); ctl!(Ctl::Seq(body.clone(), 0)) }
            St::Try { body, .. } => { ctl!(Ctl::Try { b: b.clone(), i, warp: p.warp, depth: p.host.stack.len() }); ctl!(Ctl::Seq(body.clone(), 0)) }
            St::Throw(e) => { let v = ev!(e); let t = self.text(&v).map_err(er)?; return Err(er(Er::Fail(t))) }
            St::Ret(e) => { let v = ev!(e); return self.ret(p, v) }
            St::Stop(StopMode::Block) => return self.ret(p, s("")),
            St::Stop(StopMode::This) => { self.hit("stop this script"); self.sched_op = true; return Ok(Flow::Dead) }
            St::Stop(StopMode::All) => {
                self.hit("stop all");
                self.sched_op = true;
                for i in 0..self.scripts.len() { self.stop_script(i); }
                self.procs.clear();
                self.queue.clear();
                return Ok(Flow::Dead);
            }
            St::Stop(StopMode::Others) => {
                self.hit("stop all but this");
                self.sched_op = true;
                self.procs.retain(|k, _| *k == id);
            }
            St::Stop(StopMode::MyOthers) => {
                self.sched_op = true;
                let e = p.frames.last().unwrap().ent;
                let n = self.procs.len();
                self.procs.retain(|k, q| *k == id || q.frames[0].ent != e);
                if self.procs.len() != n { self.hit("stop others in sprite killed something") }
            }
            St::Bcast { msg, target, wait } => {
                let m = ev!(msg);
                let targets = match target {
                    None => None,
                    Some(t) => Some(match ev!(t) { V::L(l) => self.lists[l].iter().map(|x| self.entv(x)).collect::<R<Vec<_>>>().map_err(er)?, v => vec![self.entv(&v).map_err(er)?] }),
                };
                let m = match self.text(&m).map_err(er)? { Txt::S(x) => x, _ => return Err((Er::Discard("opaque message"), None)) };
                self.sched_op = true;
                let barrier = if *wait { self.next_barrier += 1; p.pend = Some(Pend::Barrier(self.next_barrier)); Some(self.next_barrier) } else { None };
                let mut n = 0;
                let mut self_hit = false;
                let host = p.host.clone();
                for i in 0..self.scripts.len() {
                    let hit = match self.hat(i) { Hat::Local(None) => true, Hat::Local(Some(x)) => **x == *m, _ => false };
                    if !hit || targets.as_ref().map(|t| !t.contains(&self.scripts[i].ent)).unwrap_or(false) { continue }
                    self.promote();
                    if self.scripts[i].proc == Some(id) { self_hit = true }
                    if self.stop_script(i) { self.hit("broadcast restarted a running receiver") }
                    let c = Ctx { locals: vec![], barrier, reply: None, msg: Some(V::S(m.clone())), host: self.host(self.scripts[i].ent, Some(&host)) };
                    self.schedule(i, c, 0);
                    n += 1;
                }
                if self_hit { self.hit("broadcaster restarted itself"); if n > 1 { self.hit("broadcaster among several receivers") } }
                if n == 0 { self.hit("broadcast to nobody") } else if *wait { self.hit("broadcast and wait") }
                if targets.is_some() { self.hit("targeted broadcast") }
            }
            St::Sleep(e) => { let v = ev!(e); return self.sleep(p, &v, site) }
            St::Delete => {
                let e = p.frames.last().unwrap().ent;
                if self.ents[e].orig.is_some() {
                    self.hit("clone deleted");
                    self.sched_op = true;
                    let n: usize = self.scripts.iter().filter(|x| x.ent == e).map(|x| x.queue.len()).sum();
                    if n > 0 { self.hit("clone deleted with waiting messages") }
                    self.scripts.retain(|x| x.ent != e);
                    self.procs.retain(|_, q| q.frames[0].ent != e);
                } else { self.hit("delete on an original") }
            }
            St::Fork { clo, args } => {
                let c = ev!(clo);
                let args = self.evs(p, args).map_err(er)?;
                let (locals, body, def_ent) = self.prep_clo(&c, args).map_err(er)?;
                self.hit("closure launched");
                self.sched_op = true;
                let ent = p.frames.last().unwrap().ent;
                let host = self.host(ent, Some(&p.host));
                self.promote();
                self.spawn(ent, def_ent, body, Ctx { locals, barrier: None, reply: None, msg: None, host });
            }
            St::NetSend { target, ty, vals } => {
                let mut out = vec![];
                for (k, x) in vals { out.push((k.clone(), ev!(x))) }
                let t = ev!(target);
                return self.send(p, t, ty, out, None, site);
            }
            St::NetReply(e) => {
                let v = ev!(e);
                let v = self.simple(&v).map_err(er)?;
                match p.reply.take() { Some(msg) => { self.hit("replied"); self.evs.push(Ev::Reply { msg, val: v }) } None => self.hit("reply without request") }
            }
            St::Say { think, v, dur } => {
                let v = ev!(v);
                let args = match &v { V::S(x) if x.is_empty() => vec![], _ => vec![v] };
                if dur.is_some() { ctl!(Ctl::SayDur { b: b.clone(), i, phase: 0 }) }
                return self.cmd(p, if *think { "think" } else { "say" }, args, site);
            }
            St::Ask(e) => { let v = ev!(e); let args = match &v { V::S(x) if x.is_empty() => vec![], _ => vec![v] }; return self.perform(p, "ask".into(), args, Act::Input, None, Cont::Drop, site) }
            St::SetProp(x, e) => { let v = ev!(e); return self.cmd(p, &format!("set {}", SPROPS[(*x % 4) as usize]), vec![v], site) }
            St::ChProp(x, e) => { let v = ev!(e); return self.cmd(p, &format!("change {}", SPROPS[(*x % 4) as usize]), vec![v], site) }
            St::Goto(x, y) => { let (x, y) = (ev!(x), ev!(y)); let (x, y) = (self.num(&x).map_err(er)?, self.num(&y).map_err(er)?); return self.cmd(p, "gotoxy", vec![V::N(x), V::N(y)], site) }
            St::GotoEnt(e) => match ev!(e) {
                V::L(l) => {
                    let l = self.lists[l].clone();
                    if l.len() != 2 { return Err(er(Er::Fail(Txt::Any))) }
                    let (x, y) = (self.num(&l[0]).map_err(er)?, self.num(&l[1]).map_err(er)?);
                    return self.cmd(p, "gotoxy", vec![V::N(x), V::N(y)], site);
                }
                V::E(x) => return self.cmd(p, "gotoent", vec![V::E(x)], site),
                _ => return Err(er(Er::Fail(Txt::Any))),
            },
            St::Forward(e) => { let v = ev!(e); let v = self.num(&v).map_err(er)?; return self.cmd(p, "forward", vec![V::N(v)], site) }
            St::ClearEffects => return self.cmd(p, "cleareffects", vec![], site),
            St::StopSounds => return self.cmd(p, "stopsounds", vec![], site),
            St::ResetTimer => self.timer = self.time().map_err(er)?,
            St::Pause => { self.hit("paused"); self.evs.push(Ev::Pause) }
            St::Show(n) | St::Hide(n) => {
                let create = matches!(&b[i].k, St::Show(_));
                let c = self.find_cell(p, n).map_err(er)?;
                self.hit("watcher");
                self.watch.push(c);
                self.evs.push(Ev::Watch { create, ent: p.frames.last().unwrap().ent as u32, name: n.clone(), val: self.snap(&self.cells[c]) });
            }
            St::Push(l, v) => { let (v, l) = (ev!(v), ev!(l)); let l = self.lst(&l).map_err(er)?; self.lists[l].push(v); if self.lists[l].len() > 3000 { return Err((Er::Discard("big list"), None)) } }
            St::SetItem(l, ix, v) => { let (ix, l, v) = (ev!(ix), ev!(l), ev!(v)); let l = self.lst(&l).map_err(er)?; let set = self.index_set(&ix, self.lists[l].len()).map_err(er)?; if set.len() > 1 { self.hit("several positions at once") } for k in set { self.lists[l][k] = v.clone() } }
            St::Remove(l, ix) => { let (ix, l) = (ev!(ix), ev!(l)); let l = self.lst(&l).map_err(er)?; let set = self.index_set(&ix, self.lists[l].len()).map_err(er)?; if set.len() > 1 { self.hit("several positions at once") } for k in set.into_iter().rev() { self.lists[l].remove(k); } }
            St::Op(n, xs) => return self.stop_op(p, n, xs, site),
            St::RemoveAll(l) => { let l = ev!(l); let l = self.lst(&l).map_err(er)?; self.lists[l].clear() }
            St::Costume(e) => {
                let v = ev!(e);
                let ent = p.frames.last().unwrap().ent;
                let new = self.costume_of(p, &v).map_err(er)?;
                if new != self.ents[ent].costume { self.ents[ent].costume = new; return self.cmd(p, "setcostume", vec![new.map(V::I).unwrap_or_else(|| s(""))], site) }
            }
            St::NextCostume => {
                let ent = p.frames.last().unwrap().ent;
                let n = self.prog.ents[self.ents[ent].def].costumes as usize;
                let def = self.ents[ent].def;
                if let Some(x) = self.ents[ent].costume.filter(|x| x / 100 == def) {
                    let new = def * 100 + (x % 100 + 1) % n;
                    if new != x { self.ents[ent].costume = Some(new); return self.cmd(p, "setcostume", vec![V::I(new)], site) }
                }
            }
        }
        Ok(Flow::Next)
    }
    /// Cells still reachable by the program (for watch handles).
    pub fn reachable_cells(&self) -> Vec<bool> { self.reach().0 }
    /// ... and how much the program itself keeps alive (in values).
    pub fn live_size(&self) -> usize { self.reach().1 }
    fn reach(&self) -> (Vec<bool>, usize) {
        let mut size = 0usize;
        let mut cells = vec![false; self.cells.len()];
        let (mut ls, mut cl, mut es) = (vec![false; self.lists.len()], vec![false; self.clos.len()], vec![false; self.ents.len()]);
        let mut todo: Vec<V> = vec![];
        let mut tc: Vec<usize> = self.globals.iter().map(|x| x.1).collect();
        for i in 0..self.prog.ents.len() { todo.push(V::E(i)) }
        for x in &self.scripts { todo.push(V::E(x.ent)); for c in &x.queue { tc.extend(c.locals.iter().map(|x| x.1)) } }
        for p in self.procs.values() {
            for v in [&p.rpc_err, &p.sys_err, &p.answer, &p.msg] { if let Some(v) = v { todo.push(v.clone()) } }
            fn cont(c: &Cont, t: &mut Vec<V>) { if let Cont::Set { pre: Some(v), .. } = c { t.extend(v.iter().cloned()) } }
            match &p.pend { Some(Pend::Op { cont: c, .. }) | Some(Pend::Reply { cont: c, .. }) => cont(c, &mut todo), _ => () }
            for f in &p.frames {
                todo.push(V::E(f.ent));
                cont(&f.ret, &mut todo);
                tc.extend(f.locals.iter().map(|x| x.1));
                for c in &f.ctl {
                    match c {
                        Ctl::Foreach { items, .. } => todo.extend(items.iter().cloned()),
                        Ctl::List { f, items, acc, cur, cont: k, .. } => { todo.push(f.clone()); todo.extend(items.iter().cloned()); todo.extend(acc.iter().cloned()); todo.extend(cur.iter().cloned()); cont(k, &mut todo) }
                        _ => (),
                    }
                }
            }
        }
        loop {
            if let Some(c) = tc.pop() {
                if !cells[c] { cells[c] = true; size += 1; todo.push(self.cells[c].clone()) }
            } else if let Some(v) = todo.pop() {
                match v {
                    V::L(x) if !ls[x] => { ls[x] = true; size += 2 + self.lists[x].len(); todo.extend(self.lists[x].iter().cloned()) }
                    V::C(x) if !cl[x] => { cl[x] = true; size += 2 + self.clos[x].caps.len(); tc.extend(self.clos[x].caps.iter().map(|x| x.1)) }
                    V::E(x) if !es[x] => { es[x] = true; tc.extend(self.ents[x].fields.iter().map(|x| x.1)); if let Some(o) = self.ents[x].orig { todo.push(V::E(o)) } }
                    _ => (),
                }
            } else { return (cells, size + self.procs.len() * 4 + self.scripts.iter().map(|x| x.queue.len()).sum::<usize>()) }
        }
    }
}

pub const PROPS: [&str; 6] = ["XPos", "YPos", "Heading", "Size", "Visible", "PenDown"];
pub const SPROPS: [&str; 4] = ["XPos", "YPos", "Heading", "Size"];

fn define(l: &mut Vec<(String, usize)>, n: &str, c: usize) {
    match l.iter_mut().find(|x| x.0 == n) { Some(x) => x.1 = c, None => l.push((n.to_string(), c)) }
}
