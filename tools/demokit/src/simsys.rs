//! Simulated host: a `System` whose clock, answers and network are all decided by the case being executed.
use std::cell::{Cell, RefCell};
use std::collections::VecDeque;
use std::rc::Rc;
use netsblox_vm::compact_str::CompactString;
use netsblox_vm::gc::*;
use netsblox_vm::json::Json;
use netsblox_vm::process::Process;
use netsblox_vm::real_time::OffsetDateTime;
use netsblox_vm::runtime::*;
use netsblox_vm::vecmap::VecMap;
use crate::model::{ClockMode, Ev, Outcome, Res, Sn, NEVER};

thread_local! {
    pub static NEXT_ENT: Cell<u32> = const { Cell::new(0) };
    /// what a property operation came to
    static DONE: RefCell<Option<Result<Option<SimpleValue>, String>>> = const { RefCell::new(None) };
}

pub enum NoNative {}
impl GetType for NoNative { type Output = u8; fn get_type(&self) -> u8 { match *self {} } }
impl std::fmt::Debug for NoNative { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { match *self {} } }

#[derive(Collect)]
#[collect(require_static)]
pub struct C;
pub struct Inter(pub SimpleValue);
impl From<SimpleValue> for Inter { fn from(x: SimpleValue) -> Self { Inter(x) } }

pub struct EntState { pub id: u32, pub props: RefCell<Properties> }
impl From<EntityKind<'_, '_, C, Sim>> for EntState {
    fn from(k: EntityKind<'_, '_, C, Sim>) -> Self {
        let props = RefCell::new(match k { EntityKind::Stage { props } | EntityKind::Sprite { props } => props, EntityKind::Clone { parent } => *parent.state.props.borrow() });
        EntState { id: NEXT_ENT.with(|x| { let v = x.get(); x.set(v + 1); v }), props }
    }
}
/// Host state attached to a script: a stack that unwinds, plus where it came from.
pub struct ProcState { pub stack: Vec<Sn>, pub ent: u32, pub disp: Option<Sn>, pub tag: Option<Sn> }
impl From<ProcessKind<'_, '_, C, Sim>> for ProcState {
    fn from(k: ProcessKind<'_, '_, C, Sim>) -> Self {
        ProcState { stack: vec![], ent: k.entity.borrow().state.id, disp: k.dispatcher.map(|d| d.state.tag.clone().unwrap_or(Sn::N(0.0))), tag: None }
    }
}
impl Unwindable for ProcState {
    type UnwindPoint = usize;
    fn get_unwind_point(&self) -> usize { self.stack.len() }
    fn unwind_to(&mut self, p: &usize) { self.stack.truncate(*p) }
}
impl CustomTypes<Sim> for C {
    type NativeValue = NoNative;
    type Intermediate = Inter;
    type EntityState = EntState;
    type ProcessState = ProcState;
    fn from_intermediate<'gc>(mc: &Mutation<'gc>, value: Inter) -> Value<'gc, C, Sim> { Value::from_simple(mc, value.0) }
}
pub type Val<'gc> = Value<'gc, C, Sim>;

pub fn snap(v: &Val<'_>) -> Sn {
    fn go(v: &Val<'_>, st: &mut Vec<*const ()>, n: &mut usize) -> Sn {
        *n += 1;
        if *n > 2 * crate::model::SNAP_LIMIT { return Sn::O }
        match v {
            Value::Number(x) => Sn::N(x.get()), Value::Text(x) => Sn::S(x.to_string()), Value::Bool(x) => Sn::T(*x),
            Value::Closure(_) => Sn::C, Value::Entity(e) => Sn::E(e.borrow().state.id), Value::Image(x) => Sn::I(x.name.to_string()), Value::Audio(x) => Sn::A(x.name.to_string()),
            Value::Native(_) => Sn::O,
            Value::List(l) => {
                let id = Gc::as_ptr(*l) as *const ();
                if st.contains(&id) { return Sn::Cyc }
                st.push(id);
                let r = Sn::L(l.borrow().iter().map(|x| go(x, st, n)).collect());
                st.pop();
                r
            }
        }
    }
    go(v, &mut vec![], &mut 0)
}
pub fn simple(s: &Sn) -> SimpleValue {
    match s {
        Sn::N(x) => SimpleValue::Number(Number::new(*x).unwrap()), Sn::S(x) => SimpleValue::Text(x.as_str().into()), Sn::T(x) => SimpleValue::Bool(*x),
        Sn::L(xs) => SimpleValue::List(xs.iter().map(simple).collect()),
        _ => SimpleValue::Number(Number::new(0.0).unwrap()),
    }
}
/// Costumes and sounds travel as markup that names them.
fn media(x: &str) -> Option<Sn> {
    let name = |x: &str| x.split_once('"').map(|x| x.0.to_string());
    x.strip_prefix("<costume name=\"").and_then(name).map(Sn::I).or_else(|| x.strip_prefix("<sound name=\"").and_then(name).map(Sn::A))
}
pub fn json_sn(j: &Json) -> Sn {
    match j {
        Json::Null => Sn::O, Json::Bool(x) => Sn::T(*x), Json::Number(x) => Sn::N(x.as_f64().unwrap_or(0.0)), Json::String(x) => media(x).unwrap_or_else(|| Sn::S(x.clone())),
        Json::Array(x) => Sn::L(x.iter().map(json_sn).collect()), Json::Object(_) => Sn::O,
    }
}

pub struct Key(pub u32);
impl netsblox_vm::runtime::Key<Result<Inter, CompactString>> for Key { fn complete(self, x: Result<Inter, CompactString>) { DONE.with(|d| *d.borrow_mut() = Some(x.map(|x| Some(x.0)).map_err(|e| e.to_string()))) } }
impl netsblox_vm::runtime::Key<Result<(), CompactString>> for Key { fn complete(self, x: Result<(), CompactString>) { DONE.with(|d| *d.borrow_mut() = Some(x.map(|_| None).map_err(|e| e.to_string()))) } }
fn done() -> Option<Result<Option<SimpleValue>, String>> { DONE.with(|d| d.borrow_mut().take()) }
/// Reads a property the way a host does.
pub fn property(p: &Properties, prop: Property) -> Sn {
    let _ = p.perform_get_property::<C, Sim>(Key(u32::MAX), prop);
    match done() { Some(Ok(Some(SimpleValue::Number(x)))) => Sn::N(x.get()), Some(Ok(Some(SimpleValue::Bool(x)))) => Sn::T(x), _ => Sn::O }
}
pub const ALL_PROPS: [Property; 24] = [Property::XPos, Property::YPos, Property::Heading, Property::Size, Property::Visible, Property::PenDown, Property::PenSize, Property::PenColor, Property::PenColorH, Property::PenColorS, Property::PenColorV, Property::PenColorT,
    Property::Tempo, Property::Volume, Property::Balance, Property::ColorH, Property::ColorS, Property::ColorV, Property::ColorT, Property::Fisheye, Property::Whirl, Property::Pixelate, Property::Mosaic, Property::Negative];

struct Op { done_at: u64, res: Res, special: Option<Sn>, ent: u32, done: bool, reply: bool }
pub struct Inner {
    pub now: u64, pub clock: ClockMode, pub seq: u32, outcomes: Rc<Vec<Outcome>>, ops: Vec<Op>, pub evs: Vec<Ev>,
    pub msgs: VecDeque<IncomingMessage>, pub received: u32, pub bad: Vec<String>, pub max_depth: usize, pub recv_calls: u64, pub replied: Vec<u32>, pub rand_calls: u64, pub props: bool,
}
#[derive(Collect)]
#[collect(require_static)]
pub struct Sim(pub RefCell<Inner>);

impl Sim {
    pub fn new(now: u64, clock: ClockMode, outcomes: Rc<Vec<Outcome>>, max_depth: usize) -> Self {
        Sim(RefCell::new(Inner { now, clock, seq: 0, outcomes, ops: vec![], evs: vec![], msgs: Default::default(), received: 0, bad: vec![], max_depth, recv_calls: 0, replied: vec![], rand_calls: 0, props: false }))
    }
}
fn ent_of(proc: &Process<'_, C, Sim>) -> u32 { proc.get_call_stack().last().unwrap().entity.borrow().state.id }
impl Inner {
    /// Whether the next operation will be carried out on the sprite's properties.
    fn keeps(&self) -> bool { self.props && self.outcomes.get(self.seq as usize).map(|o| o.res).unwrap_or(Res::Num).fine() }
    /// The result of the property operation just carried out becomes the result of the last issued operation.
    fn settle(&mut self) {
        let Some(op) = self.ops.last_mut() else { return };
        match done() {
            None => self.bad.push("a property operation was not completed".into()),
            Some(Ok(v)) => if let Some(v) = v { op.special = Some(match v { SimpleValue::Number(x) => Sn::N(x.get()), SimpleValue::Bool(x) => Sn::T(x), _ => Sn::O }) },
            Some(Err(_)) => op.res = Res::Err,
        }
    }
    fn issue(&mut self, ent: u32, what: String, args: Vec<Sn>, special: Option<Sn>) -> Result<Key, ErrorCause<C, Sim>> {
        let (seq, o) = self.next();
        self.evs.push(Ev::Perf { seq, ent, what, args });
        self.ops.push(Op { done_at: self.now.saturating_add(o.delay), res: o.res, special, ent, done: false, reply: false });
        if o.res == Res::PerfErr { return Err(ErrorCause::Custom { msg: "host refused".into() }) }
        Ok(Key(seq))
    }
    fn next(&mut self) -> (u32, Outcome) {
        let seq = self.seq;
        self.seq += 1;
        (seq, self.outcomes.get(seq as usize).copied().unwrap_or(Outcome { delay: 0, res: Res::Num }))
    }
    /// None = still pending
    fn poll(&mut self, seq: u32, ent: Option<u32>) -> Option<Res> {
        let now = self.now;
        let Some(op) = self.ops.get_mut(seq as usize) else { self.bad.push(format!("operation {seq} polled but never issued")); return Some(Res::Num) };
        if op.done { self.bad.push(format!("operation {seq} polled again after it was completed")); }
        if let Some(e) = ent { if e != op.ent { self.bad.push(format!("operation {seq} of entity {} polled on behalf of entity {e}", op.ent)) } }
        if op.res == Res::PerfErr { self.bad.push(format!("operation {seq} was refused but is polled")) }
        if now < op.done_at { return None }
        op.done = true;
        Some(op.res)
    }
    fn depth(&mut self, proc: &Process<'_, C, Sim>) {
        let d = proc.get_call_stack().len();
        if d > self.max_depth { self.bad.push(format!("call depth {d} exceeds the configured limit {}", self.max_depth)) }
    }
}
pub fn pname(p: &Property) -> &'static str {
    match p {
        Property::XPos => "XPos", Property::YPos => "YPos", Property::Heading => "Heading", Property::Size => "Size", Property::Visible => "Visible", Property::PenDown => "PenDown", Property::PenSize => "PenSize", Property::PenColor => "PenColor",
        Property::PenColorH => "PenColorH", Property::PenColorS => "PenColorS", Property::PenColorV => "PenColorV", Property::PenColorT => "PenColorT", Property::Tempo => "Tempo", Property::Volume => "Volume", Property::Balance => "Balance",
        Property::ColorH => "ColorH", Property::ColorS => "ColorS", Property::ColorV => "ColorV", Property::ColorT => "ColorT", Property::Fisheye => "Fisheye", Property::Whirl => "Whirl", Property::Pixelate => "Pixelate", Property::Mosaic => "Mosaic", Property::Negative => "Negative",
    }
}
fn opaque_args<'a, 'gc: 'a>(xs: impl IntoIterator<Item = &'a Val<'gc>>) -> Vec<Sn> { xs.into_iter().map(snap).collect() }

impl System<C> for Sim {
    type RequestKey = Key;
    type CommandKey = Key;
    fn rand<T: rand::distr::uniform::SampleUniform, R: rand::distr::uniform::SampleRange<T>>(&self, range: R) -> T {
        // deterministic stream shared by the whole run
        let mut s = self.0.borrow_mut();
        s.rand_calls += 1;
        let mut r = crate::rng::Const(crate::rng::mix(s.rand_calls) & 4095);
        range.sample_single(&mut r).unwrap()
    }
    fn time(&self, _: Precision) -> SysTime {
        let s = self.0.borrow();
        match s.clock {
            ClockMode::Timeless => SysTime::Timeless,
            ClockMode::Arbitrary => SysTime::Arbitrary { ms: s.now },
            ClockMode::Real => SysTime::Real { local: OffsetDateTime::from_unix_timestamp_nanos(s.now.min(253_402_300_799_999) as i128 * 1_000_000).unwrap() },
        }
    }
    fn perform_request<'gc>(&self, _: &Mutation<'gc>, request: Request<'gc, C, Self>, proc: &mut Process<'gc, C, Self>) -> Result<Key, ErrorCause<C, Self>> {
        let mut s = self.0.borrow_mut();
        s.depth(proc);
        let ent = ent_of(proc);
        match &request {
            Request::Input { prompt } => s.issue(ent, "ask".into(), opaque_args(prompt), None),
            Request::Syscall { name, args } => {
                let args = opaque_args(args);
                let seq = s.seq as usize;
                let ok = s.outcomes.get(seq).map(|o| o.res != Res::PerfErr).unwrap_or(true);
                let a0 = args.first().cloned().unwrap_or(Sn::N(0.0));
                let st = &mut proc.state;
                let special = if !ok { None } else {
                    match name.as_str() {
                        "hpush" => { st.stack.push(a0); Some(Sn::N(st.stack.len() as f64)) }
                        "hpop" => Some(st.stack.pop().unwrap_or(Sn::N(-1.0))),
                        "hget" => Some(Sn::L(vec![Sn::N(st.stack.len() as f64), st.stack.last().cloned().unwrap_or(Sn::N(-1.0)), Sn::N(st.ent as f64), st.disp.clone().unwrap_or_else(|| Sn::S("none".into()))])),
                        "htag" => { st.tag = Some(a0); Some(Sn::N(0.0)) }
                        _ => None,
                    }
                };
                s.issue(ent, format!("sys {name}"), args, special)
            }
            Request::Rpc { host, service, rpc, args } => {
                let what = format!("rpc {} {service} {rpc} ({})", host.as_deref().unwrap_or("-"), args.iter().map(|x| x.0.as_str()).collect::<Vec<_>>().join(","));
                let args = args.iter().map(|x| snap(x.1)).collect();
                s.issue(ent, what, args, None)
            }
            Request::Property { prop } => {
                let keeps = s.keeps();
                let k = s.issue(ent, format!("get {}", pname(prop)), vec![], None)?;
                if keeps { let e = proc.get_call_stack().last().unwrap().entity; let e = e.borrow(); let _ = e.state.props.borrow().perform_get_property::<C, Sim>(Key(k.0), *prop); s.settle() }
                Ok(k)
            }
            Request::UnknownBlock { name, args } => { let a = opaque_args(args); s.issue(ent, format!("block {name}"), a, None) }
        }
    }
    fn poll_request<'gc>(&self, mc: &Mutation<'gc>, key: &Key, proc: &mut Process<'gc, C, Self>) -> Result<AsyncResult<Result<Val<'gc>, CompactString>>, ErrorCause<C, Self>> {
        let mut s = self.0.borrow_mut();
        let ent = ent_of(proc);
        let seq = key.0;
        let Some(res) = s.poll(seq, Some(ent)) else { return Ok(AsyncResult::Pending) };
        let v = match res {
            Res::PollErr => return Err(ErrorCause::Custom { msg: "host failed".into() }),
            Res::Err => return Ok(AsyncResult::Completed(Err(CompactString::new(format!("hosterr{seq}"))))),
            _ => match s.ops[seq as usize].special.clone() {
                Some(x) => x,
                None => answer(res, seq),
            },
        };
        Ok(AsyncResult::Completed(Ok(Value::from_simple(mc, simple(&v)))))
    }
    fn perform_command<'gc>(&self, _: &Mutation<'gc>, command: Command<'gc, '_, C, Self>, proc: &mut Process<'gc, C, Self>) -> Result<Key, ErrorCause<C, Self>> {
        let mut s = self.0.borrow_mut();
        s.depth(proc);
        let ent = ent_of(proc);
        let (what, args) = match &command {
            Command::Print { style: PrintStyle::Say, value } => ("say".to_string(), opaque_args(value)),
            Command::Print { style: PrintStyle::Think, value } => ("think".to_string(), opaque_args(value)),
            Command::SetProperty { prop, value } => (format!("set {}", pname(prop)), vec![snap(value)]),
            Command::ChangeProperty { prop, delta } => (format!("change {}", pname(prop)), vec![snap(delta)]),
            Command::GotoXY { x, y } => ("gotoxy".into(), vec![Sn::N(x.get()), Sn::N(y.get())]),
            Command::GotoEntity { target } => ("gotoent".into(), vec![Sn::E(target.state.id)]),
            Command::PointTowardsXY { x, y } => ("pointxy".into(), vec![Sn::N(x.get()), Sn::N(y.get())]),
            Command::PointTowardsEntity { target } => ("pointent".into(), vec![Sn::E(target.state.id)]),
            Command::Forward { distance } => ("forward".into(), vec![Sn::N(distance.get())]),
            Command::ClearEffects => ("cleareffects".into(), vec![]),
            Command::ClearDrawings => ("cleardrawings".into(), vec![]),
            Command::StopSounds => ("stopsounds".into(), vec![]),
            Command::SetCostume => ("setcostume".into(), vec![match &proc.get_call_stack().last().unwrap().entity.borrow().costume { Some(x) => Sn::I(x.name.to_string()), None => Sn::S("".into()) }]),
            Command::PlaySound { sound, blocking } => (format!("sound {blocking}"), vec![Sn::A(sound.name.to_string())]),
            Command::PlayNotes { notes, beats, blocking } => {
                for n in notes { let (m, f) = (n.get_midi().0, n.get_frequency().get()); let want = 440.0 * ((m as f64 - 69.0) / 12.0).exp2(); if (f - want).abs() > want * 1e-6 { s.bad.push(format!("note {m} sounds at {f} Hz instead of {want}")) } }
                (format!("notes {blocking}"), vec![Sn::L(notes.iter().map(|n| Sn::N(n.get_midi().0 as f64)).collect()), Sn::N(beats.get())])
            }
        };
        let keeps = s.keeps();
        let k = s.issue(ent, what, args, None)?;
        if keeps {
            let e = proc.get_call_stack().last().unwrap().entity;
            let e = e.borrow();
            let own = &e.state.props;
            let key = Key(k.0);
            let acted = match command {
                Command::SetProperty { prop, value } => { let _ = own.borrow_mut().perform_set_property::<C, Sim>(key, prop, value); true }
                Command::ChangeProperty { prop, delta } => { let _ = own.borrow_mut().perform_change_property::<C, Sim>(key, prop, delta); true }
                Command::GotoXY { x, y } => { let _ = own.borrow_mut().perform_goto_xy::<C, Sim>(key, x, y); true }
                Command::GotoEntity { target } => { let (x, y) = target.state.props.borrow().pos; let _ = own.borrow_mut().perform_goto_xy::<C, Sim>(key, x, y); true }
                Command::PointTowardsXY { x, y } => { let _ = own.borrow_mut().perform_point_towards_xy::<C, Sim>(key, x, y); true }
                Command::PointTowardsEntity { target } => { let (x, y) = target.state.props.borrow().pos; let _ = own.borrow_mut().perform_point_towards_xy::<C, Sim>(key, x, y); true }
                Command::Forward { distance } => { let _ = own.borrow_mut().perform_forward::<C, Sim>(key, distance); true }
                Command::ClearEffects => { let _ = own.borrow_mut().perform_clear_effects::<C, Sim>(key); true }
                _ => false,
            };
            if acted { s.settle() }
        }
        Ok(k)
    }
    fn poll_command<'gc>(&self, _: &Mutation<'gc>, key: &Key, proc: &mut Process<'gc, C, Self>) -> Result<AsyncResult<Result<(), CompactString>>, ErrorCause<C, Self>> {
        let mut s = self.0.borrow_mut();
        let ent = ent_of(proc);
        let seq = key.0;
        match s.poll(seq, Some(ent)) {
            None => Ok(AsyncResult::Pending),
            Some(Res::PollErr) => Err(ErrorCause::Custom { msg: "host failed".into() }),
            Some(Res::Err) => Ok(AsyncResult::Completed(Err(CompactString::new(format!("hosterr{seq}"))))),
            Some(_) => Ok(AsyncResult::Completed(Ok(()))),
        }
    }
    fn send_message(&self, msg_type: CompactString, values: VecMap<CompactString, Json, false>, targets: Vec<CompactString>, expect_reply: bool) -> Result<Option<ExternReplyKey>, ErrorCause<C, Self>> {
        let mut s = self.0.borrow_mut();
        let (seq, o) = s.next();
        let vals = values.iter().map(|x| (x.0.to_string(), json_sn(x.1))).collect();
        s.evs.push(Ev::Send { seq, ty: msg_type.to_string(), vals, targets: targets.iter().map(|x| x.to_string()).collect(), wait: expect_reply });
        let done_at = s.now.saturating_add(o.delay);
        s.ops.push(Op { done_at, res: o.res, special: None, ent: 0, done: false, reply: true });
        if o.res == Res::PerfErr { return Err(ErrorCause::Custom { msg: "host refused".into() }) }
        Ok(if expect_reply { Some(ExternReplyKey { request_id: CompactString::new(format!("q{seq}")) }) } else { None })
    }
    fn poll_reply(&self, key: &ExternReplyKey) -> AsyncResult<Option<Json>> {
        let mut s = self.0.borrow_mut();
        let Some(seq) = key.request_id.strip_prefix('q').and_then(|x| x.parse::<u32>().ok()) else { s.bad.push("unknown reply key".into()); return AsyncResult::Completed(None) };
        match s.poll(seq, None) {
            None => AsyncResult::Pending,
            Some(Res::Err) => AsyncResult::Completed(None),
            Some(Res::PollErr) => AsyncResult::Completed(Some(Json::Null)),
            Some(r) => {
                if !s.ops[seq as usize].reply { s.bad.push(format!("operation {seq} is not a message")) }
                let v = answer(r, seq);
                AsyncResult::Completed(Some(simple(&v).into_netsblox_json()))
            }
        }
    }
    fn send_reply(&self, key: InternReplyKey, value: Json) -> Result<(), ErrorCause<C, Self>> {
        let mut s = self.0.borrow_mut();
        if key.src_id != "src" { s.bad.push(format!("reply to unknown source {:?}", key.src_id)) }
        let msg = key.request_id.parse::<u32>().unwrap_or(u32::MAX);
        s.replied.push(msg);
        s.evs.push(Ev::Reply { msg, val: json_sn(&value) });
        Ok(())
    }
    fn receive_message(&self) -> Option<IncomingMessage> {
        let mut s = self.0.borrow_mut();
        s.recv_calls += 1;
        let m = s.msgs.pop_front();
        if m.is_some() { s.received += 1 }
        m
    }
}
pub fn answer(res: Res, seq: u32) -> Sn {
    match res { Res::Num => Sn::N(1000.0 + seq as f64), Res::Text => Sn::S(format!("r{seq}")), Res::Empty => Sn::S(String::new()), Res::Yes => Sn::T(true), _ => Sn::L(vec![Sn::N(seq as f64), Sn::S("x".into())]) }
}
pub const _NEVER: u64 = NEVER;
