//! The simulated computers: each runs the real `StdSystem` (and, for projects, the real compiler, scheduler and interpreter).
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::Arc;
use serde_json::{Value as J, json};
use netsblox_vm::bytecode::ByteCode;
use netsblox_vm::compact_str::CompactString;
use netsblox_vm::gc::*;
use netsblox_vm::project::{Input, Project, ProjectStep};
use netsblox_vm::real_time::{OffsetDateTime, UtcOffset};
use netsblox_vm::runtime::*;
use netsblox_vm::std_system::StdSystem;
use netsblox_vm::std_util::{AsyncKey, Clock};
use netsblox_vm::vecmap::VecMap;
use simcore::{self, now};
use crate::case::*;
use crate::ir::{self, Body, Eff, EntDef, Ex, Hat, Prog, ScriptDef, St, Stm};
use crate::world::{self, D, KeyRec, Later, MS, Reading, Sh, Shr};

pub enum NoNative {}
impl GetType for NoNative { type Output = u8; fn get_type(&self) -> u8 { match *self {} } }
impl std::fmt::Debug for NoNative { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { match *self {} } }
pub struct EntState;
impl From<EntityKind<'_, '_, C, StdSystem<C>>> for EntState { fn from(_: EntityKind<'_, '_, C, StdSystem<C>>) -> Self { EntState } }
pub struct ProcState;
impl From<ProcessKind<'_, '_, C, StdSystem<C>>> for ProcState { fn from(_: ProcessKind<'_, '_, C, StdSystem<C>>) -> Self { ProcState } }
impl Unwindable for ProcState { type UnwindPoint = (); fn get_unwind_point(&self) {} fn unwind_to(&mut self, _: &()) {} }
pub struct Inter(pub SimpleValue);
impl From<SimpleValue> for Inter { fn from(x: SimpleValue) -> Self { Inter(x) } }
pub struct C;
impl CustomTypes<StdSystem<C>> for C {
    type NativeValue = NoNative;
    type Intermediate = Inter;
    type EntityState = EntState;
    type ProcessState = ProcState;
    fn from_intermediate<'gc>(mc: &Mutation<'gc>, v: Inter) -> Value<'gc, C, StdSystem<C>> { Value::from_simple(mc, v.0) }
}
type Sys = StdSystem<C>;
#[derive(Collect)]
#[collect(no_drop)]
struct Env<'gc> { proj: Project<'gc, C, Sys> }
type EnvArena = Arena<Rootable![Env<'_>]>;

/// Values as the oracle compares them.
pub fn sv(v: &SimpleValue) -> J {
    match v {
        SimpleValue::Bool(x) => json!(x), SimpleValue::Number(x) => json!(x.get()), SimpleValue::Text(x) => json!(x.as_str()),
        SimpleValue::Image(x) => json!({ "image": x.content }), SimpleValue::Audio(x) => json!({ "audio": x.content }),
        SimpleValue::List(xs) => J::Array(xs.iter().map(sv).collect()),
    }
}
pub fn from_json(j: &J) -> Option<J> { SimpleValue::from_netsblox_json(j.clone()).ok().map(|v| sv(&v)) }

pub fn start(sh: &Shr, vm: usize, inc: u32) {
    let group = 1 + vm as u32 + inc * 64;
    let v = sh.c.vms[vm].clone();
    let inst = {
        let mut st = sh.st.borrow_mut();
        if st.insts.iter().any(|i| i.group == group) { return }
        let i = st.insts.len();
        st.insts.push(crate::world::Inst { vm, inc, group, name: v.name.clone().unwrap_or_else(|| "untitled".into()), t_start: now(), soft: sh.c.seed >> 7 & 1 == 1, ..Default::default() });
        i
    };
    let s = sh.clone();
    simcore::spawn(&format!("vm {vm}.{inc}"), move || { simcore::set_group(group); run(s, inst, v) });
}
fn prec(c: u8) -> Option<Precision> { match c { 0 => None, 1 => Some(Precision::Low), 2 => Some(Precision::Medium), _ => Some(Precision::High) } }
fn stopping(sh: &Sh, i: usize) -> bool { sh.st.borrow().insts[i].stop }

fn run(sh: Shr, me: usize, v: Vm) {
    simcore::sleep_ns(v.start_ms * MS + 1);
    let t0 = now();
    let clock = Arc::new(Clock::new(UtcOffset::from_whole_seconds(v.offset_min as i32 * 60).unwrap(), prec(v.cache)));
    { let t1 = now(); let mut st = sh.st.borrow_mut(); st.insts[me].upd.push((t0, t1)); st.insts[me].t_start = t0; }
    if v.cache > 0 {
        let (s, c) = (sh.clone(), clock.clone());
        simcore::spawn("clock updater", move || while !stopping(&s, me) && s.st.borrow().insts[me].failed.is_none() {
            simcore::sleep_ns(v.tick_ms * MS);
            let t0 = now();
            c.update();
            let t1 = now();
            s.st.borrow_mut().insts[me].upd.push((t0, t1));
        });
    }
    let config = Config::<C, Sys> { request: Some(request(sh.clone(), me)), command: Some(command(sh.clone(), me)) };
    let (base, name) = (CompactString::new(&sh.base), v.name.clone());
    let made = catch_unwind(AssertUnwindSafe(move || Sys::new_sync(base, name.as_deref(), config, clock)));
    let sys = match made {
        Ok(s) => Rc::new(s),
        Err(e) => {
            if e.is::<simcore::Cancel>() { resume_unwind(e) }
            let m = simcore::take_last_panic().unwrap_or_else(|| "panic".into());
            sh.count("creation reported a failure");
            sh.st.borrow_mut().insts[me].failed = Some(m);
            return finished(&sh, me);
        }
    };
    { let id = sys.get_public_id().to_string(); let mut st = sh.st.borrow_mut(); st.insts[me].created = Some(now()); st.insts[me].id = id; }
    match sh.c.kind {
        Kind::Direct => direct(&sh, me, &v, &sys),
        _ => project(&sh, me, &v, sys.clone()),
    }
    drop(sys);
    finished(&sh, me);
}
fn finished(sh: &Shr, me: usize) {
    let g = { let mut st = sh.st.borrow_mut(); st.insts[me].ended = Some(now()); st.insts[me].stop = true; st.insts[me].group };
    let s = sh.clone();
    simcore::after(5_000 * MS, move || { let l = simcore::live_threads(g); s.st.borrow_mut().insts[me].stuck = Some(l) });
}

// ---------------------------------------------------------------- programs that use the system directly
fn vmap<T>(v: &[(String, J)], f: impl Fn(&J) -> T) -> VecMap<CompactString, T, false> { v.iter().map(|(k, x)| (CompactString::new(k), f(x))).collect() }
fn direct(sh: &Shr, me: usize, v: &Vm, sys: &Rc<Sys>) {
    let mut open: Vec<(usize, ExternReplyKey)> = vec![];
    let mut keys: Vec<InternReplyKey> = vec![];
    let mut n = 0;
    let put = |d: D| sh.st.borrow_mut().insts[me].d.push(d);
    let recv = |keys: &mut Vec<InternReplyKey>| -> bool {
        let t0 = now();
        let m = sys.receive_message();
        let t1 = now();
        let some = m.is_some();
        put(D::Recv { t0, t1, m: m.map(|m| { if let Some(k) = &m.reply_key { keys.push(k.clone()) } (m.msg_type.to_string(), m.values.into_iter().map(|(k, v)| (k.to_string(), sv(&v))).collect(), m.reply_key.map(|k| (k.src_id.to_string(), k.request_id.to_string()))) }) });
        some
    };
    let poll = |open: &mut Vec<(usize, ExternReplyKey)>| open.retain(|(n, k)| {
        let t0 = now();
        let r = sys.poll_reply(k);
        let t1 = now();
        let r = match r { AsyncResult::Pending => None, AsyncResult::Completed(x) => Some(x), AsyncResult::Consumed => Some(Some(json!("consumed"))) };
        let keep = r.is_none();
        put(D::Poll { n: *n, t0, t1, r });
        keep
    });
    let mut ops = v.ops.iter();
    loop {
        match ops.next() {
            Some(Op::Send { ty, vals, tgts, wait }) => {
                let t0 = now();
                let r = sys.send_message(CompactString::new(ty), vmap(vals, |x| x.clone()), tgts.iter().map(|x| CompactString::new(x)).collect(), *wait);
                let t1 = now();
                let (id, err) = match r { Ok(Some(k)) => { open.push((n, k.clone())); (Some(k.request_id.to_string()), false) } Ok(None) => (None, false), Err(_) => (None, true) };
                put(D::Send { n, t0, t1, ty: ty.clone(), vals: vals.clone(), tgts: tgts.clone(), id, err });
                n += 1;
            }
            Some(Op::Reply { nth, val }) => if !keys.is_empty() {
                let k = keys[*nth as usize % keys.len()].clone();
                let t0 = now();
                let _ = sys.send_reply(k.clone(), val.clone());
                put(D::Reply { t0, t1: now(), src: k.src_id.to_string(), id: k.request_id.to_string(), val: val.clone() });
            },
            Some(Op::Inject { ty, vals }) => {
                let t0 = now();
                sys.inject_message(CompactString::new(ty), vals.iter().filter_map(|(k, v)| Some((CompactString::new(k), SimpleValue::from_netsblox_json(v.clone()).ok()?))).collect());
                put(D::Inject { t0, t1: now(), ty: ty.clone(), vals: vals.clone() });
            }
            Some(Op::Sleep(ms)) => { let end = now() + ms * MS; while now() < end { poll(&mut open); simcore::sleep_until(end.min(now() + v.loop_us * 1000)) } }
            Some(Op::Busy(ms)) => { simcore::sleep_ns(ms * MS); continue }
            Some(Op::Drain(k)) => for _ in 0..*k { recv(&mut keys); },
            Some(Op::Clock(_)) => { sys.time(Precision::Low); }
            Some(Op::Forget) => if let Some((n, _)) = open.pop() { put(D::Forget { n }) },
            None => { while recv(&mut keys) {} simcore::sleep_ns(v.loop_us * 1000) }
        }
        poll(&mut open);
        if stopping(sh, me) { break }
    }
}

// ---------------------------------------------------------------- projects
fn text(v: &Value<'_, C, Sys>) -> String { match v.to_simple() { Ok(SimpleValue::Text(x)) => x.to_string(), Ok(x) => sv(&x).to_string(), Err(_) => "?".into() } }
fn request(sh: Shr, me: usize) -> Rc<dyn for<'gc> Fn(&Mutation<'gc>, AsyncKey<Result<Inter, CompactString>>, Request<'gc, C, Sys>, &mut netsblox_vm::process::Process<'gc, C, Sys>) -> RequestStatus<'gc, C, Sys>> {
    Rc::new(move |_, key, request, _| {
        let (name, args) = match &request { Request::Syscall { name, args } => (name.clone(), args), _ => return RequestStatus::UseDefault { key, request } };
        let ok = |x: SimpleValue| Ok(Inter(x));
        match name.as_str() {
            "log" => {
                let row: Vec<J> = args.iter().map(|a| a.to_simple().map(|x| sv(&x)).unwrap_or(json!({ "not simple": 1 }))).collect();
                sh.st.borrow_mut().insts[me].logs.push((now(), row));
                key.complete(ok(SimpleValue::Bool(true)))
            }
            "beat" => { { let mut st = sh.st.borrow_mut(); let i = &mut st.insts[me]; let t = now(); if i.last_beat > 0 { let d = t - i.last_beat; if d > i.worst_beat.0 { i.worst_beat = (d, t) } } i.last_beat = t; i.beats += 1; } key.complete(ok(SimpleValue::Bool(true))) }
            "id" => {
                let vm: usize = args.first().and_then(|a| a.as_number().ok()).map(|x| x.get() as usize).unwrap_or(0);
                let id = sh.current(vm).map(|i| sh.st.borrow().insts[i].id.clone()).filter(|x| !x.is_empty()).unwrap_or_else(|| "nobody@nowhere#vm".into());
                key.complete(ok(SimpleValue::Text(id.as_str().into())))
            }
            "later" => {
                let tag = text(&args[0]);
                let plan: usize = args[1].as_number().map(|x| x.get() as usize).unwrap_or(0);
                let p = sh.c.laters[plan % sh.c.laters.len()].clone();
                let at = { let mut st = sh.st.borrow_mut(); let l = &mut st.insts[me].laters; l.push(Later { tag: tag.clone(), plan, t_call: now(), t0: None, t1: None }); l.len() - 1 };
                let s = sh.clone();
                let body = move || {
                    if p.delay_us > 0 && p.how != 2 { simcore::sleep_ns(p.delay_us * 1000) }
                    if p.how == 3 { return drop(key) }
                    let v = if p.how == 1 { Err(CompactString::new(format!("no {tag}"))) } else { Ok(Inter(SimpleValue::Text(format!("done {tag}").into()))) };
                    s.st.borrow_mut().insts[me].laters[at].t0 = Some(now());
                    key.complete(v);
                    s.st.borrow_mut().insts[me].laters[at].t1 = Some(now());
                };
                if p.how == 2 { body() } else { simcore::spawn("host operation", body); }
            }
            _ => return RequestStatus::UseDefault { key, request },
        }
        RequestStatus::Handled
    })
}
fn command(sh: Shr, me: usize) -> Rc<dyn for<'gc, 'a> Fn(&Mutation<'gc>, AsyncKey<Result<(), CompactString>>, Command<'gc, 'a, C, Sys>, &mut netsblox_vm::process::Process<'gc, C, Sys>) -> CommandStatus<'gc, 'a, C, Sys>> {
    Rc::new(move |_, key, command, _| {
        let s = match &command { Command::Print { value: Some(v), .. } => text(v), _ => return CommandStatus::UseDefault { key, command } };
        let Some((plan, tag)) = s.split_once('|') else { key.complete(Ok(())); return CommandStatus::Handled };
        let plan: usize = plan.parse().unwrap_or(0);
        let p = sh.c.laters[plan % sh.c.laters.len()].clone();
        let at = { let mut st = sh.st.borrow_mut(); let l = &mut st.insts[me].prints; l.push(Later { tag: tag.into(), plan, t_call: now(), t0: None, t1: None }); l.len() - 1 };
        let (s, tag) = (sh.clone(), tag.to_string());
        let body = move || {
            if p.delay_us > 0 && p.how != 2 { simcore::sleep_ns(p.delay_us * 1000) }
            if p.how == 3 { return drop(key) }
            let r = if p.how == 1 { Err(CompactString::new(format!("no {tag}"))) } else { Ok(()) };
            s.st.borrow_mut().insts[me].prints[at].t0 = Some(now());
            key.complete(r);
            s.st.borrow_mut().insts[me].prints[at].t1 = Some(now());
        };
        if p.how == 2 { body() } else { simcore::spawn("host operation", body); }
        CommandStatus::Handled
    })
}
fn ex(j: &J) -> Ex { match j { J::Bool(x) => Ex::T(*x), J::Number(x) => Ex::N(x.as_f64().unwrap()), J::String(x) => Ex::S(x.clone()), J::Array(x) => Ex::L(x.iter().map(ex).collect()), _ => Ex::S("".into()) } }
fn s(x: &str) -> Ex { Ex::S(x.into()) }
fn n(x: f64) -> Ex { Ex::N(x) }
fn var(x: &str) -> Ex { Ex::V(x.into()) }
fn b(v: Vec<St>) -> Body { Rc::new(v.into_iter().map(|k| Stm { id: 0, k }).collect()) }
fn log(xs: Vec<Ex>) -> St { St::Do(Eff::Sys { name: "log".into(), args: xs }) }
fn guard(tag: &str, code: Vec<St>, err: Vec<St>) -> St { let mut h = vec![log(vec![s("!"), s(tag), var("e")])]; h.extend(err); St::Try { body: b(code), var: "e".into(), handler: b(h) } }
fn set(v: &str, eff: Eff) -> St { St::Let { var: v.into(), pre: vec![], eff } }
pub fn fixed_target(t: &Tgt) -> String { match t { Tgt::Vm(i) => format!("peer{i}@c{i}#vm"), Tgt::Room => "everyone in room".into(), Tgt::Nobody => "nobody".into() } }
pub fn tag_of(vm: usize, inc: u32, s: usize, o: usize) -> String { format!("v{vm}i{inc}s{s}o{o}") }
fn rpc(tag: &str, plan: u32, host: bool, bad: bool, x: Ex, nn: Ex, soft: bool) -> Vec<St> {
    let mut args = vec![("tag".to_string(), s(tag)), ("n".into(), nn.clone()), ("x".into(), x)];
    if bad { args.push(("b".into(), Ex::This)) }
    let call = set("r", Eff::Rpc { host: host.then(|| "http://other.sim".to_string()), service: format!("Svc{}", plan % 3), rpc: format!("call{plan}"), args });
    let after = log(vec![s("c1"), s(tag), nn.clone(), var("r"), Ex::RpcErr]);
    let mut v = vec![log(vec![s("c0"), s(tag), nn.clone()])];
    if soft { v.extend([call, after]) } else { v.push(St::Try { body: b(vec![call, after]), var: "e".into(), handler: b(vec![log(vec![s("c2"), s(tag), nn, var("e")])]) }) }
    v
}
pub fn program(c: &Case, vm: usize, inc: u32, soft: bool) -> Prog {
    let multi = c.net.relay;
    let mut scripts = vec![];
    for (si, sc) in c.vms[vm].scripts.iter().enumerate() {
        let mut v = vec![St::Decl(vec!["r".into(), "e".into(), "t0".into(), "t1".into(), "t2".into()])];
        let hat = match &sc.hat {
            PHat::Start => {
                if sc.spin { v.push(St::Forever(b(vec![St::Do(Eff::Sys { name: "beat".into(), args: vec![] })]))) }
                for (oi, op) in sc.ops.iter().enumerate() {
                    let tag = tag_of(vm, inc, si, oi);
                    match op {
                        POp::Sleep(ms) => v.push(St::Sleep(n(*ms as f64 / 1000.0))),
                        POp::Send { ty, tgts, list, x, wait, extra } => {
                            let mut t = vec![];
                            for (k, g) in tgts.iter().take(3).enumerate() {
                                match g { Tgt::Vm(i) if multi => { v.push(set(&format!("t{k}"), Eff::Sys { name: "id".into(), args: vec![n(*i as f64)] })); t.push(var(&format!("t{k}"))) } g => t.push(s(&fixed_target(g))) }
                            }
                            let target = if *list || t.len() != 1 { Ex::L(t.clone()) } else { t[0].clone() };
                            let mut vals = vec![("n".to_string(), s(&tag)), ("x".into(), ex(x))];
                            if *extra { vals.push(("k".into(), Ex::L(vec![n(1.0), s("ß")]))) }
                            let ty = format!("m{ty}");
                            v.push(log(vec![s(if *wait { "w0" } else { "s0" }), s(&tag), Ex::L(t)]));
                            v.push(if *wait { guard(&tag, vec![set("r", Eff::NetWait { target, ty, vals }), log(vec![s("w1"), s(&tag), var("r")])], vec![]) } else { guard(&tag, vec![St::NetSend { target, ty, vals }, log(vec![s("s1"), s(&tag)])], vec![]) });
                        }
                        POp::Rpc { plan, host, bad, x } => v.extend(rpc(&tag, *plan, *host, *bad, ex(x), n(oi as f64), soft)),
                        POp::Later { plan } => { v.push(log(vec![s("l0"), s(&tag)])); v.push(St::Try { body: b(vec![set("r", Eff::Sys { name: "later".into(), args: vec![s(&tag), n(*plan as f64)] }), log(vec![s("l1"), s(&tag), var("r"), Ex::SysErr])]), var: "e".into(), handler: b(vec![log(vec![s("l2"), s(&tag), var("e")])]) }) }
                        POp::Print { plan } => { v.push(log(vec![s("p0"), s(&tag)])); v.push(St::Try { body: b(vec![St::Say { think: false, v: s(&format!("{plan}|{tag}")), dur: None }, log(vec![s("p1"), s(&tag)])]), var: "e".into(), handler: b(vec![log(vec![s("p2"), s(&tag), var("e")])]) }) }
                        POp::BadSend => v.push(guard(&tag, vec![St::NetSend { target: s("x@y#vm"), ty: "m0".into(), vals: vec![("n".into(), s(&tag)), ("x".into(), Ex::This)] }, log(vec![s("bad"), s(&tag)])], vec![])),
                        POp::PublicId => v.push(guard(&tag, vec![set("r", Eff::Rpc { host: None, service: "PublicRoles".into(), rpc: "getPublicRoleId".into(), args: vec![] }), log(vec![s("id"), s(&tag), var("r")])], vec![])),
                        POp::Clock => v.push(log(vec![s("clk"), s(&tag), Ex::UnixMs])),
                    }
                }
                v.push(log(vec![s("end"), n(si as f64)]));
                Hat::Flag
            }
            PHat::Msg(t) => {
                v.push(log(vec![s("h0"), n(si as f64), var("n"), var("x"), var("k")]));
                if sc.pause_ms > 0 { v.push(St::Sleep(n(sc.pause_ms as f64 / 1000.0))) }
                if let Some(p) = sc.rpc { v.extend(rpc(&tag_of(vm, inc, si, 99), p, false, false, n(1.0), var("n"), soft)) }
                for k in 0..sc.reply { v.push(St::NetReply(Ex::L(vec![s("rep"), n(vm as f64), n(si as f64), var("n"), n(k as f64)]))) }
                v.push(log(vec![s("h1"), n(si as f64), var("n")]));
                Hat::Net { ty: format!("m{t}"), fields: vec!["n".into(), "x".into(), "k".into()] }
            }
        };
        scripts.push(ScriptDef { hat, body: b(v) });
    }
    let mut p = Prog { globals: vec![], funcs: vec![], ents: vec![EntDef { name: "Stage".into(), fields: vec![], funcs: vec![], scripts: vec![], costumes: 0, ..Default::default() }, EntDef { name: "sp".into(), fields: vec![], funcs: vec![], scripts: vec![], costumes: 0, ..Default::default() }] };
    let half = scripts.len() / 2;
    p.ents[1].scripts = scripts.split_off(half);
    p.ents[0].scripts = scripts;
    ir::renumber(&mut p);
    p
}
fn project(sh: &Shr, me: usize, v: &Vm, sys: Rc<Sys>) {
    let (vm, inc, soft) = { let st = sh.st.borrow(); let i = &st.insts[me]; (i.vm, i.inc, i.soft) };
    let prog = program(&sh.c, vm, inc, soft);
    sh.st.borrow_mut().insts[me].procs = v.scripts.len();
    let role = ir::lower(&prog);
    let (bc, init, _, _) = ByteCode::compile(&role).expect("program compiles");
    let scheme = if soft { ErrorScheme::Soft } else { ErrorScheme::Hard };
    let settings = Settings { rpc_error_scheme: scheme, syscall_error_scheme: scheme, ..Default::default() };
    let bc = Rc::new(bc);
    let mut arena = EnvArena::new(|mc| Env { proj: Project::from_init(mc, &init, bc, settings, sys) });
    arena.mutate_root(|mc, e| e.proj.input(mc, Input::Start));
    let mut k = 0u64;
    while !stopping(sh, me) {
        for _ in 0..v.burst * 8 {
            let t0 = now();
            let (idle, err) = arena.mutate_root(|mc, e| { let r = e.proj.step(mc); (matches!(r, ProjectStep::Idle | ProjectStep::Yield), match r { ProjectStep::Error { error, .. } => Some(format!("{:?}", error.cause)), _ => None }) });
            let d = now() - t0;
            let mut st = sh.st.borrow_mut();
            let i = &mut st.insts[me];
            i.steps += 1;
            if d > i.worst_step.0 { i.worst_step = (d, t0) }
            if let Some(e) = err { i.errs.push(e) }
            if idle { break }
        }
        k += 1;
        if k % 16 == 0 { arena.collect_debt() }
        if k % 256 == 0 { arena.collect_all() }
        simcore::sleep_ns(v.loop_us * 1000);
    }
}

// ---------------------------------------------------------------- clocks and asynchronous results on their own
pub fn clocks(sh: &Shr) {
    let v = sh.c.vms[0].clone();
    let t0 = now();
    let clock = Arc::new(Clock::new(UtcOffset::from_whole_seconds(v.offset_min as i32 * 60).unwrap(), prec(v.cache)));
    { let mut st = sh.st.borrow_mut(); st.new_clock = (t0, now()); st.cache = v.cache; }
    let left = Rc::new(Cell::new(sh.c.vms.len()));
    for (th, t) in sh.c.vms.iter().enumerate() {
        let (c, s, ops, left) = (clock.clone(), sh.clone(), t.ops.clone(), left.clone());
        simcore::spawn("reader", move || {
            for op in ops {
                match op {
                    Op::Sleep(ms) => simcore::sleep_ns(ms * 100_000 + 1),
                    Op::Clock(p) => {
                        let t0 = now();
                        let x: OffsetDateTime = match p { 0 => c.read(Precision::Low), 1 => c.read(Precision::Medium), 2 => c.read(Precision::High), _ => c.update() };
                        let t1 = now();
                        s.st.borrow_mut().reads.push(Reading { th, t0, t1, prec: p, ns: x.unix_timestamp_nanos(), off: x.offset().whole_seconds() });
                    }
                    _ => (),
                }
            }
            left.set(left.get() - 1);
        });
    }
    while left.get() > 0 { simcore::sleep_ns(MS) }
}
pub fn keys(sh: &Shr) {
    let plans = sh.c.vms[0].keys.clone();
    let left = Rc::new(Cell::new(0usize));
    for (i, p) in plans.iter().enumerate() {
        sh.st.borrow_mut().keys.push(KeyRec::default());
        let key: AsyncKey<Result<u64, CompactString>> = AsyncKey::new();
        let (k2, s, pl, l) = (key.clone(), sh.clone(), p.clone(), left.clone());
        left.set(left.get() + 1);
        simcore::spawn("completer", move || {
            if pl.delay_us > 0 { simcore::sleep_ns(pl.delay_us * 1000) }
            if pl.how == 1 { s.st.borrow_mut().keys[i].dropped = true; drop(k2) } else {
                let t0 = now();
                k2.complete(Ok(0xfeed_0000 + i as u64));
                s.st.borrow_mut().keys[i].done = Some((t0, now()));
            }
            l.set(l.get() - 1);
        });
        for _ in 0..p.pollers {
            let (k2, s, pl, l) = (key.clone(), sh.clone(), p.clone(), left.clone());
            left.set(left.get() + 1);
            simcore::spawn("poller", move || {
                for _ in 0..40 {
                    let t0 = now();
                    let r = k2.poll();
                    let t1 = now();
                    let (kind, val) = match r { AsyncResult::Pending => (0, 0), AsyncResult::Completed(Ok(x)) => (1, x), AsyncResult::Completed(Err(_)) => (1, 1), AsyncResult::Consumed => (2, 0) };
                    s.st.borrow_mut().keys[i].polls.push((t0, t1, kind, val));
                    if pl.every_us > 0 { simcore::sleep_ns(pl.every_us * 1000) }
                    if t1 > s.st.borrow().keys[i].done.map(|d| d.1 + 50_000).unwrap_or(u64::MAX) { break }
                }
                l.set(l.get() - 1);
            });
        }
    }
    while left.get() > 0 { simcore::sleep_ns(MS / 10) }
}
pub fn everything(sh: Shr) {
    match sh.c.kind {
        Kind::Clock => return clocks(&sh),
        Kind::Async => return keys(&sh),
        _ => (),
    }
    world::schedule(&sh, None);
    for vm in 0..sh.c.vms.len() { start(&sh, vm, 0) }
    let extra = if sh.c.net.create.is_empty() { 0 } else { 4_000 } + sh.c.vms.iter().map(|v| v.start_ms).max().unwrap_or(0) + 8 * sh.c.net.hi_us / 1000 + 200;
    simcore::sleep_ns((sh.c.run_ms + extra) * MS);
    { let t = now(); let mut st = sh.st.borrow_mut(); st.end = t; for i in st.insts.iter_mut() { i.stop = true } }
    let t0 = now();
    loop {
        simcore::sleep_ns(20 * MS);
        let done = sh.st.borrow().insts.iter().all(|i| i.killed.is_some() || i.stuck.is_some());
        if done || now() > t0 + 20_000 * MS { break }
    }
}
thread_local! { pub static KEEP: RefCell<Vec<Shr>> = const { RefCell::new(Vec::new()) }; }
