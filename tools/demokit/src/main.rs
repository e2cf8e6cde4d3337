//! Runs one fixed scenario on the VM under a simulated host and prints what happens.
#![allow(dead_code)]
mod ir; mod model; mod rng; mod simsys;
use std::collections::VecDeque;
use std::rc::Rc;
use serde::{Serialize, Deserialize};
use netsblox_vm::bytecode::ByteCode;
use netsblox_vm::compact_str::CompactString;
use netsblox_vm::gc::*;
use netsblox_vm::process::ErrorSummary;
use netsblox_vm::project::*;
use netsblox_vm::runtime::*;
use netsblox_vm::vecmap::VecMap;
use ir::*; use model::*; use simsys::{C, Sim};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum What {
    Start, Stop, Key(char), Jump(i64),
    Custom { name: String, args: Vec<(String, Sn)>, interrupt: bool, maxq: u32 },
    Net { ty: String, fields: Vec<(String, Sn)>, reply: bool },
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Action { pub at: u32, pub sub: u32, pub what: What }
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum GcPat { Never, Full(u32), Debt(u32), Rand(u64) }
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Case {
    pub prog: Prog, pub opts: Opts, pub actions: Vec<Action>, pub outcomes: Vec<Outcome>,
    pub start_ms: u64, pub tick: u64, pub gc: GcPat, pub segs: u32, pub idle_thresh: u32, pub burst: u32, pub compare_every: u32,
    #[serde(default)] pub pad: u32, #[serde(default)] pub bounded: bool,
}

#[derive(Deserialize)]
struct File { case: Case, show: Vec<String>, #[serde(default)] reload: bool, #[serde(default)] final_vars: Vec<String>, #[serde(default)] watch: bool, #[serde(default)] keep: bool }
#[derive(Collect)]
#[collect(no_drop)]
struct Env<'gc> { proj: Project<'gc, C, Sim>, watchers: Vec<Watcher<'gc, C, Sim>>, dead: Vec<netsblox_vm::process::Process<'gc, C, Sim>> }
type EnvArena = Arena<Rootable![Env<'_>]>;

fn incoming(no: u32, ty: &str, fields: &[(String, Sn)], reply: bool) -> IncomingMessage {
    let mut values = VecMap::new();
    for (k, v) in fields { values.insert(CompactString::new(k), simsys::simple(v)); }
    IncomingMessage { msg_type: CompactString::new(ty), values, reply_key: if reply { Some(InternReplyKey { src_id: "src".into(), request_id: CompactString::new(format!("{no}")) }) } else { None } }
}
fn main() {
    let path = std::env::args().nth(1).unwrap();
    let f: File = serde_json::from_str(&std::fs::read_to_string(path).unwrap()).unwrap();
    let mut case = f.case;
    renumber(&mut case.prog);
    let mut role = lower(&case.prog);
    for i in 0..case.pad {
        use netsblox_vm::ast::*;
        let text = format!("padding string number {i} {}", "z".repeat((i % 23) as usize));
        let say = Stmt { kind: StmtKind::Say { content: Box::new(Expr::from(text.as_str())), duration: None }, info: Box::new(BlockInfo { comment: None, location: Some("item_999999".into()) }) };
        if i == 0 { role.entities[0].scripts.insert(0, Script { hat: Some(Box::new(Hat { kind: HatKind::Unknown { name: "never".into(), fields: vec![] }, info: Box::new(BlockInfo { comment: None, location: None }) })), stmts: vec![] }) }
        role.entities[0].scripts[0].stmts.push(say);
    }
    let (mut bc, mut init, locs, _) = ByteCode::compile(&role).unwrap();
    if f.reload {
        bc = serde_json::from_str(&serde_json::to_string(&bc).unwrap()).unwrap();
        init = serde_json::from_str(&serde_json::to_string(&init).unwrap()).unwrap();
    }
    let sys = Rc::new(Sim::new(case.start_ms, case.opts.clock, Rc::new(case.outcomes.clone()), case.opts.max_depth));
    sys.0.borrow_mut().props = case.opts.props;
    let sys2 = sys.clone();
    let scheme = |s| if s { ErrorScheme::Soft } else { ErrorScheme::Hard };
    let settings = Settings { max_call_depth: case.opts.max_depth, rpc_error_scheme: scheme(case.opts.rpc_soft), syscall_error_scheme: scheme(case.opts.sys_soft) };
    let mut arena = EnvArena::new(|mc| Env { proj: Project::from_init(mc, &init, Rc::new(bc), settings, sys2), watchers: vec![], dead: vec![] });
    let idle_fired = Rc::new(std::cell::Cell::new(0));
    let fired = idle_fired.clone();
    let mut idle_action = IdleAction::new(case.idle_thresh as usize, Box::new(move || fired.set(fired.get() + 1)));
    let show = |e: &Ev| if f.show.iter().any(|x| x == e.kind()) { println!("{e:?}") };
    let (mut now, mut mail, mut log_len, mut ai) = (case.start_ms, 0u32, 0usize, 0usize);
    for seg in 0..case.segs {
        let mut mid = None;
        while ai < case.actions.len() && case.actions[ai].at <= seg {
            let a = case.actions[ai].clone();
            ai += 1;
            if let What::Jump(d) = a.what { now = (now as i64).saturating_add(d) as u64; continue }
            if a.sub > 0 { mid = Some(a); continue }
            let (x, m) = (input(&a.what), net(&a.what, &mut mail));
            if let Some(x) = x { arena.mutate_root(|mc, e| e.proj.input(mc, x)) }
            if let Some(m) = m { sys.0.borrow_mut().msgs.push_back(m) }
        }
        sys.0.borrow_mut().now = now;
        for step in 0.. {
            if step > 20_000 { println!("no progress"); return }
            if let Some(a) = &mid { if a.sub == step {
                let (x, m) = (input(&a.what), net(&a.what, &mut mail));
                if let Some(x) = x { arena.mutate_root(|mc, e| e.proj.input(mc, x)) }
                if let Some(m) = m { sys.0.borrow_mut().msgs.push_back(m) }
            } }
            arena.mutate_root(|mc, e| {
                let st = e.proj.step(mc);
                idle_action.consume(&st);
                let gc = e.proj.get_global_context();
                let gc = gc.borrow();
                if let Some(Value::List(l)) = gc.globals.lookup(LOG).map(|x| x.get().clone()) {
                    let l = l.borrow();
                    for x in l.iter().skip(log_len) { sys.0.borrow_mut().evs.push(Ev::Log(simsys::snap(x))) }
                    log_len = l.len();
                }
                let ev = match st {
                    ProjectStep::Normal => None, ProjectStep::Idle => Some(Ev::Idle), ProjectStep::Yield => Some(Ev::Yield), ProjectStep::Pause => Some(Ev::Pause),
                    ProjectStep::ProcessTerminated { result, proc } => Some(Ev::Term { ent: proc.get_call_stack().last().unwrap().entity.borrow().state.id, val: simsys::snap(&result) }),
                    ProjectStep::Error { error, proc } => {
                        let sum = ErrorSummary::extract(&error, &proc, &locs);
                        let ent = proc.get_call_stack().last().unwrap().entity.borrow().state.id;
                        let text = match &error.cause { ErrorCause::Custom { msg } => Sn::S(msg.to_string()), x => Sn::S(format!("{x:?}").split(' ').next().unwrap().to_string()) };
                        let sites = sum.trace.iter().map(|t| t.location.strip_prefix("item_").and_then(|x| x.parse().ok())).collect();
                        let locals = sum.trace.iter().map(|t| { let mut v: Vec<String> = t.locals.iter().map(|x| x.name.to_string()).collect(); v.sort(); v }).collect();
                        if f.keep { e.dead.push(proc) }
                        Some(Ev::Err { ent, text, sites, locals })
                    }
                    ProjectStep::Watcher { create, watcher } => {
                        let ent = watcher.entity.upgrade(mc).map(|e| e.borrow().state.id).unwrap_or(u32::MAX);
                        let val = watcher.value.upgrade(mc).map(|v| simsys::snap(&v.borrow())).unwrap_or(Sn::O);
                        let name = watcher.name.to_string();
                        e.watchers.push(watcher);
                        Some(Ev::Watch { create, ent, name, val })
                    }
                };
                if let Some(ev) = ev { sys.0.borrow_mut().evs.push(ev) }
            });
            match case.gc { GcPat::Full(_) => { arena.collect_all(); arena.collect_all() } GcPat::Debt(_) => arena.collect_debt(), _ => () }
            let evs = std::mem::take(&mut sys.0.borrow_mut().evs);
            if !evs.is_empty() { evs.iter().for_each(|e| show(e)); break }
        }
        if f.watch { arena.mutate_root(|mc, e| for w in &e.watchers { println!("watch {} = {:?}", w.name, w.value.upgrade(mc).map(|v| simsys::snap(&v.borrow()))) }) }
        now = now.saturating_add(case.tick);
    }
    if f.show.iter().any(|x| x == "idle action") { println!("idle action fired {} times", idle_fired.get()) }
    if f.show.iter().any(|x| x == "memory") { arena.collect_all(); arena.collect_all(); println!("memory ok: {}", arena.metrics().total_gc_allocation() < 200_000) }
    arena.mutate_root(|_, e| {
        let gc = e.proj.get_global_context();
        let gc = gc.borrow();
        for v in &f.final_vars { println!("{v} = {:?}", gc.globals.lookup(v).map(|x| simsys::snap(&x.get()))) }
    });
    std::mem::forget(arena);
}
fn input(w: &What) -> Option<Input> {
    Some(match w {
        What::Start => Input::Start, What::Stop => Input::Stop, What::Key(c) => Input::KeyDown { key: KeyCode::Char(*c) },
        What::Custom { name, args, interrupt, maxq } => {
            let mut a = VecMap::new();
            for (k, v) in args { a.insert(CompactString::new(k), simsys::simple(v)); }
            Input::CustomEvent { name: CompactString::new(name), args: a, interrupt: *interrupt, max_queue: *maxq as usize }
        }
        _ => return None,
    })
}
fn net(w: &What, mail: &mut u32) -> Option<IncomingMessage> {
    match w { What::Net { ty, fields, reply } => { *mail += 1; Some(incoming(*mail - 1, ty, fields, *reply)) } _ => None }
}
#[allow(unused)] fn unused(_: VecDeque<u8>) {}
