//! One simulated process running the real `cli::run`, with its user, its terminal and the NetsBlox server around it.
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::rc::Rc;
use netsblox_vm::cli;
use netsblox_vm::runtime::{Command, CommandStatus, Config, CustomTypes, EntityKind, GetType, ProcessKind, Request, RequestStatus, SimpleValue, Unwindable, Value};
use netsblox_vm::runtime::Key as _;
use netsblox_vm::std_system::StdSystem;
use serde_json::json;
use simcore::net::{self, Conn, Frame, HttpReq, HttpResp, NetErr, Slot};
use simcore::now;
use crate::case::*;

pub enum NoNative {}
impl GetType for NoNative { type Output = u8; fn get_type(&self) -> u8 { match *self {} } }
impl std::fmt::Debug for NoNative { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { match *self {} } }
pub struct EntState;
impl From<EntityKind<'_, '_, C, StdSystem<C>>> for EntState { fn from(_: EntityKind<'_, '_, C, StdSystem<C>>) -> Self { EntState } }
pub struct ProcState;
impl From<ProcessKind<'_, '_, C, StdSystem<C>>> for ProcState { fn from(_: ProcessKind<'_, '_, C, StdSystem<C>>) -> Self { ProcState } }
impl Unwindable for ProcState { type UnwindPoint = (); fn get_unwind_point(&self) {} fn unwind_to(&mut self, _: &()) {} }
pub struct Inter(pub SimpleValue);
impl From<SimpleValue> for Inter { fn from(x: SimpleValue) -> Self { Inter(x) } }
pub struct C;
impl CustomTypes<StdSystem<C>> for C {
    type NativeValue = NoNative;
    type Intermediate = Inter;
    type EntityState = EntState;
    type ProcessState = ProcState;
    fn from_intermediate<'gc>(mc: &netsblox_vm::gc::Mutation<'gc>, v: Inter) -> Value<'gc, C, StdSystem<C>> { Value::from_simple(mc, v.0) }
}

/// Something the project asked of the front end, at its place in the order of everything.
#[derive(Clone, Debug)]
pub struct Said { pub t: u64, pub n: u64, pub ent: String, pub text: Option<String> }
#[derive(Default)]
pub struct Hist { pub prints: Vec<Said>, pub asks: Vec<Said>, pub sent: BTreeMap<usize, (u64, What)>, pub started: u64, pub ended: Option<u64>, pub died: Option<String>, pub end: u64, pub end_n: u64, pub counts: BTreeMap<&'static str, u64> }
pub struct Sh { pub c: Case, pub h: RefCell<Hist> }
pub type Shr = Rc<Sh>;
impl Sh { pub fn count(&self, k: &'static str) { *self.h.borrow_mut().counts.entry(k).or_insert(0) += 1 } }
pub const MS: u64 = 1_000_000;

/// The NetsBlox server: whatever a program needs to be created.
struct W(Shr);
impl net::World for W {
    fn http(&self, req: HttpReq, out: Slot<Result<HttpResp, NetErr>>) {
        let rel = req.url.strip_prefix("http://sim.server").unwrap_or("").to_string();
        let body = if rel == "/configuration" { json!({ "servicesHosts": [{ "url": "http://sim.services", "categories": [] }], "clientId": "me" }) }
            else if rel == "/projects/" { json!({ "id": "project-1", "name": "untitled (2)", "owner": "x", "roles": { "role-1": { "name": "myRole", "code": "" } } }) }
            else { json!("ok") };
        let lat = 2 * 1000 * self.0.c.lat_us;
        simcore::after(lat, move || out.set(Ok(HttpResp { status: 200, headers: vec![("content-type".into(), b"application/json".to_vec())], body: Ok(body.to_string().into_bytes()), body_delay: 0 })));
    }
    fn connect(&self, url: String, group: u32, out: Slot<Result<Conn, NetErr>>) { simcore::after(2 * 1000 * self.0.c.lat_us, move || out.set(Ok(Conn::new(0, group, &url)))); }
    fn frame(&self, _: Conn, _: Frame) {}
    fn gone(&self, _: Conn) {}
}
pub fn world(sh: &Shr) -> Rc<dyn net::World> { Rc::new(W(sh.clone())) }

fn program(sh: Shr) {
    let c = &sh.c;
    let (s1, s2) = (sh.clone(), sh.clone());
    let config: Config<C, StdSystem<C>> = Config {
        command: Some(Rc::new(move |_, key, command, proc| {
            if let Command::Print { value, .. } = &command {
                let ent = proc.get_call_stack().last().unwrap().entity.borrow().name.as_str().to_string();
                let n = simterm::tick();
                s1.h.borrow_mut().prints.push(Said { t: now(), n, ent, text: value.as_ref().map(|v| format!("{v:?}")) });
            }
            CommandStatus::UseDefault { key, command }
        })),
        request: Some(Rc::new(move |_, key, request, proc| {
            if let Request::Input { prompt } = &request {
                let ent = proc.get_call_stack().last().unwrap().entity.borrow().name.as_str().to_string();
                let n = simterm::tick();
                s2.h.borrow_mut().asks.push(Said { t: now(), n, ent, text: Some(format!("{prompt:?}")) });
            }
            RequestStatus::UseDefault { key, request }
        })),
    };
    #[cfg(feature = "files")]
    if let Some(f) = &c.files {
        let mut args = vec!["nb".to_string()];
        if f.allowed { args.push("--fs".into()) }
        args.extend(["run", "project.xml", "--server", "http://sim.server"].map(|x| x.to_string()));
        simterm::term(|t| t.args = args);
        return nbbin::program();
    }
    let server = "http://sim.server".into();
    let mode = match c.mode {
        Mode::Server => cli::Mode::Start { server, addr: "127.0.0.1".into(), port: 6286 },
        _ => cli::Mode::Run { src: "project.xml".into(), role: c.role.as_deref().map(|x| x.into()), server },
    };
    cli::run::<C>(mode, config, &[]);
}
fn event(k: &Key, how: u8) -> simterm::Ev {
    use simterm::Key as K;
    let key = match k { Key::Char(c) => K::Char(*c), Key::Enter => K::Enter, Key::Backspace => K::Backspace, Key::Esc => K::Esc, Key::Up => K::Up, Key::Down => K::Down, Key::Left => K::Left, Key::Right => K::Right, Key::Tab => K::Tab, Key::Other(x) => K::Other(*x) };
    simterm::Ev::Key { key, ctrl: how & 2 != 0, shift: how & 1 != 0, alt: how & 4 != 0, kind: how >> 6 }
}
fn act(sh: &Shr, id: usize, a: &Act) {
    let ev = |e| simterm::term(|t| t.events.push_back(e));
    let req = |method: &'static str, path: &str, body: Vec<u8>| {
        sh.h.borrow_mut().sent.insert(id, (now(), a.what.clone()));
        let headers = if a.origin || a.what == What::Preflight { vec![("origin".to_string(), "https://editor.netsblox.org".to_string())] } else { vec![] };
        simterm::deliver(simterm::Req { id, method, path: path.into(), headers, body })
    };
    match &a.what {
        What::Upload(u) => { if !matches!(u, Up::Good(_)) { sh.count("bad uploads") } req("POST", "/project", upload(&sh.c, u)) }
        What::Start => req("POST", "/input", b"start".to_vec()),
        What::Stop => req("POST", "/input", b"stop".to_vec()),
        What::Toggle => req("POST", "/toggle-paused", vec![]),
        What::Pull => req("POST", "/pull", vec![]),
        What::GetProject => req("GET", "/project", vec![]),
        What::GetExt => req("GET", "/extension.js", vec![]),
        What::Preflight => req("OPTIONS", "/pull", vec![]),
        What::Odd(k) => { sh.count("odd requests"); match k { 0 => req("POST", "/input", b"pause".to_vec()), 1 => req("POST", "/input", vec![0xff, 0xfe]), 2 => req("POST", "/input", vec![]), 3 => req("GET", "/pull", vec![]), 4 => req("POST", "/nothing", vec![]), 5 => req("GET", "/input", b"start".to_vec()), 6 => req("POST", "/input", b"START".to_vec()), 8 => req("POST", "/input", b"start\n".to_vec()), 9 => req("POST", "/input", b" stop".to_vec()), 10 => req("POST", "/input", b"start\0".to_vec()), 11 => req("POST", "/input", b"startstop".to_vec()), _ => req("GET", "/project/", vec![]) } }
        What::Key(k, how) => { if how >> 6 > 0 { sh.count("key repeats and releases") } ev(event(k, *how)) }
        What::CtrlC => ev(simterm::Ev::Key { key: simterm::Key::Char('c'), ctrl: true, shift: false, alt: false, kind: 0 }),
        What::Resize(c, r) => { sh.count("terminal resized"); simterm::term(|t| { t.size = (*c, *r); t.events.push_back(simterm::Ev::Resize(*c, *r)) }) }
        What::Noise(k) => { sh.count("other terminal events"); ev([simterm::Ev::Focus(true), simterm::Ev::Focus(false), simterm::Ev::Mouse, simterm::Ev::Paste("ab\n".into())][*k as usize % 4].clone()) }
    }
}
pub const FINAL: usize = 1_000_000;
pub fn everything(sh: Shr) {
    let c = sh.c.clone();
    sh.h.borrow_mut().started = now();
    let s = sh.clone();
    simcore::spawn("program", move || {
        simcore::set_group(1);
        let r = catch_unwind(AssertUnwindSafe(|| program(s.clone())));
        match r {
            Ok(()) => { simterm::flush_out(); s.h.borrow_mut().ended = Some(now()); simterm::log(simterm::Done::Exit(0)); simcore::kill_group(1) }
            Err(e) if e.is::<simcore::Cancel>() => resume_unwind(e),
            Err(_) => { let p = simcore::take_last_panic().unwrap_or_else(|| "panic".into()); s.h.borrow_mut().died = Some(p) }
        }
    });
    // the user starts once the program is up
    let up = || simterm::term(|t| t.exit.is_some() || t.servers > 0 || (sh.c.mode != Mode::Server && t.log.iter().any(|l| matches!(&l.2, simterm::Done::Out(s) if s.contains("public id"))))) || sh.h.borrow().ended.is_some() || sh.h.borrow().died.is_some();
    let limit = now() + 5_000 * MS;
    while !up() && now() < limit { simcore::sleep_ns(MS) }
    for (id, a) in c.acts.iter().enumerate() { let (s, a2) = (sh.clone(), a.clone()); simcore::after(a.at_ms * MS, move || act(&s, id, &a2)); }
    let last = c.acts.iter().map(|a| a.at_ms).max().unwrap_or(0);
    simcore::sleep_ns(c.run_ms.max(last + 1) * MS + c.slack());
    if c.mode == Mode::Server { act(&sh, FINAL, &Act { at_ms: 0, what: What::Pull, origin: true }); simcore::sleep_ns(c.slack()); act(&sh, FINAL + 1, &Act { at_ms: 0, what: What::GetProject, origin: true }); simcore::sleep_ns(c.slack()); }
    sh.h.borrow_mut().end = now();
    let n = simterm::tick();
    sh.h.borrow_mut().end_n = n;
    simcore::kill_group(1);
}
pub fn surroundings(c: &Case) -> simterm::Term {
    let mut t = simterm::Term { tty: c.mode == Mode::Tty, size: c.size, ..Default::default() };
    if c.busy { t.busy_ports.push(6286) }
    if c.mode != Mode::Server {
        let good = file(c).into_bytes();
        let f = match c.file { 0 | 6 | 7 => Some(Ok(good)), 1 => Some(Err(0)), 2 => None, 3 => Some(Err(1)), 4 => { let mut b = good; let n = b.len() / 2; b.insert(n, 0xfe); Some(Ok(b)) } _ => Some(Ok(b"<room".to_vec())) };
        if let Some(f) = f { t.files.insert("project.xml".into(), f); }
    }
    if let Some(f) = &c.files {
        for (k, x) in &f.there { t.files.insert(format!("f{k}.txt"), Ok(content(*x))); }
        t.fs_faults = f.faults.iter().copied().collect();
        t.cap = f.cap.map(|x| x + f.there.iter().map(|x| content(x.1).len()).sum::<usize>());
    }
    t
}
