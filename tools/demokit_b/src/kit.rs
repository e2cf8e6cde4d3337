//! A small server on the loopback interface and helpers for running VMs against it.
use std::cell::RefCell;
use std::collections::{HashMap, VecDeque};
use std::io::{Read, Write};
use std::net::{Shutdown, TcpListener, TcpStream};
use std::rc::Rc;
use std::sync::mpsc::{channel, Sender};
use std::sync::{Arc, Mutex};
use std::thread;
use std::time::{Duration, Instant};
pub use netsblox_vm::ast;
pub use netsblox_vm::bytecode::ByteCode;
pub use netsblox_vm::compact_str::CompactString;
pub use netsblox_vm::gc::*;
pub use netsblox_vm::project::{Input, Project, ProjectStep};
pub use netsblox_vm::real_time::UtcOffset;
pub use netsblox_vm::runtime::*;
pub use netsblox_vm::std_system::StdSystem;
pub use netsblox_vm::std_util::{AsyncKey, Clock};
pub use netsblox_vm::vecmap::VecMap;
pub use serde_json::{json, Value as J};

pub enum Cmd { Text(String), Binary(Vec<u8>), Close, Drop, StopReading(u64) }
#[derive(Clone)]
pub struct Rsp { pub delay_ms: u64, pub status: u16, pub ctype: &'static str, pub body: Vec<u8>, pub cut: bool }
pub fn rsp(body: &str) -> Rsp { Rsp { delay_ms: 0, status: 200, ctype: "application/json", body: body.into(), cut: false } }
#[derive(Default)]
pub struct Shared { pub http: Vec<(String, J)>, pub frames: Vec<String>, pub outs: Vec<Sender<Cmd>>, pub rpcs: HashMap<String, VecDeque<Rsp>>, pub meta: Option<J>, pub echo: bool, pub answer: Option<fn(&J) -> Vec<(u64, J)>> }
#[derive(Clone)]
pub struct Server { pub port: u16, pub sh: Arc<Mutex<Shared>> }
impl Server {
    pub fn new() -> Self {
        let l = TcpListener::bind("127.0.0.1:0").unwrap();
        let s = Server { port: l.local_addr().unwrap().port(), sh: Default::default() };
        let t = s.clone();
        thread::spawn(move || for c in l.incoming() { if let Ok(c) = c { let t = t.clone(); thread::spawn(move || t.serve(c)); } });
        s
    }
    pub fn url(&self) -> CompactString { format!("http://127.0.0.1:{}", self.port).into() }
    pub fn rpc(&self, path: &str, r: Rsp) { self.sh.lock().unwrap().rpcs.entry(path.into()).or_default().push_back(r) }
    pub fn send(&self, conn: usize, c: Cmd) { let _ = self.sh.lock().unwrap().outs[conn].send(c); }
    pub fn msg(&self, conn: usize, ty: &str, content: J, request: Option<&str>) {
        let mut m = json!({ "type": "message", "dstId": "me", "srcId": "peer@c#vm", "msgType": ty, "content": content });
        if let Some(r) = request { m["requestId"] = json!(r) }
        self.send(conn, Cmd::Text(m.to_string()))
    }
    pub fn reply(&self, conn: usize, request: &str, body: J) { self.send(conn, Cmd::Text(json!({ "type": "message", "msgType": "__reply__", "requestId": request, "content": { "body": body } }).to_string())) }
    pub fn frames(&self) -> Vec<J> { self.sh.lock().unwrap().frames.iter().map(|x| serde_json::from_str(x).unwrap()).collect() }
    /// Frames other than the announcement and pongs, once there are at least n of them (or 3 s have passed).
    pub fn wait(&self, n: usize) -> Vec<J> {
        let t = Instant::now();
        loop {
            let f: Vec<J> = self.frames().into_iter().filter(|x| x["type"] == "message").collect();
            if f.len() >= n || t.elapsed() > Duration::from_secs(3) { return f }
            ms(5)
        }
    }
    fn serve(&self, mut c: TcpStream) {
        let mut head = vec![0u8; 16384];
        let n = loop { let n = match c.peek(&mut head) { Ok(0) | Err(_) => return, Ok(n) => n }; if head[..n].windows(4).any(|w| w == b"\r\n\r\n") { break n } ms(1) };
        let text = String::from_utf8_lossy(&head[..n]).to_string();
        if text.to_lowercase().contains("upgrade: websocket") { return self.socket(c) }
        let end = text.find("\r\n\r\n").unwrap() + 4;
        let path = text.split(' ').nth(1).unwrap_or("").to_string();
        let len: usize = text.lines().find_map(|l| l.to_lowercase().strip_prefix("content-length:").map(|x| x.trim().parse().unwrap())).unwrap_or(0);
        let mut all = vec![0u8; end + len];
        if c.read_exact(&mut all).is_err() { return }
        let body: J = serde_json::from_slice(&all[end..]).unwrap_or(J::Null);
        let short = path.split('?').next().unwrap().trim_start_matches('/').to_string();
        let r = {
            let mut s = self.sh.lock().unwrap();
            s.http.push((path.clone(), body));
            if short == "configuration" { rsp(&json!({ "servicesHosts": [{ "url": self.url().as_str() }] }).to_string()) }
            else if short == "projects/" { rsp(&s.meta.clone().unwrap_or(json!({ "id": "pid", "roles": { "r1": { "name": "myRole" } } })).to_string()) }
            else { s.rpcs.get_mut(&short).and_then(|q| if q.len() > 1 { q.pop_front() } else { q.front().cloned() }).unwrap_or(rsp("\"OK\"")) }
        };
        if r.delay_ms > 0 { ms(r.delay_ms) }
        let _ = c.write_all(format!("HTTP/1.1 {} X\r\nContent-Type: {}\r\nContent-Length: {}\r\nConnection: close\r\n\r\n", r.status, r.ctype, r.body.len() + if r.cut { 100 } else { 0 }).as_bytes());
        let _ = c.write_all(&r.body);
        let _ = c.shutdown(Shutdown::Both);
    }
    fn socket(&self, c: TcpStream) {
        c.set_nodelay(true).unwrap();
        let raw = c.try_clone().unwrap();
        let Ok(mut ws) = tungstenite::accept(c) else { return };
        raw.set_read_timeout(Some(Duration::from_millis(2))).unwrap();
        let (tx, rx) = channel();
        self.sh.lock().unwrap().outs.push(tx);
        let mut later: Vec<(Instant, J)> = vec![];
        loop {
            while let Ok(cmd) = rx.try_recv() {
                match cmd {
                    Cmd::Text(x) => { let _ = ws.send(tungstenite::Message::text(x)); }
                    Cmd::Binary(x) => { let _ = ws.send(tungstenite::Message::binary(x)); }
                    Cmd::Close => { let _ = ws.close(None); }
                    Cmd::Drop => { let _ = raw.shutdown(Shutdown::Both); return }
                    Cmd::StopReading(t) => { let t0 = Instant::now(); while t0.elapsed() < Duration::from_millis(t) { if let Ok(Cmd::Text(x)) = rx.try_recv() { let _ = ws.send(tungstenite::Message::text(x)); } ms(1) } }
                }
            }
            let now = Instant::now();
            later.sort_by_key(|x| x.0);
            while later.first().map(|x| x.0 <= now).unwrap_or(false) { let x = later.remove(0).1; let _ = ws.send(tungstenite::Message::text(x.to_string())); }
            match ws.read() {
                Ok(tungstenite::Message::Text(x)) => {
                    let mut s = self.sh.lock().unwrap();
                    s.frames.push(x.to_string());
                    let j: J = serde_json::from_str(&x).unwrap();
                    if j["type"] == "message" { if s.echo { later.push((now, j.clone())) } if let Some(f) = s.answer { for (d, x) in f(&j) { later.push((now + Duration::from_millis(d), x)) } } }
                }
                Ok(_) => (),
                Err(tungstenite::Error::Io(e)) if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut) => (),
                Err(_) => return,
            }
        }
    }
}
pub fn ms(t: u64) { thread::sleep(Duration::from_millis(t)) }

pub enum NoNative {}
impl GetType for NoNative { type Output = u8; fn get_type(&self) -> u8 { match *self {} } }
impl std::fmt::Debug for NoNative { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { match *self {} } }
pub struct EntState;
impl From<EntityKind<'_, '_, C, StdSystem<C>>> for EntState { fn from(_: EntityKind<'_, '_, C, StdSystem<C>>) -> Self { EntState } }
pub struct ProcState;
impl From<ProcessKind<'_, '_, C, StdSystem<C>>> for ProcState { fn from(_: ProcessKind<'_, '_, C, StdSystem<C>>) -> Self { ProcState } }
impl Unwindable for ProcState { type UnwindPoint = (); fn get_unwind_point(&self) {} fn unwind_to(&mut self, _: &()) {} }
pub struct Inter(pub SimpleValue);
impl From<SimpleValue> for Inter { fn from(x: SimpleValue) -> Self { Inter(x) } }
pub struct C;
impl CustomTypes<StdSystem<C>> for C {
    type NativeValue = NoNative;
    type Intermediate = Inter;
    type EntityState = EntState;
    type ProcessState = ProcState;
    fn from_intermediate<'gc>(mc: &Mutation<'gc>, v: Inter) -> Value<'gc, C, StdSystem<C>> { Value::from_simple(mc, v.0) }
}
pub type Sys = StdSystem<C>;
pub type Log = Rc<RefCell<Vec<String>>>;

/// A VM connected to the server; programs log with the system call "log".
pub fn vm(s: &Server, name: &str, cache: Option<Precision>) -> (Rc<Sys>, Arc<Clock>, Log) {
    let clock = Arc::new(Clock::new(UtcOffset::UTC, cache));
    let log: Log = Default::default();
    let l = log.clone();
    let config = Config { command: None, request: Some(Rc::new(move |_: &Mutation<'_>, key: AsyncKey<_>, request, _: &mut netsblox_vm::process::Process<'_, C, Sys>| {
        match &request {
            Request::Syscall { name, args } if name.as_str() == "log" => {
                let row: Vec<String> = args.iter().map(|a| a.to_simple().map(|x| show(&x)).unwrap_or("?".into())).collect();
                l.borrow_mut().push(row.join(" "));
                key.complete(Ok(Inter(SimpleValue::Bool(true))));
                RequestStatus::Handled
            }
            _ => RequestStatus::UseDefault { key, request },
        }
    })) };
    let n = s.sh.lock().unwrap().outs.len();
    let sys = Rc::new(Sys::new_sync(s.url(), Some(name), config, clock.clone()));
    let t = Instant::now();
    while s.sh.lock().unwrap().outs.len() == n && t.elapsed() < Duration::from_secs(3) { ms(2) }
    (sys, clock, log)
}
pub fn show(v: &SimpleValue) -> String {
    match v {
        SimpleValue::Bool(x) => x.to_string(), SimpleValue::Number(x) => x.get().to_string(), SimpleValue::Text(x) => x.to_string(),
        SimpleValue::Image(x) => format!("image({} bytes)", x.content.len()), SimpleValue::Audio(x) => format!("audio({} bytes)", x.content.len()),
        SimpleValue::List(x) => format!("[{}]", x.iter().map(show).collect::<Vec<_>>().join(",")),
    }
}
pub fn vals(v: &[(&str, J)]) -> VecMap<CompactString, J, false> { v.iter().map(|(k, x)| (CompactString::new(k), x.clone())).collect() }
pub fn send(sys: &Sys, ty: &str, v: &[(&str, J)], to: &[&str], wait: bool) -> Option<ExternReplyKey> { sys.send_message(ty.into(), vals(v), to.iter().map(|x| CompactString::new(x)).collect(), wait).ok().unwrap() }
/// The client and project identity of a VM is random; this hides it.
pub fn hide(sys: &Sys, text: &str) -> String { let id = sys.get_public_id(); let c = id.split('@').next_back().unwrap().split('#').next().unwrap().to_string(); text.replace(&c, "CLIENT") }
/// Received messages, printed, until n arrived or the time is up.
pub fn recv(sys: &Sys, n: usize, limit: u64) -> Vec<IncomingMessage> {
    let t = Instant::now();
    let mut v = vec![];
    while v.len() < n && t.elapsed() < Duration::from_millis(limit) { match sys.receive_message() { Some(m) => v.push(m), None => ms(1) } }
    v
}
pub fn print_msg(m: &IncomingMessage) { println!("{} {:?} {:?}", m.msg_type, m.values.iter().map(|(k, v)| format!("{k}={}", show(v))).collect::<Vec<_>>(), m.reply_key.as_ref().map(|k| (k.src_id.to_string(), k.request_id.to_string()))) }
/// Polls a wait until it ends; the result and the time in ms from `t0`.
pub fn wait(sys: &Sys, clock: &Clock, k: &ExternReplyKey, limit: u64) -> Option<Option<J>> {
    let t = Instant::now();
    while t.elapsed() < Duration::from_millis(limit) { clock.update(); match sys.poll_reply(k) { AsyncResult::Completed(x) => return Some(x), AsyncResult::Pending => ms(2), AsyncResult::Consumed => panic!() } }
    None
}
#[derive(Collect)]
#[collect(no_drop)]
struct Env<'gc> { proj: Project<'gc, C, Sys> }
type EnvArena = Arena<Rootable![Env<'_>]>;
/// Runs a project for a while, calling `tick` with the elapsed milliseconds between bursts of steps.
pub fn project(sys: Rc<Sys>, clock: &Clock, prog: &str, soft: bool, limit: u64, mut tick: impl FnMut(u64) -> bool) {
    let mut p: crate::ir::Prog = serde_json::from_str(prog).unwrap();
    crate::ir::renumber(&mut p);
    let (bc, init, _, _) = ByteCode::compile(&crate::ir::lower(&p)).unwrap();
    let scheme = if soft { ErrorScheme::Soft } else { ErrorScheme::Hard };
    let settings = Settings { rpc_error_scheme: scheme, syscall_error_scheme: scheme, ..Default::default() };
    let mut arena = EnvArena::new(|mc| Env { proj: Project::from_init(mc, &init, Rc::new(bc), settings, sys) });
    arena.mutate_root(|mc, e| e.proj.input(mc, Input::Start));
    let t = Instant::now();
    while t.elapsed() < Duration::from_millis(limit) {
        for _ in 0..200 { clock.update(); arena.mutate_root(|mc, e| { if let ProjectStep::Error { error, .. } = e.proj.step(mc) { println!("error {:?}", error.cause) } }) }
        if tick(t.elapsed().as_millis() as u64) { break }
        ms(1);
    }
}
