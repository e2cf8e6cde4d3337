//! The front end in a child process: as web server, in a pipe, or at a terminal.
use std::fs::File;
use std::io::{Read, Write};
use std::net::{Shutdown, TcpListener, TcpStream};
use std::os::fd::FromRawFd;
use std::process::{Child, Command, Stdio};
use std::sync::{Arc, Mutex};
use std::thread;
use std::time::{Duration, Instant};
use netsblox_vm::cli::{run, Mode};
use netsblox_vm::gc::*;
use netsblox_vm::runtime::*;
use netsblox_vm::process::Process;
use netsblox_vm::std_system::StdSystem;
pub use serde_json::{json, Value as J};

pub enum NoNative {}
impl GetType for NoNative { type Output = u8; fn get_type(&self) -> u8 { match *self {} } }
impl std::fmt::Debug for NoNative { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { match *self {} } }
pub struct EntState;
impl From<EntityKind<'_, '_, C, StdSystem<C>>> for EntState { fn from(_: EntityKind<'_, '_, C, StdSystem<C>>) -> Self { EntState } }
pub struct ProcState;
impl From<ProcessKind<'_, '_, C, StdSystem<C>>> for ProcState { fn from(_: ProcessKind<'_, '_, C, StdSystem<C>>) -> Self { ProcState } }
impl Unwindable for ProcState { type UnwindPoint = (); fn get_unwind_point(&self) {} fn unwind_to(&mut self, _: &()) {} }
pub struct Inter(pub SimpleValue);
impl From<SimpleValue> for Inter { fn from(x: SimpleValue) -> Self { Inter(x) } }
pub struct C;
impl CustomTypes<StdSystem<C>> for C {
    type NativeValue = NoNative;
    type Intermediate = Inter;
    type EntityState = EntState;
    type ProcessState = ProcState;
    fn from_intermediate<'gc>(mc: &Mutation<'gc>, v: Inter) -> Value<'gc, C, StdSystem<C>> { Value::from_simple(mc, v.0) }
}
pub fn child(a: &[String]) {
    let mode = match a[0].as_str() {
        "start" => Mode::Start { server: a[1].as_str().into(), addr: "127.0.0.1".into(), port: a[2].parse().unwrap() },
        "dump" => Mode::Dump { src: a[1].as_str().into(), role: a.get(2).map(|x| x.as_str().into()) },
        _ => Mode::Run { src: a[2].as_str().into(), role: a.get(3).map(|x| x.as_str().into()), server: a[1].as_str().into() },
    };
    run::<C>(mode, Config { request: None, command: None }, &[])
}
pub fn ms(t: u64) { thread::sleep(Duration::from_millis(t)) }
/// What the front end asks the NetsBlox server when it starts.
pub fn netsblox() -> String {
    let l = TcpListener::bind("127.0.0.1:0").unwrap();
    let url = format!("http://127.0.0.1:{}", l.local_addr().unwrap().port());
    let u = url.clone();
    thread::spawn(move || for c in l.incoming() { if let Ok(c) = c { let u = u.clone(); thread::spawn(move || serve(c, u)); } });
    url
}
fn serve(mut c: TcpStream, url: String) {
    let mut head = vec![0u8; 16384];
    let n = loop { let n = match c.peek(&mut head) { Ok(0) | Err(_) => return, Ok(n) => n }; if head[..n].windows(4).any(|w| w == b"\r\n\r\n") { break n } ms(1) };
    let text = String::from_utf8_lossy(&head[..n]).to_string();
    if text.to_lowercase().contains("upgrade: websocket") { let Ok(mut ws) = tungstenite::accept(c) else { return }; while ws.read().is_ok() {} return }
    let end = text.find("\r\n\r\n").unwrap() + 4;
    let len: usize = text.lines().find_map(|l| l.to_lowercase().strip_prefix("content-length:").map(|x| x.trim().parse().unwrap())).unwrap_or(0);
    let mut all = vec![0u8; end + len];
    if c.read_exact(&mut all).is_err() { return }
    let path = text.split(' ').nth(1).unwrap_or("").trim_start_matches('/').to_string();
    let body = if path == "configuration" { json!({ "servicesHosts": [{ "url": url }] }) } else if path.starts_with("projects/") { json!({ "id": "pid", "roles": { "r1": { "name": "myRole" } } }) } else { json!("OK") }.to_string();
    let _ = c.write_all(format!("HTTP/1.1 200 OK\r\nContent-Type: application/json\r\nContent-Length: {}\r\nConnection: close\r\n\r\n{body}", body.len()).as_bytes());
    let _ = c.shutdown(Shutdown::Both);
}
fn gather(mut from: impl Read + Send + 'static) -> Arc<Mutex<Vec<u8>>> {
    let v: Arc<Mutex<Vec<u8>>> = Default::default();
    let w = v.clone();
    thread::spawn(move || { let mut b = [0; 65536]; loop { match from.read(&mut b) { Ok(0) | Err(_) => break, Ok(n) => w.lock().unwrap().extend_from_slice(&b[..n]) } } });
    v
}
pub fn text(v: &Arc<Mutex<Vec<u8>>>) -> String { String::from_utf8_lossy(&v.lock().unwrap()).to_string() }
/// Waits until something is the case, at most so many milliseconds; whether it came to be.
pub fn until(limit: u64, mut f: impl FnMut() -> bool) -> bool { let t = Instant::now(); loop { if f() { return true } if t.elapsed() > Duration::from_millis(limit) { return false } ms(2) } }

pub struct Web { child: Child, port: u16, pub out: Arc<Mutex<Vec<u8>>> }
impl Drop for Web { fn drop(&mut self) { let _ = self.child.kill(); let _ = self.child.wait(); } }
impl Web {
    pub fn new() -> Self {
        let url = netsblox();
        let port = TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap().port();
        let mut child = Command::new(std::env::current_exe().unwrap()).args(["child", "start", &url, &port.to_string()]).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap();
        let out = gather(child.stdout.take().unwrap());
        let w = Web { child, port, out };
        if !until(20_000, || w.http("GET", "/project", b"").0 == 200) { println!("the server did not start") }
        w
    }
    pub fn http(&self, method: &str, path: &str, body: &[u8]) -> (u16, Vec<u8>) {
        let Some(mut c) = TcpStream::connect(("127.0.0.1", self.port)).or_else(|_| TcpStream::connect(("::1", self.port))).ok() else { return (0, vec![]) };
        c.set_nodelay(true).unwrap();
        let _ = c.set_read_timeout(Some(Duration::from_secs(20)));
        let mut q = format!("{method} {path} HTTP/1.1\r\nHost: localhost\r\nContent-Length: {}\r\nConnection: close\r\n\r\n", body.len()).into_bytes();
        q.extend_from_slice(body);
        if c.write_all(&q).is_err() { return (1, vec![]) }
        let mut r = vec![];
        let _ = c.read_to_end(&mut r);
        let Some(i) = r.windows(4).position(|w| w == b"\r\n\r\n") else { return (2, vec![]) };
        let code = String::from_utf8_lossy(&r[..i]).split(' ').nth(1).and_then(|x| x.parse().ok()).unwrap_or(3);
        (code, r[i + 4..].to_vec())
    }
    pub fn pull(&self) -> J { serde_json::from_slice(&self.http("POST", "/pull", b"").1).unwrap() }
    pub fn upload(&self, x: &str) { assert_eq!(self.http("POST", "/project", x.as_bytes()).0, 200) }
    pub fn input(&self, x: &str) { assert_eq!(self.http("POST", "/input", x.as_bytes()).0, 200) }
    pub fn toggle(&self) { assert_eq!(self.http("POST", "/toggle-paused", b"").0, 200) }
    pub fn project(&self) -> String { String::from_utf8(self.http("GET", "/project", b"").1).unwrap() }
}
fn write(xml: &[u8]) -> String { let p = std::env::current_exe().unwrap().parent().unwrap().join("project.xml").to_str().unwrap().to_string(); std::fs::write(&p, xml).unwrap(); p }
/// Runs the front end in a pipe for at most so long: the exit code (or none), what it prints, and its messages.
pub fn plain(mode: &str, xml: Option<&[u8]>, role: Option<&str>, limit: u64) -> (Option<i32>, String, String) {
    let url = netsblox();
    let file = xml.map(write).unwrap_or("/nonexistent/project.xml".into());
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.args(["child", mode]);
    if mode == "run" { c.arg(&url); }
    c.arg(&file);
    if let Some(r) = role { c.arg(r); }
    let mut child = c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().unwrap();
    let (o, e) = (gather(child.stdout.take().unwrap()), gather(child.stderr.take().unwrap()));
    let mut code = None;
    until(limit, || { if let Ok(Some(x)) = child.try_wait() { code = x.code(); true } else { false } });
    let _ = child.kill();
    let _ = child.wait();
    ms(50);
    (code, text(&o), text(&e))
}
/// The lines of an output that come from the project.
pub fn said(out: &str) -> Vec<String> { out.lines().filter(|l| l.contains(" > ") && !l.contains(">>>") || l.contains("error")).map(|l| plainly(l)).collect() }
/// Text without terminal controls.
pub fn plainly(s: &str) -> String {
    let mut o = String::new();
    let mut i = s.chars().peekable();
    while let Some(c) = i.next() {
        if c == '\x1b' { match i.next() { Some('[') => { while let Some(c) = i.next() { if c.is_ascii_alphabetic() { break } } } _ => () } }
        else if c != '\r' { o.push(c) }
    }
    o
}
pub struct Tty { child: Child, keys: File, pub out: Arc<Mutex<Vec<u8>>> }
impl Drop for Tty { fn drop(&mut self) { let _ = self.child.kill(); let _ = self.child.wait(); } }
impl Tty {
    pub fn new(xml: &str) -> Self {
        use std::os::unix::process::CommandExt;
        let url = netsblox();
        let file = write(xml.as_bytes());
        let (mut m, mut s) = (0, 0);
        let size = libc::winsize { ws_row: 24, ws_col: 80, ws_xpixel: 0, ws_ypixel: 0 };
        assert_eq!(unsafe { libc::openpty(&mut m, &mut s, std::ptr::null_mut(), std::ptr::null_mut(), &size as *const _ as *mut _) }, 0);
        let io = |fd| unsafe { Stdio::from(File::from_raw_fd(libc::dup(fd))) };
        let mut c = Command::new(std::env::current_exe().unwrap());
        c.args(["child", "run", &url, &file]).stdin(io(s)).stdout(io(s)).stderr(Stdio::null());
        unsafe { c.pre_exec(|| { libc::setsid(); libc::ioctl(0, libc::TIOCSCTTY as _, 0); Ok(()) }); }
        let child = c.spawn().unwrap();
        unsafe { libc::close(s) };
        let keys = unsafe { File::from_raw_fd(m) };
        let t = Tty { child, out: gather(keys.try_clone().unwrap()), keys };
        if !until(20_000, || text(&t.out).contains("public id")) { println!("the program did not start") }
        t
    }
    /// Presses keys one after the other, with time between them.
    pub fn keys(&mut self, k: &[&str]) { for x in k { self.keys.write_all(x.as_bytes()).unwrap(); ms(60) } }
    pub fn resize(&self, w: u16, h: u16) { use std::os::fd::AsRawFd; let size = libc::winsize { ws_row: h, ws_col: w, ws_xpixel: 0, ws_ypixel: 0 }; unsafe { libc::ioctl(self.keys.as_raw_fd(), libc::TIOCSWINSZ as _, &size); } ms(60) }
    /// What stands in the last row, as last drawn.
    pub fn bottom(&self) -> String { let t = text(&self.out); match t.rfind("\x1b[2K") { Some(i) => plainly(t[i..].split("\x1b8").next().unwrap()), None => "never drawn".into() } }
    pub fn said(&self) -> Vec<String> { let t = text(&self.out); let mut v = vec![]; for l in t.split("\r\n") { let l = l.rsplit("\x1b8").next().unwrap(); v.extend(said(l)) } v }
    pub fn code(&mut self, limit: u64) -> Option<i32> { let mut c = None; until(limit, || { if let Ok(Some(x)) = self.child.try_wait() { c = x.code(); true } else { false } }); c }
}
