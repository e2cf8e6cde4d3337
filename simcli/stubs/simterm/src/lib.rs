//! The simulated process surroundings: standard streams, a terminal with its events, files, the end of the process,
//! and the requests that arrive at its web server. One process per simulation.
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, VecDeque};
use std::fmt::Arguments;
use std::future::Future;
use std::io::{self, Read, Write};
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};
use simcore::{now, preempt};

#[derive(Clone, Debug, PartialEq)]
pub enum Key { Char(char), Enter, Backspace, Esc, Up, Down, Left, Right, Tab, Other(u8) }
#[derive(Clone, Debug, PartialEq)]
pub enum Ev { Key { key: Key, ctrl: bool, shift: bool, alt: bool, kind: u8 }, Resize(u16, u16), Focus(bool), Paste(String), Mouse }
/// A request to the web server of the process, and what became of it.
#[derive(Clone, Debug)]
pub struct Req { pub id: usize, pub method: &'static str, pub path: String, pub headers: Vec<(String, String)>, pub body: Vec<u8> }
#[derive(Clone, Debug)]
pub struct Resp { pub status: u16, pub headers: Vec<(String, String)>, pub body: Vec<u8> }
#[derive(Clone, Debug)]
pub struct Handled { pub id: usize, pub t0: u64, pub t1: u64, pub n0: u64, pub n1: u64, pub resp: Resp }
/// What the process did to the world, in order; `n` numbers all of it.
#[derive(Clone, Debug)]
pub enum Done { Out(String), Err(String), Raw(bool), Read(Ev), Exit(i32), Bound(String, u16, usize) }
#[derive(Default)]
pub struct Term {
    pub tty: bool, pub raw: bool, pub size: (u16, u16), pub events: VecDeque<Ev>, pub files: BTreeMap<String, Result<Vec<u8>, u8>>, pub busy_ports: Vec<u16>,
    pub log: Vec<(u64, u64, Done)>, pub n: u64, pub exit: Option<(u64, i32)>, pub handled: Vec<Handled>, pub full: bool,
    pub args: Vec<String>, pub fs: Vec<(u64, u64, Fs)>, pub fs_short: u64, pub held: Vec<String>, pub fs_ops: u64, pub fs_faults: BTreeMap<u64, u8>, pub cap: Option<usize>, pub fds: usize,
    pub queue: VecDeque<Req>, pub wakers: Vec<Waker>, pub servers: usize,
}
thread_local! { static T: RefCell<Term> = RefCell::new(Term::default()); static SINK: RefCell<Option<Rc<dyn Fn(Handled)>>> = const { RefCell::new(None) }; static HOOK: RefCell<Option<Hook>> = const { RefCell::new(None) }; static PANICS: Cell<u32> = const { Cell::new(0) }; }
type Hook = Box<dyn Fn(&std::panic::PanicHookInfo<'_>) + Sync + Send + 'static>;
pub fn term<R>(f: impl FnOnce(&mut Term) -> R) -> R { T.with(|t| f(&mut t.borrow_mut())) }
pub fn reset(t: Term) { T.with(|x| { let old = std::mem::replace(&mut *x.borrow_mut(), t); drop(old) }); HOOK.with(|h| { let h = h.borrow_mut().take(); drop(h) }) }
/// The next number in the order of everything that happens in the process.
pub fn tick() -> u64 { term(|t| { t.n += 1; t.n }) }
pub fn log(d: Done) { term(|t| { t.n += 1; let n = t.n; t.log.push((now(), n, d)) }) }

// ---------------------------------------------------------------- streams
thread_local! { static BUF: RefCell<String> = const { RefCell::new(String::new()) }; }
/// Like the real standard output, which goes out by lines, when flushed, when much has gathered and when the process ends.
fn out(s: String) {
    let (now, rest) = match s.rfind('\n') { Some(i) => { let r = s[i + 1..].to_string(); let mut s = s; s.truncate(i + 1); (Some(s), r) } None => (None, s) };
    if let Some(x) = now { flush_out(); log(Done::Out(x)) }
    if rest.is_empty() { return }
    if term(|t| { t.held.push(rest); t.held.iter().map(|x| x.len()).sum::<usize>() }) > 1024 { flush_out() }
}
pub fn flush_out() { for x in term(|t| std::mem::take(&mut t.held)) { log(Done::Out(x)) } }
pub fn put_out(a: Arguments<'_>) { preempt(); out(a.to_string()); preempt() }
pub fn put_out_line(a: Arguments<'_>) { preempt(); out(format!("{a}\n")); preempt() }
pub fn put_err(a: Arguments<'_>) { preempt(); log(Done::Err(a.to_string())); preempt() }
pub fn put_err_line(a: Arguments<'_>) { preempt(); log(Done::Err(format!("{a}\n"))); preempt() }
pub trait IsTerminal { fn is_terminal(&self) -> bool; }
macro_rules! stream { ($n:ident, $l:ident, $f:ident, $w:ident, $fl:ident) => {
    #[derive(Debug)] pub struct $n(());
    #[derive(Debug)] pub struct $l<'a>(std::marker::PhantomData<&'a ()>);
    pub fn $f() -> $n { $n(()) }
    impl $n { pub fn lock(&self) -> $l<'static> { $l(std::marker::PhantomData) } }
    impl Write for $n { fn write(&mut self, b: &[u8]) -> io::Result<usize> { $w(String::from_utf8_lossy(b).into_owned()); Ok(b.len()) } fn flush(&mut self) -> io::Result<()> { $fl(); preempt(); Ok(()) } }
    impl Write for $l<'_> { fn write(&mut self, b: &[u8]) -> io::Result<usize> { $w(String::from_utf8_lossy(b).into_owned()); Ok(b.len()) } fn flush(&mut self) -> io::Result<()> { $fl(); Ok(()) } }
    impl IsTerminal for $n { fn is_terminal(&self) -> bool { term(|t| t.tty) } }
    impl IsTerminal for $l<'_> { fn is_terminal(&self) -> bool { term(|t| t.tty) } }
} }
fn err(s: String) { log(Done::Err(s)) }
fn none() {}
stream!(Stdout, StdoutLock, stdout, out, flush_out);
stream!(Stderr, StderrLock, stderr, err, none);
#[derive(Debug)] pub struct Stdin(());
pub fn stdin() -> Stdin { Stdin(()) }
impl Read for Stdin { fn read(&mut self, _: &mut [u8]) -> io::Result<usize> { Ok(0) } }
impl IsTerminal for Stdin { fn is_terminal(&self) -> bool { term(|t| t.tty) } }

// ---------------------------------------------------------------- files
/// What is done to files: `n` is the place in the order of everything.
#[derive(Clone, Debug)]
pub enum Fs { Open { fd: usize, path: String, how: &'static str, before: Option<usize>, after: Option<usize>, err: bool }, Write { fd: usize, at: usize, size: usize, data: Vec<u8> }, Read { fd: usize, data: Vec<u8> }, Fail { fd: usize, kind: u8 }, Close { fd: usize } }
/// The kinds of failure that can be ordered for an operation: interrupted (which is to be tried again), a broken disk, no more room, no permission.
fn failure(k: u8) -> io::Error { match k { 0 => io::Error::from(io::ErrorKind::Interrupted), 1 => io::Error::other("disk error"), 2 => io::Error::from(io::ErrorKind::StorageFull), _ => io::Error::from(io::ErrorKind::PermissionDenied) } }
fn fs(e: Fs) { term(|t| { t.n += 1; let n = t.n; t.fs.push((now(), n, e)) }) }
fn next(fd: usize) -> Option<io::Error> { let k = term(|t| { t.fs_ops += 1; let n = t.fs_ops; t.fs_faults.get(&n).copied() })?; fs(Fs::Fail { fd, kind: k }); Some(failure(k)) }
#[derive(Debug)] pub struct File { fd: usize, name: String, pos: usize, r: bool, w: bool, a: bool, bad: bool }
/// What stands behind a `#` in a name only tells openings of the same file apart.
fn name_of(p: &std::path::Path) -> String { p.to_string_lossy().split('#').next().unwrap_or("").to_string() }
#[derive(Clone, Debug, Default)] pub struct OpenOptions { r: bool, w: bool, a: bool, t: bool, c: bool, n: bool }
impl OpenOptions {
    pub fn new() -> Self { Self::default() }
    pub fn read(&mut self, x: bool) -> &mut Self { self.r = x; self }
    pub fn write(&mut self, x: bool) -> &mut Self { self.w = x; self }
    pub fn append(&mut self, x: bool) -> &mut Self { self.a = x; self }
    pub fn truncate(&mut self, x: bool) -> &mut Self { self.t = x; self }
    pub fn create(&mut self, x: bool) -> &mut Self { self.c = x; self }
    pub fn create_new(&mut self, x: bool) -> &mut Self { self.n = x; self }
    pub fn open(&self, p: impl AsRef<std::path::Path>) -> io::Result<File> {
        preempt();
        let path = p.as_ref().to_string_lossy().into_owned();
        let name = name_of(p.as_ref());
        let fd = term(|t| { t.fds += 1; t.fds });
        let how = match (self.r, self.w || self.a, self.a, self.t) { (true, false, ..) => "r", (false, true, false, true) => "w", (false, true, true, false) => "a", _ => "other" };
        let size = || term(|t| t.files.get(&name).map(|f| f.as_ref().map(|b| b.len()).unwrap_or(5)));
        let before = size();
        let r = self.go(&name, fd, before.is_some());
        let after = size();
        fs(Fs::Open { fd, path, how, before, after, err: r.is_err() });
        r
    }
    fn go(&self, name: &str, fd: usize, there: bool) -> io::Result<File> {
        if !self.r && !self.w && !self.a || (self.c || self.t || self.n) && !self.w && !self.a || self.a && self.t { return Err(io::Error::from(io::ErrorKind::InvalidInput)) }
        if name != "project.xml" { if let Some(e) = next(fd) { return Err(e) } }
        if there && self.n { return Err(io::Error::from(io::ErrorKind::AlreadyExists)) }
        if !there && !self.c && !self.n || name.is_empty() { return Err(io::Error::from(io::ErrorKind::NotFound)) }
        if let Some(Err(0)) = term(|t| t.files.get(name).cloned()) { return Err(io::Error::from(io::ErrorKind::PermissionDenied)) }
        let bad = term(|t| { let f = t.files.entry(name.to_string()).or_insert_with(|| Ok(vec![])); if self.t { *f = Ok(vec![]) } f.is_err() });
        Ok(File { fd, name: name.into(), pos: 0, r: self.r, w: self.w || self.a, a: self.a, bad })
    }
}
impl File {
    pub fn open(p: impl AsRef<std::path::Path>) -> io::Result<File> { OpenOptions::new().read(true).open(p) }
    pub fn create(p: impl AsRef<std::path::Path>) -> io::Result<File> { OpenOptions::new().write(true).create(true).truncate(true).open(p) }
    pub fn options() -> OpenOptions { OpenOptions::new() }
    pub fn sync_all(&self) -> io::Result<()> { preempt(); Ok(()) }
    pub fn sync_data(&self) -> io::Result<()> { preempt(); Ok(()) }
}
impl Read for File {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        preempt();
        if !self.r { return Err(io::Error::from(io::ErrorKind::PermissionDenied)) }
        if self.name != "project.xml" { if let Some(e) = next(self.fd) { return Err(e) } }
        let n = b.len().min([1, 1 + 7, 4097, 8193][simcore::choose(4)]);
        let data: Vec<u8> = term(|t| match t.files.get(&self.name) { Some(Ok(f)) => f.iter().skip(self.pos).take(n).copied().collect(), Some(Err(_)) => b"<room".iter().skip(self.pos).take(n).copied().collect(), None => vec![] });
        if data.is_empty() && self.bad && !b.is_empty() { return Err(failure(1)) }
        if n < b.len() && data.len() == n { term(|t| t.fs_short += 1) }
        b[..data.len()].copy_from_slice(&data);
        self.pos += data.len();
        let k = data.len();
        fs(Fs::Read { fd: self.fd, data });
        Ok(k)
    }
}
impl Write for File {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        preempt();
        if !self.w { return Err(io::Error::from(io::ErrorKind::PermissionDenied)) }
        if let Some(e) = next(self.fd) { return Err(e) }
        let (used, cap) = term(|t| (t.files.iter().filter(|f| f.0 != "project.xml").filter_map(|f| f.1.as_ref().ok().map(|b| b.len())).sum::<usize>(), t.cap));
        let room = cap.map(|c| c.saturating_sub(used)).unwrap_or(usize::MAX);
        let mut k = b.len().min([usize::MAX, 1, b.len() / 2 + 1][simcore::choose(3)]);
        if k > room { k = room; if k == 0 && !b.is_empty() { fs(Fs::Fail { fd: self.fd, kind: 2 }); return Err(failure(2)) } }
        if k < b.len() { term(|t| t.fs_short += 1) }
        let (at, size) = term(|t| { let f = t.files.entry(self.name.clone()).or_insert_with(|| Ok(vec![])); let Ok(f) = f else { return (0, 0) }; let size = f.len(); let at = if self.a { size } else { self.pos }; if f.len() < at + k { f.resize(at + k, 0) } f[at..at + k].copy_from_slice(&b[..k]); (at, size) });
        self.pos = at + k;
        fs(Fs::Write { fd: self.fd, at, size, data: b[..k].to_vec() });
        Ok(k)
    }
    fn flush(&mut self) -> io::Result<()> { preempt(); Ok(()) }
}
impl io::Seek for File {
    fn seek(&mut self, to: io::SeekFrom) -> io::Result<u64> {
        preempt();
        let size = self.metadata()?.len() as i64;
        let p = match to { io::SeekFrom::Start(x) => x as i64, io::SeekFrom::End(x) => size + x, io::SeekFrom::Current(x) => self.pos as i64 + x };
        if p < 0 { return Err(io::Error::from(io::ErrorKind::InvalidInput)) }
        self.pos = p as usize;
        Ok(p as u64)
    }
}
#[derive(Clone, Debug)] pub struct Metadata(u64);
impl Metadata { pub fn len(&self) -> u64 { self.0 } pub fn is_file(&self) -> bool { true } pub fn is_dir(&self) -> bool { false } }
impl File {
    pub fn metadata(&self) -> io::Result<Metadata> { preempt(); Ok(Metadata(term(|t| match t.files.get(&self.name) { Some(Ok(f)) => f.len() as u64, _ => 0 }))) }
    pub fn set_len(&self, n: u64) -> io::Result<()> {
        preempt();
        if !self.w { return Err(io::Error::from(io::ErrorKind::InvalidInput)) }
        term(|t| if let Some(Ok(f)) = t.files.get_mut(&self.name) { f.resize(n as usize, 0) });
        Ok(())
    }
}
pub fn metadata(p: impl AsRef<std::path::Path>) -> io::Result<Metadata> { preempt(); match term(|t| t.files.get(&name_of(p.as_ref())).map(|f| f.as_ref().map(|b| b.len() as u64).unwrap_or(5))) { Some(n) => Ok(Metadata(n)), None => Err(io::Error::from(io::ErrorKind::NotFound)) } }
impl Drop for File { fn drop(&mut self) { fs(Fs::Close { fd: self.fd }) } }
pub fn read(p: impl AsRef<std::path::Path>) -> io::Result<Vec<u8>> { let mut v = vec![]; File::open(p)?.read_to_end(&mut v)?; Ok(v) }
pub fn read_to_string(p: impl AsRef<std::path::Path>) -> io::Result<String> { let mut v = String::new(); File::open(p)?.read_to_string(&mut v)?; Ok(v) }
pub fn write(p: impl AsRef<std::path::Path>, b: impl AsRef<[u8]>) -> io::Result<()> { File::create(p)?.write_all(b.as_ref()) }
pub fn remove_file(p: impl AsRef<std::path::Path>) -> io::Result<()> { preempt(); match term(|t| t.files.remove(&name_of(p.as_ref()))) { Some(_) => Ok(()), None => Err(io::Error::from(io::ErrorKind::NotFound)) } }
pub fn exists(p: impl AsRef<std::path::Path>) -> io::Result<bool> { preempt(); Ok(term(|t| t.files.contains_key(&name_of(p.as_ref())))) }

// ---------------------------------------------------------------- the end
pub fn exit(code: i32) -> ! {
    flush_out();
    log(Done::Exit(code));
    term(|t| if t.exit.is_none() { t.exit = Some((now(), code)) });
    simcore::kill_group(simcore::group());
    loop { simcore::block("the process has ended") }
}
pub fn abort() -> ! { exit(134) }
pub fn set_hook(h: Hook) { HOOK.with(|x| { let old = x.borrow_mut().replace(h); drop(old) }) }
pub fn take_hook() -> Hook { HOOK.with(|x| x.borrow_mut().take()).unwrap_or_else(|| Box::new(|_| PANICS.with(|p| p.set(p.get() + 1)))) }

// ---------------------------------------------------------------- the web server
pub fn deliver(r: Req) { let w = term(|t| { t.queue.push_back(r); std::mem::take(&mut t.wakers) }); for w in w { w.wake() } }
pub struct NextReq;
impl Future for NextReq {
    type Output = Req;
    fn poll(self: Pin<&mut Self>, c: &mut Context<'_>) -> Poll<Req> { term(|t| match t.queue.pop_front() { Some(r) => Poll::Ready(r), None => { t.wakers.push(c.waker().clone()); Poll::Pending } }) }
}
pub fn set_sink(f: Option<Rc<dyn Fn(Handled)>>) { SINK.with(|s| { let old = std::mem::replace(&mut *s.borrow_mut(), f); drop(old) }) }
pub fn answered(h: Handled) { term(|t| t.handled.push(h.clone())); let s = SINK.with(|s| s.borrow().clone()); if let Some(s) = s { s(h) } }
