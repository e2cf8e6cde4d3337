//! A small asynchronous runtime on simulated threads: what `tokio` does, with every choice made by the simulator.
use std::cell::{Cell, RefCell};
use std::collections::VecDeque;
use std::future::Future;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
use std::time::Duration;
use crate::*;

/// Asserts that a value never leaves the one real thread.
pub struct Local<T>(pub T);
unsafe impl<T> Send for Local<T> {}
unsafe impl<T> Sync for Local<T> {}

pub struct Task { fut: RefCell<Option<Pin<Box<dyn Future<Output = ()>>>>>, queued: Cell<bool>, rt: Rc<Rt>, running: Cell<bool>, again: Cell<bool>, done: Cell<bool> }
struct TaskWaker(Local<Rc<Task>>);
impl Wake for TaskWaker { fn wake(self: Arc<Self>) { Task::enqueue(&self.0.0) } }
impl Task {
    fn enqueue(t: &Rc<Task>) {
        if t.done.get() || t.rt.closed.get() { return }
        if t.running.get() { t.again.set(true); return }
        if !t.queued.replace(true) { t.rt.queue.borrow_mut().push_back(t.clone()); t.rt.wake_one() }
    }
    fn run(t: &Rc<Task>) {
        let Some(mut f) = t.fut.borrow_mut().take() else { return };
        t.running.set(true);
        let w = Waker::from(Arc::new(TaskWaker(Local(t.clone()))));
        let r = catch_unwind(AssertUnwindSafe(|| f.as_mut().poll(&mut Context::from_waker(&w))));
        t.running.set(false);
        match r {
            Ok(Poll::Pending) => { *t.fut.borrow_mut() = Some(f); if t.again.replace(false) { Task::enqueue(t) } }
            Ok(Poll::Ready(())) => { t.done.set(true); drop(f) }
            Err(e) => {
                t.done.set(true);
                if e.is::<Cancel>() { std::mem::forget(f); resume_unwind(e) }
                record_panic("task");
                drop(f);
            }
        }
    }
}
pub struct Rt { queue: RefCell<VecDeque<Rc<Task>>>, all: RefCell<Vec<std::rc::Weak<Task>>>, workers: RefCell<Vec<Tid>>, closed: Cell<bool>, local: bool }
impl Rt {
    fn wake_one(&self) { for t in self.workers.borrow().iter() { wake(*t) } }
    fn next(&self) -> Option<Rc<Task>> {
        let n = self.queue.borrow().len();
        if n == 0 { return None }
        let i = if n > 1 { choose(n.min(4)) } else { 0 };
        let t = self.queue.borrow_mut().remove(i).unwrap();
        t.queued.set(false);
        Some(t)
    }
    fn worker(self: &Rc<Self>) {
        let _e = Enter::new(self.clone());
        loop {
            if self.closed.get() { break }
            match self.next() { Some(t) => { preempt(); Task::run(&t) } None => block("worker") }
        }
    }
    fn close(&self) {
        self.closed.set(true);
        let q = std::mem::take(&mut *self.queue.borrow_mut());
        drop(q);
        let all = std::mem::take(&mut *self.all.borrow_mut());
        for t in all { if let Some(t) = t.upgrade() { t.done.set(true); let f = t.fut.borrow_mut().take(); drop(f) } }
        self.wake_one();
    }
}
thread_local! { static ENTERED: RefCell<std::collections::BTreeMap<Tid, Vec<Rc<Rt>>>> = const { RefCell::new(std::collections::BTreeMap::new()) }; }
struct Enter(Tid);
impl Enter { fn new(r: Rc<Rt>) -> Self { let m = me(); ENTERED.with(|e| e.borrow_mut().entry(m).or_default().push(r)); Enter(m) } }
impl Drop for Enter { fn drop(&mut self) { let r = ENTERED.with(|e| { let mut e = e.borrow_mut(); let v = e.get_mut(&self.0).unwrap(); let r = v.pop(); if v.is_empty() { e.remove(&self.0); } r }); drop(r) } }
fn here() -> Rc<Rt> { let m = me(); ENTERED.with(|e| e.borrow().get(&m).and_then(|v| v.last().cloned())).expect("there is no reactor running, must be called from the context of a Tokio 1.x runtime") }
pub fn entered() -> bool { let m = me(); ENTERED.with(|e| e.borrow().contains_key(&m)) }

struct FlagWaker { set: Local<Cell<bool>>, t: Tid }
impl Wake for FlagWaker { fn wake(self: Arc<Self>) { self.set.0.set(true); wake(self.t) } }

/// A runtime: spawned tasks run on `workers` threads, or only during `block_on` when there are none.
pub struct Runtime(Rc<Rt>);
unsafe impl Send for Runtime {}
unsafe impl Sync for Runtime {}
#[derive(Clone)]
pub struct Handle(Rc<Rt>);
unsafe impl Send for Handle {}
unsafe impl Sync for Handle {}
impl Handle {
    pub fn current() -> Self { Handle(here()) }
    pub fn try_current() -> Option<Self> { if entered() { Some(Handle(here())) } else { None } }
    pub fn spawn<F>(&self, f: F) -> JoinHandle<F::Output> where F: Future + 'static, F::Output: 'static { spawn_on(self.0.clone(), f) }
    pub fn block_on<F: Future>(&self, f: F) -> F::Output { run_on(&self.0, f) }
    pub fn enter(&self) -> Entered { Entered(Enter::new(self.0.clone())) }
}
pub struct Entered(#[allow(dead_code)] Enter);
impl Runtime {
    pub fn new(workers: usize) -> Self {
        let rt = Rc::new(Rt { queue: Default::default(), all: Default::default(), workers: Default::default(), closed: Cell::new(false), local: workers == 0 });
        for _ in 0..workers { let r = rt.clone(); let t = crate::spawn("runtime worker", move || r.worker()); rt.workers.borrow_mut().push(t) }
        Runtime(rt)
    }
    pub fn handle(&self) -> Handle { Handle(self.0.clone()) }
    pub fn block_on<F: Future>(&self, f: F) -> F::Output { run_on(&self.0, f) }
    pub fn background(self) { self.0.close() }
}
impl Drop for Runtime {
    fn drop(&mut self) {
        self.0.close();
        if !self.0.local { let ws = self.0.workers.borrow().clone(); for w in ws { while !finished(w) && !unwinding() { let m = me(); k_join(w, m); block("runtime shutdown") } } }
    }
}
/// Runs a future on the calling thread, without any runtime.
pub fn wait_for<F: Future>(f: F) -> F::Output {
    let flag = Arc::new(FlagWaker { set: Local(Cell::new(true)), t: me() });
    let w = Waker::from(flag.clone());
    let mut f = Box::pin(f);
    loop {
        if flag.set.0.replace(false) {
            preempt();
            if let Poll::Ready(x) = f.as_mut().poll(&mut Context::from_waker(&w)) { return x }
        } else { block("blocking wait") }
    }
}
fn run_on<F: Future>(rt: &Rc<Rt>, f: F) -> F::Output {
    if entered() { panic!("Cannot start a runtime from within a runtime. This happens because a function (like `block_on`) attempted to block the current thread while the thread is being used to drive asynchronous tasks.") }
    if rt.local { rt.workers.borrow_mut().push(me()) }
    struct Leave(Rc<Rt>);
    impl Drop for Leave { fn drop(&mut self) { if self.0.local { let m = me(); self.0.workers.borrow_mut().retain(|t| *t != m) } } }
    let _l = Leave(rt.clone());
    let _e = Enter::new(rt.clone());
    let flag = Arc::new(FlagWaker { set: Local(Cell::new(true)), t: me() });
    let w = Waker::from(flag.clone());
    let mut f = Box::pin(f);
    loop {
        if flag.set.0.replace(false) {
            preempt();
            if let Poll::Ready(x) = f.as_mut().poll(&mut Context::from_waker(&w)) { return x }
        } else if let Some(t) = if rt.local { rt.next() } else { None } { Task::run(&t) } else { block("block_on") }
    }
}
/// `#[tokio::main]`: the future runs on the calling thread in a runtime of its own.
pub fn block_on<F: Future>(workers: usize, f: F) -> F::Output {
    if entered() { panic!("Cannot start a runtime from within a runtime. This happens because a function (like `block_on`) attempted to block the current thread while the thread is being used to drive asynchronous tasks.") }
    let rt = Runtime::new(workers);
    rt.block_on(f)
}

#[derive(Debug)]
pub struct JoinError(pub bool);
impl JoinError { pub fn is_panic(&self) -> bool { !self.0 } pub fn is_cancelled(&self) -> bool { self.0 } }
impl std::fmt::Display for JoinError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "task failed") } }
impl std::error::Error for JoinError {}
struct Slot<T> { v: Option<Result<T, JoinError>>, w: Option<Waker> }
pub struct JoinHandle<T> { s: Rc<RefCell<Slot<T>>>, t: Rc<Task> }
unsafe impl<T> Send for JoinHandle<T> {}
unsafe impl<T> Sync for JoinHandle<T> {}
impl<T> JoinHandle<T> {
    pub fn abort(&self) { self.t.done.set(true); if !self.t.running.get() { let f = self.t.fut.borrow_mut().take(); drop(f) } finish(&self.s, Err(JoinError(true))) }
    pub fn is_finished(&self) -> bool { self.t.done.get() }
}
fn finish<T>(s: &Rc<RefCell<Slot<T>>>, v: Result<T, JoinError>) { let w = { let mut s = s.borrow_mut(); if s.v.is_none() { s.v = Some(v) } s.w.take() }; if let Some(w) = w { w.wake() } }
impl<T> Future for JoinHandle<T> {
    type Output = Result<T, JoinError>;
    fn poll(self: Pin<&mut Self>, c: &mut Context<'_>) -> Poll<Self::Output> { let mut s = self.s.borrow_mut(); match s.v.take() { Some(v) => Poll::Ready(v), None => { s.w = Some(c.waker().clone()); Poll::Pending } } }
}
struct Fin<T>(Rc<RefCell<Slot<T>>>);
impl<T> Drop for Fin<T> { fn drop(&mut self) { let p = std::thread::panicking(); finish(&self.0, Err(JoinError(!p))) } }
pub fn spawn_task<F>(f: F) -> JoinHandle<F::Output> where F: Future + 'static, F::Output: 'static { spawn_on(here(), f) }
fn spawn_on<F>(rt: Rc<Rt>, f: F) -> JoinHandle<F::Output> where F: Future + 'static, F::Output: 'static {
    let s = Rc::new(RefCell::new(Slot { v: None, w: None }));
    let fin = Fin(s.clone());
    let t = Rc::new(Task { fut: RefCell::new(Some(Box::pin(async move { let v = f.await; finish(&fin.0, Ok(v)); drop(fin) }))), queued: Cell::new(false), rt: rt.clone(), running: Cell::new(false), again: Cell::new(false), done: Cell::new(false) });
    rt.all.borrow_mut().retain(|w| w.strong_count() > 0);
    rt.all.borrow_mut().push(Rc::downgrade(&t));
    Task::enqueue(&t);
    // the runtime keeps every task alive until it is done
    let keep = t.clone();
    KEEP.with(|k| k.borrow_mut().push((rt, keep)));
    KEEP.with(|k| { let old: Vec<_> = { let mut k = k.borrow_mut(); let (a, b): (Vec<_>, Vec<_>) = k.drain(..).partition(|(r, t)| t.done.get() || r.closed.get()); *k = b; a }; drop(old) });
    preempt();
    JoinHandle { s, t }
}
thread_local! { static KEEP: RefCell<Vec<(Rc<Rt>, Rc<Task>)>> = const { RefCell::new(Vec::new()) }; }
/// Forgets everything of the finished simulation.
pub fn reset() { let v = KEEP.with(|k| std::mem::take(&mut *k.borrow_mut())); drop(v); let e = ENTERED.with(|e| std::mem::take(&mut *e.borrow_mut())); drop(e) }

pub struct Sleep { end: u64, key: Option<(u64, u64)>, fired: Rc<Cell<bool>> }
unsafe impl Send for Sleep {}
unsafe impl Sync for Sleep {}
pub fn sleep(d: Duration) -> Sleep { Sleep { end: now().saturating_add(d.as_nanos().min(u64::MAX as u128 / 4) as u64), key: None, fired: Rc::new(Cell::new(false)) } }
pub fn sleep_to(end: u64) -> Sleep { Sleep { end, key: None, fired: Rc::new(Cell::new(false)) } }
impl Future for Sleep {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, c: &mut Context<'_>) -> Poll<()> {
        if now() >= self.end && self.key.is_some() || self.fired.get() { return Poll::Ready(()) }
        if let Some(k) = self.key.take() { cancel(k) }
        let (w, f) = (c.waker().clone(), self.fired.clone());
        self.key = Some(at(self.end, move || { f.set(true); w.wake() }));
        Poll::Pending
    }
}
impl Drop for Sleep { fn drop(&mut self) { if let Some(k) = self.key.take() { cancel(k) } } }
#[derive(Debug, PartialEq, Eq)]
pub struct Elapsed(());
impl std::fmt::Display for Elapsed { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "deadline has elapsed") } }
impl std::error::Error for Elapsed {}
pub struct Timeout<F> { f: Pin<Box<F>>, s: Sleep }
pub fn timeout<F: Future>(d: Duration, f: F) -> Timeout<F> { Timeout { f: Box::pin(f), s: sleep(d) } }
impl<F: Future> Future for Timeout<F> {
    type Output = Result<F::Output, Elapsed>;
    fn poll(mut self: Pin<&mut Self>, c: &mut Context<'_>) -> Poll<Self::Output> {
        if let Poll::Ready(x) = self.f.as_mut().poll(c) { return Poll::Ready(Ok(x)) }
        if let Poll::Ready(()) = Pin::new(&mut self.s).poll(c) { return Poll::Ready(Err(Elapsed(()))) }
        Poll::Pending
    }
}
pub struct YieldNow(bool);
pub fn yield_now() -> YieldNow { YieldNow(false) }
impl Future for YieldNow { type Output = (); fn poll(mut self: Pin<&mut Self>, c: &mut Context<'_>) -> Poll<()> { if self.0 { Poll::Ready(()) } else { self.0 = true; c.waker().wake_by_ref(); Poll::Pending } } }
