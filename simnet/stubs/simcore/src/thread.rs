//! Stand-in for `std::thread`.
pub use ::std::thread::{panicking, available_parallelism, LocalKey, AccessError, ThreadId, Result};
use std::cell::RefCell;
use std::rc::Rc;
use std::time::Duration;
use std::io;
use crate::*;

pub struct Thread(Tid, Option<String>);
impl Thread {
    pub fn unpark(&self) { wake(self.0) }
    pub fn name(&self) -> Option<&str> { self.1.as_deref() }
}
impl Clone for Thread { fn clone(&self) -> Self { Thread(self.0, self.1.clone()) } }
pub fn current() -> Thread { Thread(me(), None) }
pub struct JoinHandle<T> { t: Tid, out: Rc<RefCell<Option<T>>> }
unsafe impl<T> Send for JoinHandle<T> {}
unsafe impl<T> Sync for JoinHandle<T> {}
impl<T> JoinHandle<T> {
    pub fn join(self) -> Result<T> {
        while !finished(self.t) { if unwinding() { return Err(Box::new("unwinding")) } let m = me(); k_join(self.t, m); block("join") }
        match self.out.borrow_mut().take() { Some(x) => Ok(x), None => Err(Box::new(panic_of(self.t).unwrap_or_default())) }
    }
    pub fn is_finished(&self) -> bool { preempt(); finished(self.t) }
    pub fn thread(&self) -> Thread { Thread(self.t, None) }
    pub fn tid(&self) -> Tid { self.t }
}
pub struct Builder(Option<String>);
impl Builder {
    pub fn new() -> Self { Builder(None) }
    pub fn name(self, n: String) -> Self { Builder(Some(n)) }
    pub fn stack_size(self, _: usize) -> Self { self }
    pub fn spawn<F: FnOnce() -> T + Send + 'static, T: Send + 'static>(self, f: F) -> io::Result<JoinHandle<T>> {
        let out = Rc::new(RefCell::new(None));
        let o = out.clone();
        let t = crate::spawn(self.0.as_deref().unwrap_or("thread"), move || { let r = f(); *o.borrow_mut() = Some(r) });
        preempt();
        Ok(JoinHandle { t, out })
    }
}
/// Threads that end before the scope does.
pub struct Scope<'scope, 'env: 'scope>(RefCell<Vec<Tid>>, std::marker::PhantomData<(&'scope mut &'scope (), &'env mut &'env ())>);
pub struct ScopedJoinHandle<'scope, T>(JoinHandle<T>, std::marker::PhantomData<&'scope ()>);
impl<T> ScopedJoinHandle<'_, T> { pub fn join(self) -> Result<T> { self.0.join() } pub fn is_finished(&self) -> bool { self.0.is_finished() } }
impl<'scope, 'env> Scope<'scope, 'env> {
    pub fn spawn<F: FnOnce() -> T + Send + 'scope, T: Send + 'scope>(&'scope self, f: F) -> ScopedJoinHandle<'scope, T> {
        let out = Rc::new(RefCell::new(None));
        let o = out.clone();
        let body: Box<dyn FnOnce() + 'scope> = Box::new(move || { let r = f(); *o.borrow_mut() = Some(r) });
        // the scope joins every thread before the borrowed things go away
        let body: Box<dyn FnOnce() + 'static> = unsafe { std::mem::transmute(body) };
        let t = crate::spawn("scoped thread", body);
        self.0.borrow_mut().push(t);
        preempt();
        ScopedJoinHandle(JoinHandle { t, out }, std::marker::PhantomData)
    }
}
pub fn scope<'env, F, T>(f: F) -> T where F: for<'scope> FnOnce(&'scope Scope<'scope, 'env>) -> T {
    let s = Scope(RefCell::new(vec![]), std::marker::PhantomData);
    let r = f(&s);
    let v = s.0.borrow().clone();
    for t in v { while !finished(t) { if unwinding() { break } let m = me(); k_join(t, m); block("scope") } }
    r
}
pub fn spawn<F: FnOnce() -> T + Send + 'static, T: Send + 'static>(f: F) -> JoinHandle<T> { Builder::new().spawn(f).unwrap() }
pub fn sleep(d: Duration) { sleep_ns(d.as_nanos().min(u64::MAX as u128 / 4) as u64) }
pub fn sleep_ms(ms: u32) { sleep(Duration::from_millis(ms as u64)) }
pub fn yield_now() { preempt() }
pub fn park() { block("park") }
pub fn park_timeout(d: Duration) {
    let m = me();
    let key = after(d.as_nanos() as u64, move || wake(m));
    block("park");
    cancel(key);
}
