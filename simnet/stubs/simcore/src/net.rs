//! The network as the simulated programs see it: requests and connections are handed to the simulation's world.
use std::cell::RefCell;
use std::collections::VecDeque;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll, Waker};
use std::rc::Rc;
use crate::*;

#[derive(Clone, Debug)]
pub struct HttpReq { pub method: &'static str, pub url: String, pub body: Vec<u8>, pub headers: Vec<(String, String)>, pub group: u32 }
#[derive(Clone, Debug)]
pub struct HttpResp { pub status: u16, pub headers: Vec<(String, Vec<u8>)>, pub body: Result<Vec<u8>, String>, pub body_delay: u64 }
/// One direction of completion: the world fills it, the program awaits it.
pub struct Slot<T>(Rc<RefCell<(Option<T>, Option<Waker>, bool)>>);
impl<T> Clone for Slot<T> { fn clone(&self) -> Self { Slot(self.0.clone()) } }
impl<T> Slot<T> {
    pub fn new() -> Self { Slot(Rc::new(RefCell::new((None, None, false)))) }
    pub fn set(&self, v: T) { let w = { let mut s = self.0.borrow_mut(); s.0 = Some(v); s.1.take() }; if let Some(w) = w { w.wake() } }
    /// The program stopped waiting.
    pub fn abandoned(&self) -> bool { self.0.borrow().2 }
}
pub struct Wait<T>(pub Slot<T>);
unsafe impl<T> Send for Wait<T> {}
unsafe impl<T> Sync for Wait<T> {}
impl<T> Future for Wait<T> { type Output = T; fn poll(self: Pin<&mut Self>, c: &mut Context<'_>) -> Poll<T> { let mut s = self.0.0.borrow_mut(); match s.0.take() { Some(v) => Poll::Ready(v), None => { s.1 = Some(c.waker().clone()); Poll::Pending } } } }
impl<T> Drop for Wait<T> { fn drop(&mut self) { let mut s = self.0.0.borrow_mut(); s.2 = true; s.1 = None } }

#[derive(Clone, Debug, PartialEq)]
pub enum Frame { Text(String), Binary(Vec<u8>), Ping(Vec<u8>), Pong(Vec<u8>), Close }
#[derive(Clone, Debug, PartialEq)]
pub enum NetErr { Refused, Reset, Closed, Broken }
#[derive(Default)]
pub struct ConnState {
    pub id: usize, pub group: u32, pub url: String,
    pub inbox: VecDeque<Result<Frame, NetErr>>, pub eof: bool, pub ended: bool,
    pub write_err: Option<NetErr>, pub stalled: bool, pub buffered: usize,
    pub rw: Option<Waker>, pub ww: Option<Waker>, pub dropped: bool, pub handed: Vec<u64>, pub done: Vec<u64>, pub closed_by_program: bool,
}
#[derive(Clone)]
pub struct Conn(pub Rc<RefCell<ConnState>>);
unsafe impl Send for Conn {}
unsafe impl Sync for Conn {}
impl Conn {
    pub fn new(id: usize, group: u32, url: &str) -> Self { Conn(Rc::new(RefCell::new(ConnState { id, group, url: url.into(), ..Default::default() }))) }
    pub fn deliver(&self, f: Result<Frame, NetErr>) { let w = { let mut s = self.0.borrow_mut(); s.inbox.push_back(f); s.rw.take() }; if let Some(w) = w { w.wake() } }
    pub fn eof(&self) { let w = { let mut s = self.0.borrow_mut(); s.eof = true; s.rw.take() }; if let Some(w) = w { w.wake() } }
    pub fn unstall(&self) { let w = { let mut s = self.0.borrow_mut(); s.stalled = false; s.ww.take() }; if let Some(w) = w { w.wake() } }
    pub fn fail_writes(&self, e: NetErr) { let w = { let mut s = self.0.borrow_mut(); s.write_err = Some(e); s.ww.take() }; if let Some(w) = w { w.wake() } }
    pub fn poll_read(&self, c: &mut Context<'_>) -> Poll<Option<Result<Frame, NetErr>>> {
        preempt();
        let mut s = self.0.borrow_mut();
        while s.done.len() < s.handed.len() { let t = now(); s.done.push(t) }
        if s.ended { return Poll::Ready(None) }
        if let Some(f) = s.inbox.pop_front() { let t = now(); s.handed.push(t); if f.is_err() { s.ended = true } return Poll::Ready(Some(f)) }
        if s.eof { s.ended = true; return Poll::Ready(None) }
        s.rw = Some(c.waker().clone());
        Poll::Pending
    }
    pub fn poll_ready(&self, c: &mut Context<'_>) -> Poll<Result<(), NetErr>> {
        preempt();
        let mut s = self.0.borrow_mut();
        if let Some(e) = &s.write_err { return Poll::Ready(Err(e.clone())) }
        if s.stalled && s.buffered >= 1 { s.ww = Some(c.waker().clone()); return Poll::Pending }
        Poll::Ready(Ok(()))
    }
    pub fn send(&self, f: Frame) -> Result<(), NetErr> {
        preempt();
        if let Some(e) = &self.0.borrow().write_err { return Err(e.clone()) }
        if f == Frame::Close { self.0.borrow_mut().closed_by_program = true }
        world(|w| w.frame(self.clone(), f));
        Ok(())
    }
    pub fn dropped(&self) { let first = { let mut s = self.0.borrow_mut(); !std::mem::replace(&mut s.dropped, true) }; if first && !dying() { world(|w| w.gone(self.clone())) } }
}
pub trait World {
    fn http(&self, req: HttpReq, out: Slot<Result<HttpResp, NetErr>>);
    fn connect(&self, url: String, group: u32, out: Slot<Result<Conn, NetErr>>);
    fn frame(&self, c: Conn, f: Frame);
    fn gone(&self, c: Conn);
}
thread_local! { static WORLD: RefCell<Option<Rc<dyn World>>> = const { RefCell::new(None) }; }
pub fn set_world(w: Option<Rc<dyn World>>) { let old = WORLD.with(|c| std::mem::replace(&mut *c.borrow_mut(), w)); drop(old) }
pub fn world(f: impl FnOnce(&dyn World)) { let w = WORLD.with(|c| c.borrow().clone()); if let Some(w) = w { f(&*w) } }
