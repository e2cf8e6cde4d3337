//! Asynchronous locks on the simulator: everything runs on one real thread.
use std::cell::{Cell, RefCell, UnsafeCell};
use std::future::poll_fn;
use std::ops::{Deref, DerefMut};
use std::sync::Arc;
use std::task::{Poll, Waker};

#[derive(Debug)] pub struct TryLockError(());
#[derive(Default)]
struct Wakers(RefCell<Vec<Waker>>);
impl Wakers {
    fn add(&self, w: &Waker) { let mut v = self.0.borrow_mut(); if !v.iter().any(|x| x.will_wake(w)) { v.push(w.clone()) } }
    fn all(&self) { let v = std::mem::take(&mut *self.0.borrow_mut()); for w in v { w.wake() } }
}
/// -1 held for writing, otherwise the number of readers.
#[derive(Default)]
pub struct RwLock<T: ?Sized> { n: Cell<i64>, w: Wakers, v: UnsafeCell<T> }
unsafe impl<T: ?Sized> Send for RwLock<T> {}
unsafe impl<T: ?Sized> Sync for RwLock<T> {}
pub struct RwLockReadGuard<'a, T: ?Sized>(&'a RwLock<T>);
pub struct RwLockWriteGuard<'a, T: ?Sized>(&'a RwLock<T>);
impl<T> RwLock<T> {
    pub fn new(v: T) -> Self { RwLock { n: Cell::new(0), w: Wakers::default(), v: UnsafeCell::new(v) } }
    pub fn into_inner(self) -> T { self.v.into_inner() }
}
impl<T: ?Sized> RwLock<T> {
    pub async fn read(&self) -> RwLockReadGuard<'_, T> { simcore::preempt(); poll_fn(|c| if self.n.get() >= 0 { self.n.set(self.n.get() + 1); Poll::Ready(RwLockReadGuard(self)) } else { self.w.add(c.waker()); Poll::Pending }).await }
    pub async fn write(&self) -> RwLockWriteGuard<'_, T> { simcore::preempt(); poll_fn(|c| if self.n.get() == 0 { self.n.set(-1); Poll::Ready(RwLockWriteGuard(self)) } else { self.w.add(c.waker()); Poll::Pending }).await }
    pub fn try_read(&self) -> Result<RwLockReadGuard<'_, T>, TryLockError> { simcore::preempt(); if self.n.get() >= 0 { self.n.set(self.n.get() + 1); Ok(RwLockReadGuard(self)) } else { Err(TryLockError(())) } }
    pub fn try_write(&self) -> Result<RwLockWriteGuard<'_, T>, TryLockError> { simcore::preempt(); if self.n.get() == 0 { self.n.set(-1); Ok(RwLockWriteGuard(self)) } else { Err(TryLockError(())) } }
    pub fn blocking_read(&self) -> RwLockReadGuard<'_, T> { simcore::exec::wait_for(self.read()) }
    pub fn blocking_write(&self) -> RwLockWriteGuard<'_, T> { simcore::exec::wait_for(self.write()) }
    pub fn get_mut(&mut self) -> &mut T { self.v.get_mut() }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.0.v.get() } } }
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.0.v.get() } } }
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> { fn deref_mut(&mut self) -> &mut T { unsafe { &mut *self.0.v.get() } } }
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> { fn drop(&mut self) { self.0.n.set(self.0.n.get() - 1); self.0.w.all(); } }
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> { fn drop(&mut self) { self.0.n.set(0); self.0.w.all(); } }

#[derive(Default)]
pub struct Mutex<T: ?Sized>(RwLock<T>);
pub type MutexGuard<'a, T> = RwLockWriteGuard<'a, T>;
impl<T> Mutex<T> {
    pub fn new(v: T) -> Self { Mutex(RwLock::new(v)) }
    pub fn into_inner(self) -> T { self.0.into_inner() }
}
impl<T: ?Sized> Mutex<T> {
    pub async fn lock(&self) -> MutexGuard<'_, T> { self.0.write().await }
    pub fn try_lock(&self) -> Result<MutexGuard<'_, T>, TryLockError> { self.0.try_write() }
    pub fn blocking_lock(&self) -> MutexGuard<'_, T> { self.0.blocking_write() }
    pub fn get_mut(&mut self) -> &mut T { self.0.get_mut() }
}

#[derive(Default)]
pub struct Notify { permit: Cell<bool>, gen: Cell<u64>, one: Cell<u64>, w: Wakers }
unsafe impl Send for Notify {}
unsafe impl Sync for Notify {}
impl Notify {
    pub fn new() -> Self { Self::default() }
    pub fn notify_one(&self) { simcore::preempt(); self.permit.set(true); self.w.all() }
    pub fn notify_waiters(&self) { simcore::preempt(); self.gen.set(self.gen.get() + 1); self.w.all() }
    pub async fn notified(&self) { let g = self.gen.get(); poll_fn(|c| if self.gen.get() != g || self.permit.replace(false) { Poll::Ready(()) } else { self.w.add(c.waker()); Poll::Pending }).await }
}

pub mod watch {
    use super::*;
    struct Inner<T> { v: RefCell<T>, ver: Cell<u64>, tx: Cell<usize>, rx: Cell<usize>, w: Wakers }
    pub struct Sender<T>(Arc<Inner<T>>);
    pub struct Receiver<T>(Arc<Inner<T>>, u64);
    unsafe impl<T> Send for Inner<T> {}
    unsafe impl<T> Sync for Inner<T> {}
    pub struct Ref<'a, T>(std::cell::Ref<'a, T>);
    impl<T> Deref for Ref<'_, T> { type Target = T; fn deref(&self) -> &T { &self.0 } }
    pub mod error { #[derive(Debug)] pub struct SendError<T>(pub T); #[derive(Debug)] pub struct RecvError(pub(super) ()); }
    pub fn channel<T>(v: T) -> (Sender<T>, Receiver<T>) { let i = Arc::new(Inner { v: RefCell::new(v), ver: Cell::new(0), tx: Cell::new(1), rx: Cell::new(1), w: Wakers::default() }); (Sender(i.clone()), Receiver(i, 0)) }
    impl<T> Sender<T> {
        pub fn send(&self, v: T) -> Result<(), error::SendError<T>> { simcore::preempt(); if self.0.rx.get() == 0 { return Err(error::SendError(v)) } self.send_replace(v); Ok(()) }
        pub fn send_replace(&self, v: T) -> T { let old = std::mem::replace(&mut *self.0.v.borrow_mut(), v); self.0.ver.set(self.0.ver.get() + 1); self.0.w.all(); old }
        pub fn borrow(&self) -> Ref<'_, T> { Ref(self.0.v.borrow()) }
        pub fn subscribe(&self) -> Receiver<T> { self.0.rx.set(self.0.rx.get() + 1); Receiver(self.0.clone(), self.0.ver.get()) }
    }
    impl<T> Receiver<T> {
        pub fn borrow(&self) -> Ref<'_, T> { simcore::preempt(); Ref(self.0.v.borrow()) }
        pub fn borrow_and_update(&mut self) -> Ref<'_, T> { simcore::preempt(); self.1 = self.0.ver.get(); Ref(self.0.v.borrow()) }
        pub async fn changed(&mut self) -> Result<(), error::RecvError> { let i = self.0.clone(); let seen = &mut self.1; poll_fn(move |c| if i.ver.get() != *seen { *seen = i.ver.get(); Poll::Ready(Ok(())) } else if i.tx.get() == 0 { Poll::Ready(Err(error::RecvError(()))) } else { i.w.add(c.waker()); Poll::Pending }).await }
    }
    impl<T> Clone for Receiver<T> { fn clone(&self) -> Self { self.0.rx.set(self.0.rx.get() + 1); Receiver(self.0.clone(), self.1) } }
    impl<T> Drop for Receiver<T> { fn drop(&mut self) { self.0.rx.set(self.0.rx.get() - 1) } }
    impl<T> Drop for Sender<T> { fn drop(&mut self) { self.0.tx.set(self.0.tx.get() - 1); self.0.w.all() } }
}
