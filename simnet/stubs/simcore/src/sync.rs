//! Stand-ins for the blocking parts of `std::sync`, with a scheduling point at every operation.
pub use ::std::sync::*;
use std::cell::{Cell, RefCell, UnsafeCell};
use std::fmt;
use std::ops::{Deref, DerefMut};
use std::time::Duration;
use crate::*;

#[derive(Default)]
struct Waiters(RefCell<Vec<Tid>>);
impl Waiters {
    fn wait(&self, why: &'static str) {
        let m = me();
        self.0.borrow_mut().push(m);
        block(why);
        self.0.borrow_mut().retain(|x| *x != m);
    }
    fn all(&self) { let v: Vec<_> = self.0.borrow().clone(); for t in v { wake(t) } }
    fn one(&self) { let t = { let v = self.0.borrow(); if v.is_empty() { return } if inside() && !unwinding() { let n = v.len(); drop(v); let i = choose(n); self.0.borrow()[i.min(n - 1)] } else { v[0] } }; wake(t) }
}
#[derive(Default)]
pub struct Mutex<T: ?Sized> { locked: Cell<bool>, bad: Cell<bool>, w: Waiters, v: UnsafeCell<T> }
unsafe impl<T: ?Sized> Send for Mutex<T> {}
unsafe impl<T: ?Sized> Sync for Mutex<T> {}
pub struct MutexGuard<'a, T: ?Sized>(&'a Mutex<T>, bool);
impl<T> Mutex<T> {
    pub const fn new(v: T) -> Self { Mutex { locked: Cell::new(false), bad: Cell::new(false), w: Waiters(RefCell::new(Vec::new())), v: UnsafeCell::new(v) } }
    pub fn into_inner(self) -> LockResult<T> { let b = self.bad.get(); let v = self.v.into_inner(); if b { Err(PoisonError::new(v)) } else { Ok(v) } }
}
impl<T: ?Sized> Mutex<T> {
    fn guard(&self) -> LockResult<MutexGuard<'_, T>> {
        self.locked.set(true);
        let g = MutexGuard(self, ::std::thread::panicking());
        if self.bad.get() { Err(PoisonError::new(g)) } else { Ok(g) }
    }
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        preempt();
        while self.locked.get() && !unwinding() { self.w.wait("lock") }
        self.guard()
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        preempt();
        if self.locked.get() { return Err(TryLockError::WouldBlock) }
        self.guard().map_err(TryLockError::Poisoned)
    }
    pub fn is_poisoned(&self) -> bool { self.bad.get() }
    pub fn clear_poison(&self) { self.bad.set(false) }
    pub fn get_mut(&mut self) -> LockResult<&mut T> { let b = self.bad.get(); let v = self.v.get_mut(); if b { Err(PoisonError::new(v)) } else { Ok(v) } }
    fn unlock(&self, was: bool) { if !was && ::std::thread::panicking() { self.bad.set(true) } self.locked.set(false); self.w.all() }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.0.v.get() } } }
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> { fn deref_mut(&mut self) -> &mut T { unsafe { &mut *self.0.v.get() } } }
impl<T: ?Sized> Drop for MutexGuard<'_, T> { fn drop(&mut self) { preempt(); self.0.unlock(self.1); preempt() } }
impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "Mutex") } }
impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { (**self).fmt(f) } }
impl<T> From<T> for Mutex<T> { fn from(v: T) -> Self { Mutex::new(v) } }

#[derive(Default)]
pub struct RwLock<T: ?Sized> { n: Cell<i64>, bad: Cell<bool>, w: Waiters, v: UnsafeCell<T> }
unsafe impl<T: ?Sized> Send for RwLock<T> {}
unsafe impl<T: ?Sized> Sync for RwLock<T> {}
pub struct RwLockReadGuard<'a, T: ?Sized>(&'a RwLock<T>);
pub struct RwLockWriteGuard<'a, T: ?Sized>(&'a RwLock<T>, bool);
impl<T> RwLock<T> {
    pub const fn new(v: T) -> Self { RwLock { n: Cell::new(0), bad: Cell::new(false), w: Waiters(RefCell::new(Vec::new())), v: UnsafeCell::new(v) } }
    pub fn into_inner(self) -> LockResult<T> { let b = self.bad.get(); let v = self.v.into_inner(); if b { Err(PoisonError::new(v)) } else { Ok(v) } }
}
impl<T: ?Sized> RwLock<T> {
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        preempt();
        while self.n.get() < 0 && !unwinding() { self.w.wait("read lock") }
        self.n.set(self.n.get().max(0) + 1);
        let g = RwLockReadGuard(self);
        if self.bad.get() { Err(PoisonError::new(g)) } else { Ok(g) }
    }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        preempt();
        while self.n.get() != 0 && !unwinding() { self.w.wait("write lock") }
        self.n.set(-1);
        let g = RwLockWriteGuard(self, ::std::thread::panicking());
        if self.bad.get() { Err(PoisonError::new(g)) } else { Ok(g) }
    }
    pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> { preempt(); if self.n.get() < 0 { return Err(TryLockError::WouldBlock) } self.n.set(self.n.get() + 1); Ok(RwLockReadGuard(self)) }
    pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> { preempt(); if self.n.get() != 0 { return Err(TryLockError::WouldBlock) } self.n.set(-1); Ok(RwLockWriteGuard(self, ::std::thread::panicking())) }
    pub fn is_poisoned(&self) -> bool { self.bad.get() }
    pub fn get_mut(&mut self) -> LockResult<&mut T> { Ok(self.v.get_mut()) }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.0.v.get() } } }
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.0.v.get() } } }
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> { fn deref_mut(&mut self) -> &mut T { unsafe { &mut *self.0.v.get() } } }
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> { fn drop(&mut self) { preempt(); self.0.n.set((self.0.n.get() - 1).max(0)); self.0.w.all(); preempt() } }
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> { fn drop(&mut self) { preempt(); if !self.1 && ::std::thread::panicking() { self.0.bad.set(true) } self.0.n.set(0); self.0.w.all(); preempt() } }
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "RwLock") } }

#[derive(Default)]
pub struct Condvar { w: Waiters }
unsafe impl Send for Condvar {}
unsafe impl Sync for Condvar {}
#[derive(Debug, PartialEq, Eq, Copy, Clone)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult { pub fn timed_out(&self) -> bool { self.0 } }
impl Condvar {
    pub const fn new() -> Self { Condvar { w: Waiters(RefCell::new(Vec::new())) } }
    pub fn wait<'a, T>(&self, g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> { let m = g.0; self.release(g); self.w.wait("condvar"); m.lock() }
    fn release<T>(&self, g: MutexGuard<'_, T>) { let m = g.0; let was = g.1; ::std::mem::forget(g); m.unlock(was) }
    pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(&self, mut g: MutexGuard<'a, T>, mut f: F) -> LockResult<MutexGuard<'a, T>> { while f(&mut *g) { g = self.wait(g)? } Ok(g) }
    pub fn wait_timeout<'a, T>(&self, g: MutexGuard<'a, T>, d: Duration) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        let m = g.0;
        let end = now() + d.as_nanos() as u64;
        let me = me();
        let key = at(end, move || wake(me));
        self.release(g);
        self.w.wait("condvar");
        cancel(key);
        let r = WaitTimeoutResult(now() >= end);
        match m.lock() { Ok(g) => Ok((g, r)), Err(e) => Err(PoisonError::new((e.into_inner(), r))) }
    }
    pub fn notify_one(&self) { self.w.one(); preempt() }
    pub fn notify_all(&self) { self.w.all(); preempt() }
}

impl Condvar {
    pub fn wait_timeout_while<'a, T, F: FnMut(&mut T) -> bool>(&self, mut g: MutexGuard<'a, T>, d: Duration, mut f: F) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        let end = now() + d.as_nanos() as u64;
        loop {
            if !f(&mut *g) { return Ok((g, WaitTimeoutResult(false))) }
            if now() >= end { return Ok((g, WaitTimeoutResult(true))) }
            g = self.wait_timeout(g, Duration::from_nanos(end - now())).map_err(|e| { let x = e.into_inner(); PoisonError::new(x) })?.0;
        }
    }
}
/// A value written once; whoever comes while it is being made waits on the simulator.
pub struct OnceLock<T> { m: Mutex<()>, v: ::std::cell::OnceCell<T> }
unsafe impl<T: Send> Send for OnceLock<T> {}
unsafe impl<T: Send + Sync> Sync for OnceLock<T> {}
impl<T> OnceLock<T> {
    pub const fn new() -> Self { OnceLock { m: Mutex::new(()), v: ::std::cell::OnceCell::new() } }
    pub fn get(&self) -> Option<&T> { preempt(); self.v.get() }
    pub fn get_mut(&mut self) -> Option<&mut T> { self.v.get_mut() }
    pub fn set(&self, v: T) -> Result<(), T> { let _g = self.m.lock(); self.v.set(v) }
    pub fn get_or_init(&self, f: impl FnOnce() -> T) -> &T { let _g = self.m.lock(); if self.v.get().is_none() { let v = f(); let _ = self.v.set(v); } self.v.get().unwrap() }
    pub fn into_inner(self) -> Option<T> { self.v.into_inner() }
    pub fn take(&mut self) -> Option<T> { self.v.take() }
}
impl<T> Default for OnceLock<T> { fn default() -> Self { Self::new() } }
impl<T: fmt::Debug> fmt::Debug for OnceLock<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "OnceLock") } }
pub struct LazyLock<T, F = fn() -> T> { c: OnceLock<T>, f: Cell<Option<F>> }
unsafe impl<T: Send + Sync, F: Send> Sync for LazyLock<T, F> {}
impl<T, F: FnOnce() -> T> LazyLock<T, F> {
    pub const fn new(f: F) -> Self { LazyLock { c: OnceLock::new(), f: Cell::new(Some(f)) } }
    pub fn force(l: &Self) -> &T { l.c.get_or_init(|| l.f.take().expect("poisoned")()) }
}
impl<T, F: FnOnce() -> T> Deref for LazyLock<T, F> { type Target = T; fn deref(&self) -> &T { Self::force(self) } }

pub mod mpsc {
    pub use ::std::sync::mpsc::{SendError, RecvError, TryRecvError, RecvTimeoutError, TrySendError};
    use super::*;
    use std::collections::VecDeque;
    use std::sync::Arc;
    struct Chan<T> { q: RefCell<VecDeque<T>>, cap: Option<usize>, tx: Cell<usize>, rx: Cell<bool>, w: Waiters, full: Waiters }
    pub struct Sender<T>(Arc<Chan<T>>);
    pub struct SyncSender<T>(Arc<Chan<T>>);
    pub struct Receiver<T>(Arc<Chan<T>>);
    unsafe impl<T> Send for Chan<T> {}
    unsafe impl<T> Sync for Chan<T> {}
    fn make<T>(cap: Option<usize>) -> Arc<Chan<T>> { Arc::new(Chan { q: Default::default(), cap, tx: Cell::new(1), rx: Cell::new(true), w: Default::default(), full: Default::default() }) }
    pub fn channel<T>() -> (Sender<T>, Receiver<T>) { let c = make(None); (Sender(c.clone()), Receiver(c)) }
    pub fn sync_channel<T>(n: usize) -> (SyncSender<T>, Receiver<T>) { let c = make(Some(n.max(1))); (SyncSender(c.clone()), Receiver(c)) }
    impl<T> Chan<T> {
        fn send(&self, v: T) -> Result<(), SendError<T>> {
            preempt();
            loop {
                if !self.rx.get() { return Err(SendError(v)) }
                if self.cap.map(|c| self.q.borrow().len() < c).unwrap_or(true) || unwinding() { break }
                self.full.wait("send")
            }
            self.q.borrow_mut().push_back(v);
            self.w.all();
            preempt();
            Ok(())
        }
        fn gone(&self) { self.tx.set(self.tx.get() - 1); if self.tx.get() == 0 { self.w.all() } preempt() }
    }
    macro_rules! sender { ($t:ident) => {
        impl<T> $t<T> { pub fn send(&self, v: T) -> Result<(), SendError<T>> { self.0.send(v) } }
        impl<T> Clone for $t<T> { fn clone(&self) -> Self { self.0.tx.set(self.0.tx.get() + 1); $t(self.0.clone()) } }
        impl<T> Drop for $t<T> { fn drop(&mut self) { self.0.gone() } }
        impl<T> fmt::Debug for $t<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "Sender") } }
    } }
    sender!(Sender);
    sender!(SyncSender);
    impl<T> SyncSender<T> {
        pub fn try_send(&self, v: T) -> Result<(), TrySendError<T>> {
            preempt();
            if !self.0.rx.get() { return Err(TrySendError::Disconnected(v)) }
            if self.0.cap.map(|c| self.0.q.borrow().len() >= c).unwrap_or(false) { return Err(TrySendError::Full(v)) }
            self.0.send(v).map_err(|SendError(v)| TrySendError::Disconnected(v))
        }
    }
    impl<T> Receiver<T> {
        fn pop(&self) -> Option<T> { let v = self.0.q.borrow_mut().pop_front(); if v.is_some() { self.0.full.all() } v }
        pub fn try_recv(&self) -> Result<T, TryRecvError> {
            preempt();
            match self.pop() { Some(v) => Ok(v), None if self.0.tx.get() == 0 => Err(TryRecvError::Disconnected), None => Err(TryRecvError::Empty) }
        }
        pub fn recv(&self) -> Result<T, RecvError> {
            preempt();
            loop {
                if let Some(v) = self.pop() { return Ok(v) }
                if self.0.tx.get() == 0 || unwinding() { return Err(RecvError) }
                self.0.w.wait("recv")
            }
        }
        pub fn recv_timeout(&self, d: Duration) -> Result<T, RecvTimeoutError> {
            preempt();
            let end = now() + d.as_nanos() as u64;
            loop {
                if let Some(v) = self.pop() { return Ok(v) }
                if self.0.tx.get() == 0 || unwinding() { return Err(RecvTimeoutError::Disconnected) }
                if now() >= end { return Err(RecvTimeoutError::Timeout) }
                let m = me();
                let key = at(end, move || wake(m));
                self.0.w.wait("recv");
                cancel(key);
            }
        }
        pub fn iter(&self) -> Iter<'_, T> { Iter(self) }
        pub fn try_iter(&self) -> TryIter<'_, T> { TryIter(self) }
    }
    impl<T> Drop for Receiver<T> { fn drop(&mut self) { self.0.rx.set(false); let q = ::std::mem::take(&mut *self.0.q.borrow_mut()); self.0.full.all(); drop(q); preempt() } }
    impl<T> fmt::Debug for Receiver<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "Receiver") } }
    pub struct Iter<'a, T>(&'a Receiver<T>);
    pub struct TryIter<'a, T>(&'a Receiver<T>);
    pub struct IntoIter<T>(Receiver<T>);
    impl<T> Iterator for Iter<'_, T> { type Item = T; fn next(&mut self) -> Option<T> { self.0.recv().ok() } }
    impl<T> Iterator for TryIter<'_, T> { type Item = T; fn next(&mut self) -> Option<T> { self.0.try_recv().ok() } }
    impl<T> Iterator for IntoIter<T> { type Item = T; fn next(&mut self) -> Option<T> { self.0.recv().ok() } }
    impl<T> IntoIterator for Receiver<T> { type Item = T; type IntoIter = IntoIter<T>; fn into_iter(self) -> IntoIter<T> { IntoIter(self) } }
    impl<'a, T> IntoIterator for &'a Receiver<T> { type Item = T; type IntoIter = Iter<'a, T>; fn into_iter(self) -> Iter<'a, T> { Iter(self) } }
}
/// Atomic values with a scheduling point at every access.
pub mod atomic {
    pub use ::std::sync::atomic::{Ordering, fence, compiler_fence};
    pub use ::std::sync::atomic::AtomicPtr;
    use ::std::sync::atomic as a;
    macro_rules! atomic { ($($n:ident $t:ty),*) => { $(
        #[derive(Default, Debug)]
        pub struct $n(a::$n);
        impl $n {
            pub const fn new(v: $t) -> Self { $n(a::$n::new(v)) }
            pub fn load(&self, o: Ordering) -> $t { crate::preempt(); self.0.load(o) }
            pub fn store(&self, v: $t, o: Ordering) { crate::preempt(); self.0.store(v, o); crate::preempt() }
            pub fn swap(&self, v: $t, o: Ordering) -> $t { crate::preempt(); self.0.swap(v, o) }
            pub fn compare_exchange(&self, c: $t, n: $t, s: Ordering, f: Ordering) -> Result<$t, $t> { crate::preempt(); self.0.compare_exchange(c, n, s, f) }
            pub fn compare_exchange_weak(&self, c: $t, n: $t, s: Ordering, f: Ordering) -> Result<$t, $t> { crate::preempt(); self.0.compare_exchange(c, n, s, f) }
            pub fn fetch_or(&self, v: $t, o: Ordering) -> $t { crate::preempt(); self.0.fetch_or(v, o) }
            pub fn fetch_and(&self, v: $t, o: Ordering) -> $t { crate::preempt(); self.0.fetch_and(v, o) }
            pub fn fetch_xor(&self, v: $t, o: Ordering) -> $t { crate::preempt(); self.0.fetch_xor(v, o) }
            pub fn fetch_update(&self, s: Ordering, f: Ordering, mut g: impl FnMut($t) -> Option<$t>) -> Result<$t, $t> { let mut old = self.load(f); loop { match g(old) { None => return Err(old), Some(n) => match self.compare_exchange(old, n, s, f) { Ok(x) => return Ok(x), Err(x) => old = x } } } }
            pub fn into_inner(self) -> $t { self.0.into_inner() }
            pub fn get_mut(&mut self) -> &mut $t { self.0.get_mut() }
        }
    )* } }
    macro_rules! arith { ($($n:ident $t:ty),*) => { $(
        impl $n {
            pub fn fetch_add(&self, v: $t, o: Ordering) -> $t { crate::preempt(); self.0.fetch_add(v, o) }
            pub fn fetch_sub(&self, v: $t, o: Ordering) -> $t { crate::preempt(); self.0.fetch_sub(v, o) }
            pub fn fetch_max(&self, v: $t, o: Ordering) -> $t { crate::preempt(); self.0.fetch_max(v, o) }
            pub fn fetch_min(&self, v: $t, o: Ordering) -> $t { crate::preempt(); self.0.fetch_min(v, o) }
        }
    )* } }
    atomic!(AtomicBool bool, AtomicU8 u8, AtomicU16 u16, AtomicU32 u32, AtomicU64 u64, AtomicUsize usize, AtomicI32 i32, AtomicI64 i64, AtomicIsize isize);
    arith!(AtomicU8 u8, AtomicU16 u16, AtomicU32 u32, AtomicU64 u64, AtomicUsize usize, AtomicI32 i32, AtomicI64 i64, AtomicIsize isize);
}
