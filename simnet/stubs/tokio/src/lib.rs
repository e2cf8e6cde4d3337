//! Stand-in for `tokio` on the simulator's own runtime.
pub use sim_tokio_macros::main;
pub use simcore::exec::spawn_task as spawn;
pub use futures::{join, try_join, pin_mut as pin};
#[doc(hidden)]
pub fn __block_on<F: std::future::Future>(workers: usize, f: F) -> F::Output { simcore::exec::block_on(workers, f) }
mod locks;
mod select;
#[doc(hidden)] pub use select::{__first, __Out};
#[doc(hidden)] pub fn __never() -> std::future::Pending<()> { std::future::pending() }
pub mod net { #[derive(Debug)] pub struct TcpStream(()); }
pub mod runtime {
    use simcore::exec;
    pub struct Builder { workers: usize }
    impl Builder {
        pub fn new_multi_thread() -> Self { Builder { workers: 2 } }
        pub fn new_current_thread() -> Self { Builder { workers: 0 } }
        pub fn worker_threads(&mut self, n: usize) -> &mut Self { self.workers = n; self }
        pub fn max_blocking_threads(&mut self, _: usize) -> &mut Self { self }
        pub fn thread_name(&mut self, _: impl Into<String>) -> &mut Self { self }
        pub fn thread_stack_size(&mut self, _: usize) -> &mut Self { self }
        pub fn enable_all(&mut self) -> &mut Self { self }
        pub fn enable_io(&mut self) -> &mut Self { self }
        pub fn enable_time(&mut self) -> &mut Self { self }
        pub fn build(&mut self) -> std::io::Result<Runtime> { Ok(Runtime(exec::Runtime::new(self.workers))) }
    }
    pub struct Runtime(exec::Runtime);
    impl Runtime {
        pub fn new() -> std::io::Result<Self> { Builder::new_multi_thread().build() }
        pub fn handle(&self) -> Handle { Handle(self.0.handle()) }
        pub fn spawn<F>(&self, f: F) -> exec::JoinHandle<F::Output> where F: std::future::Future + 'static, F::Output: 'static { self.0.handle().spawn(f) }
        pub fn block_on<F: std::future::Future>(&self, f: F) -> F::Output { self.0.block_on(f) }
        pub fn enter(&self) -> exec::Entered { self.0.handle().enter() }
        pub fn shutdown_background(self) { self.0.background() }
        pub fn shutdown_timeout(self, _: std::time::Duration) {}
    }
    #[derive(Clone)]
    pub struct Handle(exec::Handle);
    #[derive(Debug)] pub struct TryCurrentError(());
    impl Handle {
        pub fn current() -> Self { Handle(exec::Handle::current()) }
        pub fn try_current() -> Result<Self, TryCurrentError> { exec::Handle::try_current().map(Handle).ok_or(TryCurrentError(())) }
        pub fn spawn<F>(&self, f: F) -> exec::JoinHandle<F::Output> where F: std::future::Future + 'static, F::Output: 'static { self.0.spawn(f) }
        pub fn block_on<F: std::future::Future>(&self, f: F) -> F::Output { self.0.block_on(f) }
        pub fn enter(&self) -> exec::Entered { self.0.enter() }
    }
}
pub mod task {
    pub use simcore::exec::{spawn_task as spawn, JoinHandle, JoinError, yield_now};
    pub fn block_in_place<R>(f: impl FnOnce() -> R) -> R { f() }
    pub fn spawn_blocking<R: Send + 'static>(f: impl FnOnce() -> R + Send + 'static) -> JoinHandle<R> {
        let (tx, rx) = futures::channel::oneshot::channel();
        simcore::spawn("blocking task", move || { let _ = tx.send(f()); });
        spawn(async move { rx.await.expect("blocking task panicked") })
    }
}
pub mod time {
    pub use std::time::Duration;
    pub use simcore::exec::{sleep, timeout, Sleep, Timeout};
    pub mod error { pub use simcore::exec::Elapsed; }
    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
    pub struct Instant(u64);
    impl Instant { pub fn now() -> Self { Instant(simcore::now()) } pub fn elapsed(&self) -> Duration { Duration::from_nanos(simcore::now() - self.0) } }
    impl std::ops::Add<Duration> for Instant { type Output = Instant; fn add(self, d: Duration) -> Instant { Instant(self.0 + d.as_nanos() as u64) } }
    impl std::ops::Sub<Instant> for Instant { type Output = Duration; fn sub(self, o: Instant) -> Duration { Duration::from_nanos(self.0.saturating_sub(o.0)) } }
    pub fn sleep_until(t: Instant) -> Sleep { simcore::exec::sleep_to(t.0) }
    pub fn timeout_at<F: std::future::Future>(t: Instant, f: F) -> Timeout<F> { timeout(Duration::from_nanos(t.0.saturating_sub(simcore::now())), f) }
    pub struct Interval(u64, u64);
    pub fn interval(d: Duration) -> Interval { Interval(simcore::now(), d.as_nanos() as u64) }
    impl Interval { pub async fn tick(&mut self) -> Instant { let t = self.0; simcore::exec::sleep_to(t).await; self.0 = t.max(simcore::now()) + self.1; Instant(t) } }
}
pub mod sync {
    pub use crate::locks::{Mutex, MutexGuard, RwLock, RwLockReadGuard, RwLockWriteGuard, Notify, TryLockError};
    pub mod watch { pub use crate::locks::watch::*; }
    pub mod oneshot {
        use futures::channel::oneshot as f;
        pub use f::Sender;
        pub mod error { #[derive(Debug, PartialEq, Eq, Clone)] pub struct RecvError(pub(super) ()); #[derive(Debug, PartialEq, Eq, Clone)] pub enum TryRecvError { Empty, Closed } impl std::fmt::Display for RecvError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("channel closed") } } impl std::error::Error for RecvError {} }
        use std::{future::Future, pin::Pin, task::{Context, Poll}};
        pub struct Receiver<T>(f::Receiver<T>);
        pub fn channel<T>() -> (Sender<T>, Receiver<T>) { let (s, r) = f::channel(); (s, Receiver(r)) }
        impl<T> Receiver<T> {
            pub fn try_recv(&mut self) -> Result<T, error::TryRecvError> { simcore::preempt(); match self.0.try_recv() { Ok(Some(x)) => Ok(x), Ok(None) => Err(error::TryRecvError::Empty), Err(_) => Err(error::TryRecvError::Closed) } }
            pub fn close(&mut self) { self.0.close() }
            pub fn blocking_recv(self) -> Result<T, error::RecvError> { simcore::exec::wait_for(self) }
        }
        impl<T> Future for Receiver<T> { type Output = Result<T, error::RecvError>; fn poll(mut self: Pin<&mut Self>, c: &mut Context<'_>) -> Poll<Self::Output> { Pin::new(&mut self.0).poll(c).map_err(|_| error::RecvError(())) } }
    }
    pub mod mpsc {
        use async_channel as a;
        pub mod error { #[derive(Debug)] pub struct SendError<T>(pub T); impl<T> std::fmt::Display for SendError<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("channel closed") } } impl<T: std::fmt::Debug> std::error::Error for SendError<T> {} #[derive(Debug, PartialEq)] pub enum TrySendError<T> { Full(T), Closed(T) } #[derive(Debug, PartialEq)] pub enum TryRecvError { Empty, Disconnected } }
        use error::*;
        pub struct UnboundedSender<T>(a::Sender<T>);
        pub struct UnboundedReceiver<T>(a::Receiver<T>);
        pub struct Sender<T>(a::Sender<T>);
        pub struct Receiver<T>(a::Receiver<T>);
        impl<T> Clone for UnboundedSender<T> { fn clone(&self) -> Self { Self(self.0.clone()) } }
        impl<T> Clone for Sender<T> { fn clone(&self) -> Self { Self(self.0.clone()) } }
        pub fn unbounded_channel<T>() -> (UnboundedSender<T>, UnboundedReceiver<T>) { let (s, r) = a::unbounded(); (UnboundedSender(s), UnboundedReceiver(r)) }
        pub fn channel<T>(n: usize) -> (Sender<T>, Receiver<T>) { let (s, r) = a::bounded(n); (Sender(s), Receiver(r)) }
        impl<T> UnboundedSender<T> { pub fn send(&self, v: T) -> Result<(), SendError<T>> { simcore::preempt(); self.0.try_send(v).map_err(|e| SendError(e.into_inner())) } pub fn is_closed(&self) -> bool { self.0.is_closed() } }
        impl<T> Sender<T> { pub async fn send(&self, v: T) -> Result<(), SendError<T>> { self.0.send(v).await.map_err(|e| SendError(e.0)) } pub fn try_send(&self, v: T) -> Result<(), TrySendError<T>> { simcore::preempt(); self.0.try_send(v).map_err(|e| match e { a::TrySendError::Full(v) => TrySendError::Full(v), a::TrySendError::Closed(v) => TrySendError::Closed(v) }) } pub fn blocking_send(&self, v: T) -> Result<(), SendError<T>> { simcore::exec::wait_for(self.send(v)) } pub async fn closed(&self) { while !self.0.is_closed() { simcore::exec::sleep(std::time::Duration::from_millis(1)).await } } pub fn is_closed(&self) -> bool { self.0.is_closed() } }
        macro_rules! rx { ($($t:ident)*) => { $( impl<T> $t<T> {
            pub async fn recv(&mut self) -> Option<T> { self.0.recv().await.ok() }
            pub fn try_recv(&mut self) -> Result<T, TryRecvError> { self.0.try_recv().map_err(|e| match e { a::TryRecvError::Empty => TryRecvError::Empty, a::TryRecvError::Closed => TryRecvError::Disconnected }) }
            pub fn close(&mut self) { self.0.close(); }
            pub fn blocking_recv(&mut self) -> Option<T> { simcore::exec::wait_for(self.recv()) }
            pub fn is_closed(&self) -> bool { self.0.is_closed() }
            pub fn is_empty(&self) -> bool { self.0.is_empty() }
            pub fn len(&self) -> usize { self.0.len() }
        } )* } }
        rx!(UnboundedReceiver Receiver);
    }
}
