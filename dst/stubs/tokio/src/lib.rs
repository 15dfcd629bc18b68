//! tokio on the simulator: every spawned future is a simulated task.
pub use task::{spawn, JoinHandle};
pub use tokio_macros::main;

mod exec {
    use std::future::Future;
    use std::pin::pin;
    use std::sync::atomic::{AtomicBool, Ordering};
    use std::sync::Arc;
    use std::task::{Context, Poll, Wake, Waker};

    struct W(AtomicBool);
    impl Wake for W {
        fn wake(self: Arc<Self>) {
            self.0.store(true, Ordering::SeqCst);
            simrt::bump();
        }
    }
    /// None when the task was cancelled at an await point.
    pub fn drive<F: Future>(f: F, cancelled: Option<Arc<AtomicBool>>) -> Option<F::Output> {
        let mut f = pin!(f);
        let w = Arc::new(W(AtomicBool::new(false)));
        let waker = Waker::from(w.clone());
        let mut cx = Context::from_waker(&waker);
        loop {
            match f.as_mut().poll(&mut cx) {
                Poll::Ready(x) => return Some(x),
                Poll::Pending => {
                    let w2 = w.clone();
                    let c2 = cancelled.clone();
                    simrt::wait_until(move || {
                        w2.0.load(Ordering::SeqCst)
                            || c2.as_ref().is_some_and(|c| c.load(Ordering::SeqCst))
                    });
                    if simrt::dying() {
                        simrt::die_if_killed();
                        return None;
                    }
                    w.0.store(false, Ordering::SeqCst);
                    if cancelled.as_ref().is_some_and(|c| c.load(Ordering::SeqCst)) {
                        return None;
                    }
                }
            }
        }
    }
}

pub mod runtime {
    use super::task::{self, JoinHandle};
    use std::cell::RefCell;
    use std::future::Future;
    use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
    use std::sync::{Arc, Mutex};

    #[derive(Default)]
    pub(crate) struct Shared {
        pub cancels: Mutex<Vec<Arc<AtomicBool>>>,
        pub live: AtomicUsize,
    }
    thread_local! {
        pub(crate) static CURRENT: RefCell<Vec<Arc<Shared>>> = const { RefCell::new(Vec::new()) };
    }
    pub(crate) fn current() -> Arc<Shared> {
        CURRENT.with(|c| {
            c.borrow().last().cloned().expect(
                "there is no reactor running, must be called from the context of a Tokio 1.x runtime",
            )
        })
    }
    pub(crate) fn enter<R>(s: &Arc<Shared>, f: impl FnOnce() -> R) -> R {
        struct G;
        impl Drop for G {
            fn drop(&mut self) {
                CURRENT.with(|c| {
                    c.borrow_mut().pop();
                });
            }
        }
        CURRENT.with(|c| c.borrow_mut().push(s.clone()));
        let _g = G;
        f()
    }
    #[derive(Clone)]
    pub struct Handle(Arc<Shared>);
    impl Handle {
        pub fn current() -> Self {
            Handle(current())
        }
        pub fn block_on<F: Future>(&self, f: F) -> F::Output {
            match enter(&self.0, || super::exec::drive(f, None)) {
                Some(x) => x,
                None => std::panic::resume_unwind(Box::new(simrt::SimAbort)),
            }
        }
        pub fn spawn<F>(&self, f: F) -> JoinHandle<F::Output>
        where
            F: Future + Send + 'static,
            F::Output: Send + 'static,
        {
            enter(&self.0, || task::spawn(f))
        }
    }
    pub struct Runtime {
        s: Arc<Shared>,
    }
    impl Runtime {
        pub fn new() -> std::io::Result<Self> {
            Ok(Runtime { s: Arc::default() })
        }
        pub fn handle(&self) -> Handle {
            Handle(self.s.clone())
        }
        pub fn block_on<F: Future>(&self, f: F) -> F::Output {
            if CURRENT.with(|c| !c.borrow().is_empty()) {
                panic!("Cannot start a runtime from within a runtime. This happens because a function (like `block_on`) attempted to block the current thread while the thread is being used to drive asynchronous tasks.");
            }
            Handle(self.s.clone()).block_on(f)
        }
        pub fn spawn<F>(&self, f: F) -> JoinHandle<F::Output>
        where
            F: Future + Send + 'static,
            F::Output: Send + 'static,
        {
            enter(&self.s, || task::spawn(f))
        }
        pub fn spawn_blocking<F, R>(&self, f: F) -> JoinHandle<R>
        where
            F: FnOnce() -> R + Send + 'static,
            R: Send + 'static,
        {
            enter(&self.s, || task::spawn_blocking(f))
        }
        pub fn shutdown_background(self) {
            for c in self.s.cancels.lock().unwrap().iter() {
                c.store(true, Ordering::SeqCst);
            }
            simrt::bump();
            std::mem::forget(self);
        }
    }
    impl Drop for Runtime {
        fn drop(&mut self) {
            for c in self.s.cancels.lock().unwrap().iter() {
                c.store(true, Ordering::SeqCst);
            }
            if simrt::dying() {
                return;
            }
            simrt::bump();
            let s = self.s.clone();
            // every task stops at its next await point; blocking ones run to their end
            simrt::wait_until(move || s.live.load(Ordering::SeqCst) == 0);
        }
    }
    #[derive(Default)]
    pub struct Builder {}
    impl Builder {
        pub fn new_multi_thread() -> Self {
            Builder {}
        }
        pub fn new_current_thread() -> Self {
            Builder {}
        }
        pub fn enable_all(&mut self) -> &mut Self {
            self
        }
        pub fn enable_io(&mut self) -> &mut Self {
            self
        }
        pub fn enable_time(&mut self) -> &mut Self {
            self
        }
        pub fn worker_threads(&mut self, _n: usize) -> &mut Self {
            self
        }
        pub fn max_blocking_threads(&mut self, _n: usize) -> &mut Self {
            self
        }
        pub fn thread_stack_size(&mut self, _n: usize) -> &mut Self {
            self
        }
        pub fn thread_name(&mut self, _n: impl Into<String>) -> &mut Self {
            self
        }
        pub fn build(&mut self) -> std::io::Result<Runtime> {
            Runtime::new()
        }
    }
}

pub mod task {
    use super::runtime::{current, enter, Shared};
    use std::any::Any;
    use std::future::Future;
    use std::pin::Pin;
    use std::sync::atomic::{AtomicBool, Ordering};
    use std::sync::{Arc, Mutex};
    use std::task::{Context, Poll, Waker};

    pub struct JoinError {
        payload: Option<Box<dyn Any + Send>>,
    }
    impl JoinError {
        pub fn is_panic(&self) -> bool {
            self.payload.is_some()
        }
        pub fn is_cancelled(&self) -> bool {
            self.payload.is_none()
        }
        pub fn into_panic(self) -> Box<dyn Any + Send> {
            self.payload.expect("not a panic")
        }
    }
    impl std::fmt::Debug for JoinError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            match &self.payload {
                Some(p) => write!(f, "JoinError::Panic({:?})", simrt::panic_text(p.as_ref())),
                None => write!(f, "JoinError::Cancelled"),
            }
        }
    }
    impl std::fmt::Display for JoinError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "{self:?}")
        }
    }
    impl std::error::Error for JoinError {}

    struct Slot<T> {
        out: Option<Result<T, JoinError>>,
        waker: Option<Waker>,
        done: bool,
    }
    pub struct JoinHandle<T> {
        slot: Arc<Mutex<Slot<T>>>,
        cancel: Arc<AtomicBool>,
    }
    impl<T> JoinHandle<T> {
        pub fn abort(&self) {
            self.cancel.store(true, Ordering::SeqCst);
            simrt::bump();
        }
        pub fn is_finished(&self) -> bool {
            self.slot.lock().unwrap().done
        }
    }
    impl<T> Future for JoinHandle<T> {
        type Output = Result<T, JoinError>;
        fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
            let mut s = self.slot.lock().unwrap();
            match s.out.take() {
                Some(r) => Poll::Ready(r),
                None => {
                    s.waker = Some(cx.waker().clone());
                    Poll::Pending
                }
            }
        }
    }
    struct Live(Arc<Shared>);
    impl Drop for Live {
        fn drop(&mut self) {
            self.0.live.fetch_sub(1, Ordering::SeqCst);
            simrt::bump();
        }
    }
    fn start<T: 'static>(
        name: &str,
        cancel: Arc<AtomicBool>,
        body: impl FnOnce() -> Option<T> + 'static,
    ) -> JoinHandle<T> {
        let sh = current();
        sh.live.fetch_add(1, Ordering::SeqCst);
        let live = Live(sh.clone());
        let slot = Arc::new(Mutex::new(Slot { out: None, waker: None, done: false }));
        let s2 = slot.clone();
        simrt::spawn(simrt::current_proc(), name, move || {
            let live = live;
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| enter(&sh, body)));
            let out = match r {
                Ok(Some(x)) => Ok(x),
                Ok(None) => Err(JoinError { payload: None }),
                Err(p) if p.is::<simrt::SimAbort>() => std::panic::resume_unwind(p),
                Err(p) => {
                    let t = simrt::panic_text(p.as_ref());
                    simrt::log(|| format!("tokio task panicked: {t}"));
                    simrt::note_panic(&t);
                    Err(JoinError { payload: Some(p) })
                }
            };
            let w = {
                let mut s = s2.lock().unwrap();
                s.out = Some(out);
                s.done = true;
                s.waker.take()
            };
            if let Some(w) = w {
                w.wake();
            }
            simrt::bump();
            drop(live);
        });
        JoinHandle { slot, cancel }
    }
    pub fn spawn<F>(f: F) -> JoinHandle<F::Output>
    where
        F: Future + Send + 'static,
        F::Output: Send + 'static,
    {
        let cancel = Arc::new(AtomicBool::new(false));
        current().cancels.lock().unwrap().push(cancel.clone());
        let c2 = cancel.clone();
        start("tokio-task", cancel, move || {
            if c2.load(Ordering::SeqCst) {
                return None;
            }
            super::exec::drive(f, Some(c2))
        })
    }
    pub fn spawn_blocking<F, R>(f: F) -> JoinHandle<R>
    where
        F: FnOnce() -> R + Send + 'static,
        R: Send + 'static,
    {
        let cancel = Arc::new(AtomicBool::new(false));
        current().cancels.lock().unwrap().push(cancel.clone());
        let c2 = cancel.clone();
        start("tokio-blocking", cancel, move || {
            if c2.load(Ordering::SeqCst) {
                return None;
            }
            Some(f())
        })
    }
    pub fn block_in_place<F: FnOnce() -> R, R>(f: F) -> R {
        f()
    }
    pub async fn yield_now() {
        simrt::yield_now();
    }
}

pub mod time {
    use std::future::Future;
    pub use std::time::{Duration, Instant};
    pub async fn sleep(d: Duration) {
        let _ = super::task::spawn_blocking(move || simrt::sleep_ns(d.as_nanos() as u64)).await;
    }
    #[derive(Debug, PartialEq, Eq)]
    pub struct Elapsed(());
    impl std::fmt::Display for Elapsed {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "deadline has elapsed")
        }
    }
    impl std::error::Error for Elapsed {}
    pub async fn timeout<F: Future>(d: Duration, f: F) -> Result<F::Output, Elapsed> {
        let mut f = Box::pin(f);
        let mut t = Box::pin(sleep(d));
        std::future::poll_fn(move |cx| {
            if let std::task::Poll::Ready(x) = f.as_mut().poll(cx) {
                return std::task::Poll::Ready(Ok(x));
            }
            if t.as_mut().poll(cx).is_ready() {
                return std::task::Poll::Ready(Err(Elapsed(())));
            }
            std::task::Poll::Pending
        })
        .await
    }
}

pub mod net {
    use std::net::SocketAddr;
    pub struct TcpListener {
        addr: SocketAddr,
    }
    pub trait ToAddr {
        fn addr(self) -> std::io::Result<SocketAddr>;
    }
    impl ToAddr for SocketAddr {
        fn addr(self) -> std::io::Result<SocketAddr> {
            Ok(self)
        }
    }
    impl ToAddr for &SocketAddr {
        fn addr(self) -> std::io::Result<SocketAddr> {
            Ok(*self)
        }
    }
    impl ToAddr for &str {
        fn addr(self) -> std::io::Result<SocketAddr> {
            self.parse().map_err(|_| std::io::Error::from(std::io::ErrorKind::InvalidInput))
        }
    }
    impl ToAddr for String {
        fn addr(self) -> std::io::Result<SocketAddr> {
            self.as_str().addr()
        }
    }
    impl ToAddr for &String {
        fn addr(self) -> std::io::Result<SocketAddr> {
            self.as_str().addr()
        }
    }
    impl ToAddr for (std::net::IpAddr, u16) {
        fn addr(self) -> std::io::Result<SocketAddr> {
            Ok(SocketAddr::new(self.0, self.1))
        }
    }
    impl ToAddr for (&str, u16) {
        fn addr(self) -> std::io::Result<SocketAddr> {
            format!("{}:{}", self.0, self.1).addr()
        }
    }
    impl TcpListener {
        pub async fn bind<A: ToAddr>(a: A) -> std::io::Result<Self> {
            let addr = a.addr()?;
            model::net::bind(addr.port())?;
            Ok(TcpListener { addr })
        }
        pub fn local_addr(&self) -> std::io::Result<SocketAddr> {
            Ok(self.addr)
        }
    }
    impl Drop for TcpListener {
        fn drop(&mut self) {
            model::net::unbind(self.addr.port());
        }
    }
}

pub mod sync {
    use std::cell::UnsafeCell;
    use std::collections::VecDeque;
    use std::future::Future;
    use std::ops::{Deref, DerefMut};
    use std::pin::Pin;
    use std::sync::{Arc, Mutex as StdMutex};
    use std::task::{Context, Poll, Waker};

    #[derive(Default)]
    struct St {
        locked: bool,
        queue: VecDeque<(u64, Option<Waker>)>,
        next: u64,
    }
    /// Fair (first come, first served), as tokio's.
    #[derive(Default)]
    pub struct Mutex<T: ?Sized> {
        st: StdMutex<St>,
        v: UnsafeCell<T>,
    }
    unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
    unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
    impl<T: std::fmt::Debug> std::fmt::Debug for Mutex<T> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "Mutex")
        }
    }
    #[derive(Debug)]
    pub struct TryLockError(());
    pub struct MutexGuard<'a, T: ?Sized>(&'a Mutex<T>);
    pub struct OwnedMutexGuard<T: ?Sized>(Arc<Mutex<T>>);
    struct Lock<'a, T: ?Sized> {
        m: &'a Mutex<T>,
        id: Option<u64>,
        done: bool,
    }
    impl<T: ?Sized> Future for Lock<'_, T> {
        type Output = ();
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
            let mut s = self.m.st.lock().unwrap();
            let id = match self.id {
                Some(i) => i,
                None => {
                    s.next += 1;
                    let i = s.next;
                    s.queue.push_back((i, None));
                    i
                }
            };
            let r = if !s.locked && s.queue.front().is_some_and(|q| q.0 == id) {
                s.queue.pop_front();
                s.locked = true;
                Poll::Ready(())
            } else {
                let w = cx.waker().clone();
                s.queue.iter_mut().find(|q| q.0 == id).unwrap().1 = Some(w);
                Poll::Pending
            };
            drop(s);
            self.id = Some(id);
            self.done = r.is_ready();
            r
        }
    }
    impl<T: ?Sized> Drop for Lock<'_, T> {
        fn drop(&mut self) {
            if let (Some(i), false) = (self.id, self.done) {
                let w = {
                    let mut s = self.m.st.lock().unwrap();
                    s.queue.retain(|q| q.0 != i);
                    if s.locked { None } else { s.queue.front_mut().and_then(|q| q.1.take()) }
                };
                if let Some(w) = w {
                    w.wake();
                }
            }
        }
    }
    impl<T: ?Sized> Mutex<T> {
        pub fn new(v: T) -> Self
        where
            T: Sized,
        {
            Mutex { st: StdMutex::default(), v: UnsafeCell::new(v) }
        }
        pub async fn lock(&self) -> MutexGuard<'_, T> {
            simrt::yield_now();
            Lock { m: self, id: None, done: false }.await;
            MutexGuard(self)
        }
        pub async fn lock_owned(self: Arc<Self>) -> OwnedMutexGuard<T> {
            simrt::yield_now();
            Lock { m: &*self, id: None, done: false }.await;
            OwnedMutexGuard(self)
        }
        pub fn blocking_lock(&self) -> MutexGuard<'_, T> {
            super::exec::drive(Lock { m: self, id: None, done: false }, None);
            MutexGuard(self)
        }
        pub fn try_lock(&self) -> Result<MutexGuard<'_, T>, TryLockError> {
            let mut s = self.st.lock().unwrap();
            if s.locked || !s.queue.is_empty() {
                return Err(TryLockError(()));
            }
            s.locked = true;
            drop(s);
            Ok(MutexGuard(self))
        }
        pub fn into_inner(self) -> T
        where
            T: Sized,
        {
            self.v.into_inner()
        }
        pub fn get_mut(&mut self) -> &mut T {
            self.v.get_mut()
        }
        fn unlock(&self) {
            let w = {
                let mut s = self.st.lock().unwrap();
                s.locked = false;
                s.queue.front_mut().and_then(|q| q.1.take())
            };
            if let Some(w) = w {
                w.wake();
            }
            simrt::bump();
        }
    }
    impl<T: ?Sized> Deref for MutexGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            unsafe { &*self.0.v.get() }
        }
    }
    impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
        fn deref_mut(&mut self) -> &mut T {
            unsafe { &mut *self.0.v.get() }
        }
    }
    unsafe impl<T: ?Sized + Send> Send for MutexGuard<'_, T> {}
    unsafe impl<T: ?Sized + Send> Sync for MutexGuard<'_, T> {}
    impl<T: ?Sized> Drop for MutexGuard<'_, T> {
        fn drop(&mut self) {
            self.0.unlock();
        }
    }
    impl<T: ?Sized> Deref for OwnedMutexGuard<T> {
        type Target = T;
        fn deref(&self) -> &T {
            unsafe { &*self.0.v.get() }
        }
    }
    impl<T: ?Sized> DerefMut for OwnedMutexGuard<T> {
        fn deref_mut(&mut self) -> &mut T {
            unsafe { &mut *self.0.v.get() }
        }
    }
    impl<T: ?Sized> Drop for OwnedMutexGuard<T> {
        fn drop(&mut self) {
            self.0.unlock();
        }
    }
    unsafe impl<T: ?Sized + Send> Send for OwnedMutexGuard<T> {}

    pub mod oneshot {
        use super::*;
        struct Ch<T> {
            v: Option<T>,
            tx_gone: bool,
            rx_gone: bool,
            waker: Option<Waker>,
        }
        pub struct Sender<T>(Option<Arc<StdMutex<Ch<T>>>>);
        pub struct Receiver<T>(Arc<StdMutex<Ch<T>>>);
        pub mod error {
            #[derive(Debug, Clone, PartialEq, Eq)]
            pub struct RecvError(pub(super) ());
            impl std::fmt::Display for RecvError {
                fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                    write!(f, "channel closed")
                }
            }
            impl std::error::Error for RecvError {}
        }
        pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
            let c = Arc::new(StdMutex::new(Ch { v: None, tx_gone: false, rx_gone: false, waker: None }));
            (Sender(Some(c.clone())), Receiver(c))
        }
        impl<T> Sender<T> {
            pub fn send(mut self, v: T) -> Result<(), T> {
                let c = self.0.take().unwrap();
                let w = {
                    let mut g = c.lock().unwrap();
                    g.tx_gone = true;
                    if g.rx_gone {
                        return Err(v);
                    }
                    g.v = Some(v);
                    g.waker.take()
                };
                if let Some(w) = w {
                    w.wake();
                }
                Ok(())
            }
            pub fn is_closed(&self) -> bool {
                self.0.as_ref().unwrap().lock().unwrap().rx_gone
            }
        }
        impl<T> Drop for Sender<T> {
            fn drop(&mut self) {
                if let Some(c) = self.0.take() {
                    let w = {
                        let mut g = c.lock().unwrap();
                        g.tx_gone = true;
                        g.waker.take()
                    };
                    if let Some(w) = w {
                        w.wake();
                    }
                }
            }
        }
        impl<T> Drop for Receiver<T> {
            fn drop(&mut self) {
                self.0.lock().unwrap().rx_gone = true;
            }
        }
        impl<T> Future for Receiver<T> {
            type Output = Result<T, error::RecvError>;
            fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
                let mut g = self.0.lock().unwrap();
                if let Some(v) = g.v.take() {
                    return Poll::Ready(Ok(v));
                }
                if g.tx_gone {
                    return Poll::Ready(Err(error::RecvError(())));
                }
                g.waker = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}
