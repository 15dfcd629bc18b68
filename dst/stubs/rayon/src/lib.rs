//! rayon on the simulator: work items run on a seeded number of simulated workers that can
//! be preempted inside their arithmetic.
use std::any::Any;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

pub mod prelude {
    pub use super::iter::*;
    #[allow(unused_imports)]
    pub use super::slice::*;
}
pub mod slice {
    pub use super::iter::{ParallelSlice, ParallelSliceMut};
}

type Job<'a> = Box<dyn FnOnce() + 'a>;

fn workers(n: usize) -> usize {
    if n <= 1 || !simrt::in_task() || simrt::dying() || SEQUENTIAL.load(Ordering::Relaxed) {
        return 1;
    }
    1 + simrt::choose_usize(n.min(4))
}
/// Runs that do not study concurrency switch the worker pool off.
pub static SEQUENTIAL: AtomicBool = AtomicBool::new(false);

/// Runs every job; a panic is propagated after all of them have ended.
fn run_all(jobs: Vec<Job<'_>>) {
    let w = workers(jobs.len());
    if w == 1 {
        // rayon still ends every job it started before it propagates a panic
        let mut first: Option<Box<dyn Any + Send>> = None;
        for j in jobs {
            if first.is_some() {
                break;
            }
            if let Err(e) = catch_unwind(AssertUnwindSafe(j)) {
                first = Some(e);
            }
        }
        if let Some(e) = first {
            resume_unwind(e);
        }
        return;
    }
    simrt::probe("rayon.parallel_sections");
    simrt::preempt_begin();
    struct End;
    impl Drop for End {
        fn drop(&mut self) {
            simrt::preempt_end();
        }
    }
    let _e = End;
    // safety: this function returns only after every job has ended
    let jobs: Vec<Job<'static>> = unsafe { std::mem::transmute(jobs) };
    let mut jobs: Vec<Option<Job<'static>>> = jobs.into_iter().map(Some).collect();
    // seeded order in which items are handed out
    let mut order: Vec<usize> = (0..jobs.len()).collect();
    let k = simrt::choose_usize(order.len());
    order.rotate_left(k);
    if simrt::flip(300) {
        order.reverse();
    }
    let queue: Vec<Job<'static>> = order.into_iter().rev().map(|i| jobs[i].take().unwrap()).collect();
    struct Q(Mutex<Vec<Job<'static>>>);
    unsafe impl Send for Q {}
    unsafe impl Sync for Q {}
    let q = Arc::new(Q(Mutex::new(queue)));
    let left = Arc::new(AtomicUsize::new(w));
    let panic: Arc<Mutex<Option<Box<dyn Any + Send>>>> = Arc::default();
    let body = |q: Arc<Q>, left: Arc<AtomicUsize>, panic: Arc<Mutex<Option<Box<dyn Any + Send>>>>| {
        struct G(Arc<AtomicUsize>);
        impl Drop for G {
            fn drop(&mut self) {
                self.0.fetch_sub(1, Ordering::SeqCst);
                simrt::bump();
            }
        }
        let _g = G(left);
        loop {
            simrt::yield_now();
            let Some(j) = q.0.lock().unwrap().pop() else { break };
            if let Err(e) = catch_unwind(AssertUnwindSafe(j)) {
                if e.is::<simrt::SimAbort>() {
                    resume_unwind(e);
                }
                q.0.lock().unwrap().clear();
                let mut p = panic.lock().unwrap();
                if p.is_none() {
                    *p = Some(e);
                }
            }
        }
    };
    for i in 1..w {
        let (q, left, panic) = (q.clone(), left.clone(), panic.clone());
        simrt::spawn(simrt::current_proc(), &format!("rayon-{i}"), move || body(q, left, panic));
    }
    let mine = catch_unwind(AssertUnwindSafe(|| body(q.clone(), left.clone(), panic.clone())));
    // also when this task is being ended: the others still borrow from it
    let l = left.clone();
    if simrt::dying() {
        while left.load(Ordering::SeqCst) > 0 {
            if simrt::aborting() {
                std::thread::yield_now();
            } else {
                simrt::yield_even_if_dying();
            }
        }
    } else {
        let r = catch_unwind(AssertUnwindSafe(|| simrt::wait_until(move || l.load(Ordering::SeqCst) == 0)));
        if r.is_err() {
            while left.load(Ordering::SeqCst) > 0 {
                if simrt::aborting() {
                    std::thread::yield_now();
                } else {
                    simrt::yield_even_if_dying();
                }
            }
            resume_unwind(r.unwrap_err());
        }
    }
    if let Err(e) = mine {
        resume_unwind(e);
    }
    let p = panic.lock().unwrap().take();
    if let Some(e) = p {
        resume_unwind(e);
    }
}

pub fn current_num_threads() -> usize {
    4
}
pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce() -> RA,
    B: FnOnce() -> RB,
{
    let (mut x, mut y) = (None, None);
    {
        let (px, py) = (&mut x, &mut y);
        run_all(vec![Box::new(move || *px = Some(a())), Box::new(move || *py = Some(b()))]);
    }
    (x.unwrap(), y.unwrap())
}

type ScopeJob<'s> = Box<dyn FnOnce(&Scope<'s>) + 's>;
pub struct Scope<'s> {
    jobs: Mutex<Vec<ScopeJob<'s>>>,
}
impl<'s> Scope<'s> {
    pub fn spawn<F: FnOnce(&Scope<'s>) + Send + 's>(&self, f: F) {
        self.jobs.lock().unwrap().push(Box::new(f));
    }
}
pub fn scope<'s, F, R>(f: F) -> R
where
    F: FnOnce(&Scope<'s>) -> R,
{
    let s = Scope { jobs: Mutex::new(vec![]) };
    let r = f(&s);
    loop {
        let js = std::mem::take(&mut *s.jobs.lock().unwrap());
        if js.is_empty() {
            break;
        }
        let sr = &s;
        run_all(js.into_iter().map(|j| Box::new(move || j(sr)) as Job<'_>).collect());
    }
    r
}
#[derive(Debug)]
pub struct ThreadPoolBuildError(());
impl std::fmt::Display for ThreadPoolBuildError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "thread pool")
    }
}
impl std::error::Error for ThreadPoolBuildError {}
#[derive(Default)]
pub struct ThreadPoolBuilder(());
pub struct ThreadPool(());
impl ThreadPoolBuilder {
    pub fn new() -> Self {
        Self(())
    }
    pub fn num_threads(self, _n: usize) -> Self {
        self
    }
    pub fn stack_size(self, _n: usize) -> Self {
        self
    }
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> {
        Ok(ThreadPool(()))
    }
    pub fn build_global(self) -> Result<(), ThreadPoolBuildError> {
        Ok(())
    }
}
impl ThreadPool {
    pub fn install<R>(&self, f: impl FnOnce() -> R) -> R {
        f()
    }
    pub fn scope<'s, F, R>(&self, f: F) -> R
    where
        F: FnOnce(&Scope<'s>) -> R,
    {
        scope(f)
    }
}

pub mod iter {
    use super::*;

    /// A parallel iterator: one thunk per item.
    pub struct Par<'a, T>(Vec<Box<dyn FnOnce() -> T + 'a>>);

    impl<'a, T: 'a> Par<'a, T> {
        pub fn of(it: impl Iterator<Item = T>) -> Self {
            Par(it.map(|x| Box::new(move || x) as Box<dyn FnOnce() -> T + 'a>).collect())
        }
        /// Results in item order; None for items cut off by `stop`.
        fn drive(self, stop: impl Fn(&T) -> bool) -> Vec<(Option<T>, usize)> {
            let n = self.0.len();
            let out: Mutex<Vec<(Option<T>, usize)>> = Mutex::new((0..n).map(|_| (None, 0)).collect());
            let stopped = AtomicBool::new(false);
            let seq = AtomicUsize::new(0);
            {
                let (out, stopped, stop, seq) = (&out, &stopped, &stop, &seq);
                let jobs: Vec<Job<'_>> = self
                    .0
                    .into_iter()
                    .enumerate()
                    .map(|(i, f)| {
                        Box::new(move || {
                            if stopped.load(Ordering::SeqCst) {
                                return;
                            }
                            let v = f();
                            if stop(&v) {
                                stopped.store(true, Ordering::SeqCst);
                            }
                            let s = seq.fetch_add(1, Ordering::SeqCst);
                            out.lock().unwrap()[i] = (Some(v), s);
                        }) as Job<'_>
                    })
                    .collect();
                run_all(jobs);
            }
            out.into_inner().unwrap()
        }
        fn all_items(self) -> Vec<T> {
            self.drive(|_| false).into_iter().map(|x| x.0.unwrap()).collect()
        }
        fn then<U: 'a>(self, f: impl Fn(T) -> U + 'a) -> Par<'a, U> {
            let f = Arc::new(f);
            Par(self
                .0
                .into_iter()
                .map(|t| {
                    let f = f.clone();
                    Box::new(move || f(t())) as Box<dyn FnOnce() -> U + 'a>
                })
                .collect())
        }
    }

    pub trait FromPar<'a, T>: Sized {
        fn from_par(p: Par<'a, T>) -> Self ;
    }
    impl<'a, T> FromPar<'a, T> for Vec<T> {
        fn from_par(p: Par<'a, T>) -> Self {
            p.all_items()
        }
    }
    impl<'a, K: std::hash::Hash + Eq, V> FromPar<'a, (K, V)> for std::collections::HashMap<K, V> {
        fn from_par(p: Par<'a, (K, V)>) -> Self {
            p.all_items().into_iter().collect()
        }
    }
    impl<'a> FromPar<'a, ()> for () {
        fn from_par(p: Par<'a, ()>) -> Self {
            p.all_items();
        }
    }
    // rayon keeps the error it met first, which need not be the lowest index
    impl<'a, C: FromIterator<T>, T, E> FromPar<'a, Result<T, E>> for Result<C, E> {
        fn from_par(p: Par<'a, Result<T, E>>) -> Self {
            let v = p.drive(|x| x.is_err());
            let mut first: Option<(usize, E)> = None;
            let mut ok = vec![];
            for (x, s) in v {
                match x {
                    Some(Ok(x)) => ok.push(x),
                    Some(Err(e)) => {
                        if first.as_ref().is_none_or(|f| s < f.0) {
                            first = Some((s, e));
                        }
                    }
                    None => {}
                }
            }
            match first {
                Some((_, e)) => Err(e),
                None => Ok(ok.into_iter().collect()),
            }
        }
    }
    impl<'a, C: FromIterator<T>, T> FromPar<'a, Option<T>> for Option<C> {
        fn from_par(p: Par<'a, Option<T>>) -> Self {
            let v = p.drive(|x| x.is_none());
            let mut ok = vec![];
            for (x, _) in v {
                ok.push(x??);
            }
            Some(ok.into_iter().collect())
        }
    }

    pub trait ParallelIterator: Sized {
        type Item;
    }
    pub trait IndexedParallelIterator: ParallelIterator {}
    impl<T> ParallelIterator for Par<'_, T> {
        type Item = T;
    }
    impl<T> IndexedParallelIterator for Par<'_, T> {}

    impl<'a, T: 'a> Par<'a, T> {
        pub fn map<U: 'a, F: Fn(T) -> U + Sync + Send + 'a>(self, f: F) -> Par<'a, U> {
            self.then(f)
        }
        pub fn map_init<I, U: 'a>(
            self,
            init: impl Fn() -> I + 'a,
            f: impl Fn(&mut I, T) -> U + 'a,
        ) -> Par<'a, U> {
            self.then(move |x| f(&mut init(), x))
        }
        pub fn enumerate(self) -> Par<'a, (usize, T)> {
            Par(self
                .0
                .into_iter()
                .enumerate()
                .map(|(i, f)| Box::new(move || (i, f())) as Box<dyn FnOnce() -> (usize, T) + 'a>)
                .collect())
        }
        pub fn zip<Z>(self, o: Z) -> Par<'a, (T, Z::Item)>
        where
            Z: IntoPar<'a>,
            Z::Item: 'a,
        {
            let o = o.into_par();
            Par(self
                .0
                .into_iter()
                .zip(o.0)
                .map(|(f, g)| Box::new(move || (f(), g())) as Box<dyn FnOnce() -> (T, Z::Item) + 'a>)
                .collect())
        }
        pub fn chain<Z>(mut self, o: Z) -> Par<'a, T>
        where
            Z: IntoPar<'a, Item = T>,
        {
            self.0.extend(o.into_par().0);
            self
        }
        pub fn rev(mut self) -> Self {
            self.0.reverse();
            self
        }
        pub fn with_min_len(self, _n: usize) -> Self {
            self
        }
        pub fn with_max_len(self, _n: usize) -> Self {
            self
        }
        pub fn cloned<U: Clone + 'a>(self) -> Par<'a, U>
        where
            T: std::ops::Deref<Target = U>,
        {
            self.then(|x| (*x).clone())
        }
        pub fn copied<U: Copy + 'a>(self) -> Par<'a, U>
        where
            T: std::ops::Deref<Target = U>,
        {
            self.then(|x| *x)
        }
        pub fn collect<C: FromPar<'a, T>>(self) -> C {
            C::from_par(self)
        }
        pub fn collect_into_vec(self, v: &mut Vec<T>) {
            *v = self.all_items();
        }
        pub fn for_each<F: Fn(T) + Sync + Send + 'a>(self, f: F) {
            self.then(f).all_items();
        }
        pub fn try_for_each<E: 'a, F: Fn(T) -> Result<(), E> + Sync + Send + 'a>(self, f: F) -> Result<(), E> {
            let r: Result<Vec<()>, E> = self.then(f).collect();
            r.map(|_| ())
        }
        pub fn all<F: Fn(T) -> bool + Sync + Send + 'a>(self, f: F) -> bool {
            self.then(f).drive(|x| !*x).into_iter().all(|x| x.0.unwrap_or(false))
        }
        pub fn any<F: Fn(T) -> bool + Sync + Send + 'a>(self, f: F) -> bool {
            self.then(f).drive(|x| *x).into_iter().any(|x| x.0 == Some(true))
        }
        pub fn filter<F: Fn(&T) -> bool + Sync + Send + 'a>(self, f: F) -> Par<'a, T> {
            let v: Vec<T> = self.then(move |x| if f(&x) { Some(x) } else { None }).all_items().into_iter().flatten().collect();
            Par::of(v.into_iter())
        }
        pub fn filter_map<U: 'a, F: Fn(T) -> Option<U> + Sync + Send + 'a>(self, f: F) -> Par<'a, U> {
            let v: Vec<U> = self.then(f).all_items().into_iter().flatten().collect();
            Par::of(v.into_iter())
        }
        pub fn flat_map<U: 'a, I: IntoIterator<Item = U> + 'a, F: Fn(T) -> I + Sync + Send + 'a>(self, f: F) -> Par<'a, U> {
            let v: Vec<U> = self.then(f).all_items().into_iter().flatten().collect();
            Par::of(v.into_iter())
        }
        pub fn flat_map_iter<U: 'a, I: IntoIterator<Item = U> + 'a, F: Fn(T) -> I + Sync + Send + 'a>(self, f: F) -> Par<'a, U> {
            self.flat_map(f)
        }
        pub fn sum<S: std::iter::Sum<T>>(self) -> S {
            self.all_items().into_iter().sum()
        }
        pub fn count(self) -> usize {
            self.all_items().len()
        }
        pub fn min(self) -> Option<T>
        where
            T: Ord,
        {
            self.all_items().into_iter().min()
        }
        pub fn max(self) -> Option<T>
        where
            T: Ord,
        {
            self.all_items().into_iter().max()
        }
        pub fn reduce(self, id: impl Fn() -> T, op: impl Fn(T, T) -> T) -> T {
            self.all_items().into_iter().fold(id(), op)
        }
        pub fn fold<U: 'a>(self, id: impl Fn() -> U + 'a, op: impl Fn(U, T) -> U + 'a) -> Par<'a, U> {
            self.then(move |x| op(id(), x))
        }
        pub fn unzip<A, B>(self) -> (Vec<A>, Vec<B>)
        where
            T: Into<(A, B)>,
        {
            self.all_items().into_iter().map(|x| x.into()).unzip()
        }
    }
    /// Anything `zip` accepts.
    pub trait IntoPar<'a> {
        type Item;
        fn into_par(self) -> Par<'a, Self::Item>;
    }
    impl<'a, T> IntoPar<'a> for Par<'a, T> {
        type Item = T;
        fn into_par(self) -> Par<'a, T> {
            self
        }
    }
    impl<'a, T: 'a> IntoPar<'a> for Vec<T> {
        type Item = T;
        fn into_par(self) -> Par<'a, T> {
            Par::of(self.into_iter())
        }
    }
    impl<'a, T> IntoPar<'a> for &'a Vec<T> {
        type Item = &'a T;
        fn into_par(self) -> Par<'a, &'a T> {
            Par::of(self.iter())
        }
    }
    impl<'a, T> IntoPar<'a> for &'a [T] {
        type Item = &'a T;
        fn into_par(self) -> Par<'a, &'a T> {
            Par::of(self.iter())
        }
    }
    pub trait IntoParallelIterator {
        type Item;
        fn into_par_iter<'a>(self) -> Par<'a, Self::Item>
        where
            Self: 'a,
            Self::Item: 'a;
    }
    impl<I: IntoIterator> IntoParallelIterator for I {
        type Item = I::Item;
        fn into_par_iter<'a>(self) -> Par<'a, I::Item>
        where
            I: 'a,
            I::Item: 'a,
        {
            Par::of(self.into_iter())
        }
    }
    pub trait IntoParallelRefIterator<'a> {
        type Item;
        fn par_iter(&'a self) -> Par<'a, Self::Item>;
    }
    impl<'a, C: ?Sized + 'a> IntoParallelRefIterator<'a> for C
    where
        &'a C: IntoIterator,
        <&'a C as IntoIterator>::Item: 'a,
    {
        type Item = <&'a C as IntoIterator>::Item;
        fn par_iter(&'a self) -> Par<'a, Self::Item> {
            Par::of(self.into_iter())
        }
    }
    pub trait IntoParallelRefMutIterator<'a> {
        type Item;
        fn par_iter_mut(&'a mut self) -> Par<'a, Self::Item>;
    }
    impl<'a, C: ?Sized + 'a> IntoParallelRefMutIterator<'a> for C
    where
        &'a mut C: IntoIterator,
        <&'a mut C as IntoIterator>::Item: 'a,
    {
        type Item = <&'a mut C as IntoIterator>::Item;
        fn par_iter_mut(&'a mut self) -> Par<'a, Self::Item> {
            Par::of(self.into_iter())
        }
    }
    pub trait ParallelSlice<T> {
        fn par_chunks(&self, n: usize) -> Par<'_, &[T]>;
    }
    impl<T> ParallelSlice<T> for [T] {
        fn par_chunks(&self, n: usize) -> Par<'_, &[T]> {
            Par::of(self.chunks(n))
        }
    }
    pub trait ParallelSliceMut<T> {
        fn par_chunks_mut(&mut self, n: usize) -> Par<'_, &mut [T]>;
    }
    impl<T> ParallelSliceMut<T> for [T] {
        fn par_chunks_mut(&mut self, n: usize) -> Par<'_, &mut [T]> {
            Par::of(self.chunks_mut(n))
        }
    }
}
