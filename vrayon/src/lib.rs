use std::any::Any;
use std::collections::*;
use std::hash::{BuildHasher, Hash};
use std::ops::ControlFlow;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

pub mod prelude { pub use crate::iter::*; pub use crate::slice::*; }
pub mod slice { pub use crate::iter::{ParallelSlice, ParallelSliceMut}; }

/// Size of the pool: 0 = a worker for every item
pub static WORKERS: AtomicUsize = AtomicUsize::new(0);

pub fn current_num_threads() -> usize { WORKERS.load(Ordering::Relaxed).max(1) }
pub fn current_thread_index() -> Option<usize> { None }
pub fn max_num_threads() -> usize { 1 << 16 }

/// An item to be produced by a worker: nothing, one value or several
pub type Thunk<'a, T> = Box<dyn FnOnce() -> Vec<T> + Send + 'a>;

/// Runs the jobs on the workers; jobs see `full` set once one has asked to stop
pub(crate) fn run<'a, R: Send + 'a>(jobs: Vec<Box<dyn FnOnce() -> (R, bool) + Send + 'a>>) -> Vec<Option<R>> {
    let n = jobs.len();
    if n == 0 { return vec![]; }
    let w = match WORKERS.load(Ordering::Relaxed) { 0 => n, k => k.min(n) };
    let queue: Mutex<VecDeque<(usize, Box<dyn FnOnce() -> (R, bool) + Send + 'a>)>> = Mutex::new(jobs.into_iter().enumerate().collect());
    let out: Mutex<Vec<Option<R>>> = Mutex::new((0..n).map(|_| None).collect());
    let full = AtomicBool::new(false);
    let panic: Mutex<Option<Box<dyn Any + Send>>> = Mutex::new(None);
    vstd::thread::scope(|s| {
        for _ in 0..w {
            s.spawn(|| loop {
                vstd::ctl::point();
                let Some((i, job)) = queue.lock().unwrap().pop_front() else { break };
                if full.load(Ordering::SeqCst) { continue; }
                match catch_unwind(AssertUnwindSafe(job)) {
                    Ok((r, stop)) => { out.lock().unwrap()[i] = Some(r); if stop { full.store(true, Ordering::SeqCst); } }
                    Err(p) => { full.store(true, Ordering::SeqCst); panic.lock().unwrap().get_or_insert(p); }
                }
            });
        }
    });
    if let Some(p) = panic.into_inner().unwrap() { resume_unwind(p); }
    out.into_inner().unwrap()
}

fn drive<'a, T: Send + 'a, R: Send + 'a>(thunks: Vec<Thunk<'a, T>>, f: impl Fn(Vec<T>) -> (R, bool) + Sync + Send + 'a) -> Vec<Option<R>> {
    let f = Arc::new(f);
    run(thunks.into_iter().map(|t| { let f = f.clone(); Box::new(move || f(t())) as Box<dyn FnOnce() -> (R, bool) + Send + 'a> }).collect())
}
fn gather<'a, T: Send + 'a>(thunks: Vec<Thunk<'a, T>>) -> Vec<T> { drive(thunks, |v| (v, false)).into_iter().flatten().flatten().collect() }

pub struct Par<'a, T> { thunks: Vec<Thunk<'a, T>> }

pub mod iter {
    use super::*;

    pub trait IntoParallelIterator { type Item: Send; type Iter: ParallelIterator<Item = Self::Item>; fn into_par_iter(self) -> Self::Iter; }
    pub trait IntoParallelRefIterator<'a> { type Item: Send + 'a; type Iter: ParallelIterator<Item = Self::Item>; fn par_iter(&'a self) -> Self::Iter; }
    pub trait IntoParallelRefMutIterator<'a> { type Item: Send + 'a; type Iter: ParallelIterator<Item = Self::Item>; fn par_iter_mut(&'a mut self) -> Self::Iter; }
    impl<'a, C: 'a + ?Sized, T: Send + 'a> IntoParallelRefIterator<'a> for C where &'a C: IntoParallelIterator<Item = T> {
        type Item = T; type Iter = <&'a C as IntoParallelIterator>::Iter;
        fn par_iter(&'a self) -> Self::Iter { self.into_par_iter() }
    }
    impl<'a, C: 'a + ?Sized, T: Send + 'a> IntoParallelRefMutIterator<'a> for C where &'a mut C: IntoParallelIterator<Item = T> {
        type Item = T; type Iter = <&'a mut C as IntoParallelIterator>::Iter;
        fn par_iter_mut(&'a mut self) -> Self::Iter { self.into_par_iter() }
    }
    fn of<'a, T: Send + 'a>(i: impl Iterator<Item = T>) -> Par<'a, T> { Par { thunks: i.map(|x| Box::new(move || vec![x]) as Thunk<'a, T>).collect() } }
    macro_rules! source {
        ($([$($g:tt)*] $t:ty, $lt:lifetime, $item:ty;)*) => { $( impl<$($g)*> IntoParallelIterator for $t { type Item = $item; type Iter = Par<$lt, $item>; fn into_par_iter(self) -> Self::Iter { of(self.into_iter()) } } )* };
    }
    source! {
        [T: Send + 'static] Vec<T>, 'static, T;
        [T: Send + 'static] VecDeque<T>, 'static, T;
        [T: Send + 'static] Option<T>, 'static, T;
        [T: Send + Ord + 'static] BTreeSet<T>, 'static, T;
        [K: Send + Ord + 'static, V: Send + 'static] BTreeMap<K, V>, 'static, (K, V);
        [T: Send + Hash + Eq + 'static, S: BuildHasher] HashSet<T, S>, 'static, T;
        [K: Send + Hash + Eq + 'static, V: Send + 'static, S: BuildHasher] HashMap<K, V, S>, 'static, (K, V);
        ['a, T: Sync + 'a] &'a [T], 'a, &'a T;
        ['a, T: Sync + 'a] &'a Vec<T>, 'a, &'a T;
        ['a, T: Sync + 'a] &'a VecDeque<T>, 'a, &'a T;
        ['a, T: Send + 'a] &'a mut [T], 'a, &'a mut T;
        ['a, T: Send + 'a] &'a mut Vec<T>, 'a, &'a mut T;
        ['a, K: Sync + Hash + Eq + 'a, V: Sync + 'a, S: BuildHasher] &'a HashMap<K, V, S>, 'a, (&'a K, &'a V);
        ['a, T: Sync + Hash + Eq + 'a, S: BuildHasher] &'a HashSet<T, S>, 'a, &'a T;
        ['a, K: Sync + Ord + 'a, V: Sync + 'a] &'a BTreeMap<K, V>, 'a, (&'a K, &'a V);
        [] std::ops::Range<usize>, 'static, usize;
        [] std::ops::Range<u32>, 'static, u32;
        [] std::ops::Range<u64>, 'static, u64;
        [] std::ops::Range<i32>, 'static, i32;
        [] std::ops::Range<u8>, 'static, u8;
        [] std::ops::RangeInclusive<usize>, 'static, usize;
        [] std::ops::RangeInclusive<u32>, 'static, u32;
    }
    impl<T: Send + 'static, const N: usize> IntoParallelIterator for [T; N] { type Item = T; type Iter = Par<'static, T>; fn into_par_iter(self) -> Self::Iter { of(self.into_iter()) } }
    impl<I: ParallelIterator> IntoParallelIterator for I { type Item = I::Item; type Iter = I; fn into_par_iter(self) -> I { self } }

    pub trait ParallelBridge: Sized { type Item: Send; fn par_bridge<'a>(self) -> Par<'a, Self::Item> where Self: 'a, Self::Item: 'a; }
    impl<T: Send, I: Iterator<Item = T> + Send> ParallelBridge for I { type Item = T; fn par_bridge<'a>(self) -> Par<'a, T> where Self: 'a, T: 'a { of(self) } }

    pub trait ParallelSlice<T: Sync> {
        fn sl(&self) -> &[T];
        fn par_chunks(&self, n: usize) -> Par<'_, &[T]> { of(self.sl().chunks(n)) }
        fn par_chunks_exact(&self, n: usize) -> Par<'_, &[T]> { of(self.sl().chunks_exact(n)) }
        fn par_windows(&self, n: usize) -> Par<'_, &[T]> { of(self.sl().windows(n)) }
    }
    impl<T: Sync> ParallelSlice<T> for [T] { fn sl(&self) -> &[T] { self } }
    pub trait ParallelSliceMut<T: Send> {
        fn sm(&mut self) -> &mut [T];
        fn par_chunks_mut(&mut self, n: usize) -> Par<'_, &mut [T]> { of(self.sm().chunks_mut(n)) }
        fn par_sort(&mut self) where T: Ord { self.sm().sort() }
        fn par_sort_unstable(&mut self) where T: Ord { self.sm().sort_unstable() }
        fn par_sort_by<F: Fn(&T, &T) -> std::cmp::Ordering + Sync>(&mut self, f: F) { self.sm().sort_by(f) }
        fn par_sort_by_key<K: Ord, F: Fn(&T) -> K + Sync>(&mut self, f: F) { self.sm().sort_by_key(f) }
        fn par_sort_unstable_by<F: Fn(&T, &T) -> std::cmp::Ordering + Sync>(&mut self, f: F) { self.sm().sort_unstable_by(f) }
        fn par_sort_unstable_by_key<K: Ord, F: Fn(&T) -> K + Sync>(&mut self, f: F) { self.sm().sort_unstable_by_key(f) }
    }
    impl<T: Send> ParallelSliceMut<T> for [T] { fn sm(&mut self) -> &mut [T] { self } }

    pub trait FromParallelIterator<T: Send>: Sized { fn from_thunks<'a>(t: Vec<Thunk<'a, T>>) -> Self where T: 'a, Self: 'a; }
    macro_rules! collects { ($([$($g:tt)*] $c:ty, $t:ty;)*) => { $( impl<$($g)*> FromParallelIterator<$t> for $c { fn from_thunks<'a>(t: Vec<Thunk<'a, $t>>) -> Self where $t: 'a, Self: 'a { gather(t).into_iter().collect() } } )* } }
    collects! {
        [T: Send] Vec<T>, T; [T: Send] VecDeque<T>, T; [T: Send] LinkedList<T>, T; [T: Send] Box<[T]>, T;
        [T: Send + Ord] BTreeSet<T>, T; [T: Send + Ord] BinaryHeap<T>, T; [K: Send + Ord, V: Send] BTreeMap<K, V>, (K, V);
        [T: Send + Hash + Eq, S: BuildHasher + Default + Send] HashSet<T, S>, T; [K: Send + Hash + Eq, V: Send, S: BuildHasher + Default + Send] HashMap<K, V, S>, (K, V);
        [] String, char; [] String, String; [] (), ();
    }
    impl<T: Send, E: Send, C: FromParallelIterator<T> + Send> FromParallelIterator<Result<T, E>> for Result<C, E> {
        fn from_thunks<'a>(t: Vec<Thunk<'a, Result<T, E>>>) -> Self where Result<T, E>: 'a, Self: 'a {
            let mut oks: Vec<T> = vec![];
            for r in drive(t, |v| { let e = v.iter().any(|r| r.is_err()); (v, e) }).into_iter().flatten().flatten() { oks.push(r?); }
            let mut c: Option<C> = None;
            std::thread::scope(|_| c = Some(C::from_thunks(seq(oks))));
            Ok(c.unwrap())
        }
    }
    impl<T: Send, C: FromParallelIterator<T> + Send> FromParallelIterator<Option<T>> for Option<C> {
        fn from_thunks<'a>(t: Vec<Thunk<'a, Option<T>>>) -> Self where Option<T>: 'a, Self: 'a {
            let mut oks: Vec<T> = vec![];
            for r in drive(t, |v| { let e = v.iter().any(|r| r.is_none()); (v, e) }).into_iter().flatten().flatten() { oks.push(r?); }
            Some(C::from_thunks(seq(oks)))
        }
    }
    fn seq<'a, T: Send + 'a>(v: Vec<T>) -> Vec<Thunk<'a, T>> { vec![Box::new(move || v)] }

    /// So that try_for_each accepts Result and Option alike
    pub trait Trying: Send { type Output; fn cont() -> Self; fn flow(self) -> ControlFlow<Self, ()> where Self: Sized; }
    impl<E: Send> Trying for Result<(), E> { type Output = (); fn cont() -> Self { Ok(()) } fn flow(self) -> ControlFlow<Self, ()> { match self { Ok(()) => ControlFlow::Continue(()), e => ControlFlow::Break(e) } } }
    impl Trying for Option<()> { type Output = (); fn cont() -> Self { Some(()) } fn flow(self) -> ControlFlow<Self, ()> { match self { Some(()) => ControlFlow::Continue(()), None => ControlFlow::Break(None) } } }

    impl<'p, T: Send + 'p> ParallelIterator for Par<'p, T> {
        type Item = T;
        fn thunks<'a>(self) -> Vec<Thunk<'a, T>> where Self: 'a {
            // Par<'p, T>: 'a means that everything captured outlives 'a
            unsafe { std::mem::transmute::<Vec<Thunk<'p, T>>, Vec<Thunk<'a, T>>>(self.thunks) }
        }
    }
    impl<'p, T: Send + 'p> IndexedParallelIterator for Par<'p, T> {}

    macro_rules! then { ($self:ident, $lt:lifetime, |$v:ident| $e:expr) => { Par { thunks: $self.thunks().into_iter().map(|t: Thunk<$lt, Self::Item>| { Box::new(move || { let $v = t(); $e }) as Thunk<$lt, _> }).collect() } }; ($self:ident, $lt:lifetime, $f:ident, |$v:ident| $e:expr) => {{ let f = Arc::new($f); Par { thunks: $self.thunks().into_iter().map(|t: Thunk<$lt, Self::Item>| { let $f = f.clone(); Box::new(move || { let $v = t(); $e }) as Thunk<$lt, _> }).collect() } }} }

    pub trait ParallelIterator: Sized + Send {
        type Item: Send;
        fn thunks<'a>(self) -> Vec<Thunk<'a, Self::Item>> where Self: 'a;

        fn map<'a, R: Send + 'a, F: Fn(Self::Item) -> R + Sync + Send + 'a>(self, f: F) -> Par<'a, R> where Self: 'a, Self::Item: 'a { then!(self, 'a, f, |v| v.into_iter().map(|x| f(x)).collect()) }
        fn map_with<'a, S: Clone + Send + 'a, R: Send + 'a, F: Fn(&mut S, Self::Item) -> R + Sync + Send + 'a>(self, s: S, f: F) -> Par<'a, R> where Self: 'a, Self::Item: 'a {
            let f = Arc::new(f);
            Par { thunks: self.thunks().into_iter().map(|t: Thunk<'a, Self::Item>| { let f = f.clone(); let mut s = s.clone(); Box::new(move || t().into_iter().map(|x| f(&mut s, x)).collect()) as Thunk<'a, R> }).collect() }
        }
        fn map_init<'a, S: 'a, R: Send + 'a, I: Fn() -> S + Sync + Send + 'a, F: Fn(&mut S, Self::Item) -> R + Sync + Send + 'a>(self, init: I, f: F) -> Par<'a, R> where Self: 'a, Self::Item: 'a { let g = (init, f); then!(self, 'a, g, |v| { let mut s = (g.0)(); v.into_iter().map(|x| (g.1)(&mut s, x)).collect() }) }
        fn filter<'a, F: Fn(&Self::Item) -> bool + Sync + Send + 'a>(self, f: F) -> Par<'a, Self::Item> where Self: 'a, Self::Item: 'a { then!(self, 'a, f, |v| v.into_iter().filter(|x| f(x)).collect()) }
        fn filter_map<'a, R: Send + 'a, F: Fn(Self::Item) -> Option<R> + Sync + Send + 'a>(self, f: F) -> Par<'a, R> where Self: 'a, Self::Item: 'a { then!(self, 'a, f, |v| v.into_iter().filter_map(|x| f(x)).collect()) }
        fn flat_map<'a, P: IntoParallelIterator, F: Fn(Self::Item) -> P + Sync + Send + 'a>(self, f: F) -> Par<'a, P::Item> where Self: 'a, Self::Item: 'a, P::Item: 'a, P::Iter: 'a { then!(self, 'a, f, |v| v.into_iter().flat_map(|x| gather(f(x).into_par_iter().thunks())).collect()) }
        fn flat_map_iter<'a, P: IntoIterator, F: Fn(Self::Item) -> P + Sync + Send + 'a>(self, f: F) -> Par<'a, P::Item> where Self: 'a, Self::Item: 'a, P::Item: Send + 'a { then!(self, 'a, f, |v| v.into_iter().flat_map(|x| f(x)).collect()) }
        fn flatten_iter<'a, R: Send + 'a>(self) -> Par<'a, R> where Self: 'a, Self::Item: IntoIterator<Item = R> + 'a { then!(self, 'a, |v| v.into_iter().flatten().collect()) }
        fn flatten<'a, R: Send + 'a>(self) -> Par<'a, R> where Self: 'a, Self::Item: IntoIterator<Item = R> + 'a { self.flatten_iter() }
        fn inspect<'a, F: Fn(&Self::Item) + Sync + Send + 'a>(self, f: F) -> Par<'a, Self::Item> where Self: 'a, Self::Item: 'a { then!(self, 'a, f, |v| { v.iter().for_each(|x| f(x)); v }) }
        fn update<'a, F: Fn(&mut Self::Item) + Sync + Send + 'a>(self, f: F) -> Par<'a, Self::Item> where Self: 'a, Self::Item: 'a { then!(self, 'a, f, |v| { let mut v = v; v.iter_mut().for_each(|x| f(x)); v }) }
        fn cloned<'a, 'b, R: Clone + Send + Sync + 'a + 'b>(self) -> Par<'a, R> where Self: ParallelIterator<Item = &'b R> + 'a, 'b: 'a { let f = |x: &'b R| x.clone(); self.map(f) }
        fn copied<'a, 'b, R: Copy + Send + Sync + 'a + 'b>(self) -> Par<'a, R> where Self: ParallelIterator<Item = &'b R> + 'a, 'b: 'a { let f = |x: &'b R| *x; self.map(f) }
        fn chain<'a, C: IntoParallelIterator<Item = Self::Item>>(self, c: C) -> Par<'a, Self::Item> where Self: 'a, Self::Item: 'a, C::Iter: 'a { let mut t = self.thunks(); t.extend(c.into_par_iter().thunks()); Par { thunks: t } }
        fn panic_fuse(self) -> Self { self }
        fn fold<'a, T: Send + 'a, I: Fn() -> T + Sync + Send + 'a, F: Fn(T, Self::Item) -> T + Sync + Send + 'a>(self, id: I, f: F) -> Par<'a, T> where Self: 'a, Self::Item: 'a { let g = (id, f); then!(self, 'a, g, |v| vec![v.into_iter().fold((g.0)(), |a, x| (g.1)(a, x))]) }

        fn for_each<F: Fn(Self::Item) + Sync + Send>(self, f: F) { drive(self.thunks(), |v| (v.into_iter().for_each(&f), false)); }
        fn for_each_with<S: Clone + Send, F: Fn(&mut S, Self::Item) + Sync + Send>(self, s: S, f: F) { self.map_with(s, f).for_each(|()| ()) }
        fn for_each_init<S, I: Fn() -> S + Sync + Send, F: Fn(&mut S, Self::Item) + Sync + Send>(self, i: I, f: F) { drive(self.thunks(), |v| { let mut s = i(); (v.into_iter().for_each(|x| f(&mut s, x)), false) }); }
        fn try_for_each<R: Trying, F: Fn(Self::Item) -> R + Sync + Send>(self, f: F) -> R {
            let rs = drive(self.thunks(), |v| { for x in v { if let ControlFlow::Break(r) = f(x).flow() { return (Some(r), true); } } (None, false) });
            for r in rs.into_iter().flatten().flatten() { return r; }
            R::cont()
        }
        fn try_for_each_with<S: Clone + Send, R: Trying, F: Fn(&mut S, Self::Item) -> R + Sync + Send>(self, s: S, f: F) -> R { self.map_with(s, f).try_for_each(|r| r) }
        fn collect<C: FromParallelIterator<Self::Item>>(self) -> C { C::from_thunks(self.thunks()) }
        fn count(self) -> usize { gather(self.thunks()).len() }
        fn sum<S: std::iter::Sum<Self::Item> + Send>(self) -> S { gather(self.thunks()).into_iter().sum() }
        fn product<S: std::iter::Product<Self::Item> + Send>(self) -> S { gather(self.thunks()).into_iter().product() }
        fn min(self) -> Option<Self::Item> where Self::Item: Ord { gather(self.thunks()).into_iter().min() }
        fn max(self) -> Option<Self::Item> where Self::Item: Ord { gather(self.thunks()).into_iter().max() }
        fn min_by<F: Fn(&Self::Item, &Self::Item) -> std::cmp::Ordering + Sync + Send>(self, f: F) -> Option<Self::Item> { gather(self.thunks()).into_iter().min_by(f) }
        fn max_by<F: Fn(&Self::Item, &Self::Item) -> std::cmp::Ordering + Sync + Send>(self, f: F) -> Option<Self::Item> { gather(self.thunks()).into_iter().max_by(f) }
        fn min_by_key<K: Ord + Send, F: Fn(&Self::Item) -> K + Sync + Send>(self, f: F) -> Option<Self::Item> { gather(self.thunks()).into_iter().min_by_key(f) }
        fn max_by_key<K: Ord + Send, F: Fn(&Self::Item) -> K + Sync + Send>(self, f: F) -> Option<Self::Item> { gather(self.thunks()).into_iter().max_by_key(f) }
        fn any<F: Fn(Self::Item) -> bool + Sync + Send>(self, f: F) -> bool { drive(self.thunks(), |v| { let r = v.into_iter().any(&f); (r, r) }).into_iter().flatten().any(|b| b) }
        fn all<F: Fn(Self::Item) -> bool + Sync + Send>(self, f: F) -> bool { !self.any(|x| !f(x)) }
        fn find_any<F: Fn(&Self::Item) -> bool + Sync + Send>(self, f: F) -> Option<Self::Item> { drive(self.thunks(), |v| { let r = v.into_iter().find(&f); let s = r.is_some(); (r, s) }).into_iter().flatten().flatten().next() }
        fn find_first<F: Fn(&Self::Item) -> bool + Sync + Send>(self, f: F) -> Option<Self::Item> { gather(self.thunks()).into_iter().find(f) }
        fn reduce<I: Fn() -> Self::Item + Sync + Send, F: Fn(Self::Item, Self::Item) -> Self::Item + Sync + Send>(self, id: I, f: F) -> Self::Item { gather(self.thunks()).into_iter().fold(id(), f) }
        fn reduce_with<F: Fn(Self::Item, Self::Item) -> Self::Item + Sync + Send>(self, f: F) -> Option<Self::Item> { gather(self.thunks()).into_iter().reduce(f) }
        fn partition<A: Default + Send + Extend<Self::Item>, B: Default + Send + Extend<Self::Item>, F: Fn(&Self::Item) -> bool + Sync + Send>(self, f: F) -> (A, B) {
            let (mut a, mut b) = (A::default(), B::default());
            for x in gather(self.thunks()) { if f(&x) { a.extend(Some(x)) } else { b.extend(Some(x)) } }
            (a, b)
        }
        fn unzip<X: Send, Y: Send, A: Default + Send + Extend<X>, B: Default + Send + Extend<Y>>(self) -> (A, B) where Self: ParallelIterator<Item = (X, Y)> { gather(self.thunks()).into_iter().unzip() }
    }
    pub trait IndexedParallelIterator: ParallelIterator {
        fn enumerate<'a>(self) -> Par<'a, (usize, Self::Item)> where Self: 'a, Self::Item: 'a { Par { thunks: self.thunks().into_iter().enumerate().map(|(i, t): (usize, Thunk<'a, Self::Item>)| Box::new(move || t().into_iter().map(|x| (i, x)).collect()) as Thunk<'a, _>).collect() } }
        fn zip<'a, Z: IntoParallelIterator>(self, z: Z) -> Par<'a, (Self::Item, Z::Item)> where Self: 'a, Self::Item: 'a, Z::Item: 'a, Z::Iter: 'a { Par { thunks: self.thunks().into_iter().zip(z.into_par_iter().thunks()).map(|(t, u): (Thunk<'a, Self::Item>, Thunk<'a, Z::Item>)| Box::new(move || t().into_iter().zip(u()).collect()) as Thunk<'a, _>).collect() } }
        fn rev<'a>(self) -> Par<'a, Self::Item> where Self: 'a, Self::Item: 'a { let mut t = self.thunks(); t.reverse(); Par { thunks: t } }
        fn take<'a>(self, n: usize) -> Par<'a, Self::Item> where Self: 'a, Self::Item: 'a { let mut t = self.thunks(); t.truncate(n); Par { thunks: t } }
        fn skip<'a>(self, n: usize) -> Par<'a, Self::Item> where Self: 'a, Self::Item: 'a { Par { thunks: self.thunks().into_iter().skip(n).collect() } }
        fn chunks<'a>(self, n: usize) -> Par<'a, Vec<Self::Item>> where Self: 'a, Self::Item: 'a {
            let mut out: Vec<Thunk<'a, Vec<Self::Item>>> = vec![];
            let mut it = self.thunks().into_iter();
            loop { let c: Vec<Thunk<'a, Self::Item>> = it.by_ref().take(n).collect(); if c.is_empty() { break; } out.push(Box::new(move || vec![c.into_iter().flat_map(|t| t()).collect()])); }
            Par { thunks: out }
        }
        fn with_min_len(self, _: usize) -> Self { self }
        fn with_max_len(self, _: usize) -> Self { self }
        fn collect_into_vec(self, v: &mut Vec<Self::Item>) { *v = gather(self.thunks()); }
        fn len(&self) -> usize where Self: Clone { self.clone().thunks().len() }
    }
}

/* tasks */

pub fn join<A: FnOnce() -> RA + Send, B: FnOnce() -> RB + Send, RA: Send, RB: Send>(a: A, b: B) -> (RA, RB) {
    vstd::thread::scope(|s| {
        let h = s.spawn(b);
        let ra = catch_unwind(AssertUnwindSafe(a));
        let rb = h.join();
        match (ra, rb) { (Ok(a), Ok(b)) => (a, b), (Err(p), _) | (_, Err(p)) => resume_unwind(p) }
    })
}
pub struct Scope<'scope> { jobs: Mutex<Vec<Box<dyn FnOnce(&Scope<'scope>) + Send + 'scope>>> }
impl<'scope> Scope<'scope> {
    pub fn spawn<F: FnOnce(&Scope<'scope>) + Send + 'scope>(&self, f: F) { self.jobs.lock().unwrap().push(Box::new(f)); }
}
pub fn scope<'scope, F: FnOnce(&Scope<'scope>) -> R + Send, R: Send>(f: F) -> R {
    let s = Scope { jobs: Mutex::new(vec![]) };
    let r = f(&s);
    loop {
        let jobs = std::mem::take(&mut *s.jobs.lock().unwrap());
        if jobs.is_empty() { return r; }
        let sr = &s;
        vstd::thread::scope(|t| { for j in jobs { t.spawn(move || j(sr)); } });
    }
}
pub fn spawn<F: FnOnce() + Send + 'static>(f: F) { vstd::thread::spawn(f); }

pub struct ThreadPool(());
impl ThreadPool {
    pub fn install<R: Send, F: FnOnce() -> R + Send>(&self, f: F) -> R { f() }
    pub fn join<A: FnOnce() -> RA + Send, B: FnOnce() -> RB + Send, RA: Send, RB: Send>(&self, a: A, b: B) -> (RA, RB) { join(a, b) }
    pub fn scope<'scope, F: FnOnce(&Scope<'scope>) -> R + Send, R: Send>(&self, f: F) -> R { scope(f) }
    pub fn spawn<F: FnOnce() + Send + 'static>(&self, f: F) { spawn(f) }
    pub fn current_num_threads(&self) -> usize { current_num_threads() }
}
#[derive(Debug)]
pub struct ThreadPoolBuildError(());
impl std::fmt::Display for ThreadPoolBuildError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("thread pool") } }
impl std::error::Error for ThreadPoolBuildError {}
#[derive(Default)]
pub struct ThreadPoolBuilder(());
impl ThreadPoolBuilder {
    pub fn new() -> Self { Self::default() }
    pub fn num_threads(self, n: usize) -> Self { if n > 0 { WORKERS.store(n, Ordering::Relaxed); } self }
    pub fn thread_name<F: FnMut(usize) -> String + 'static>(self, _: F) -> Self { self }
    pub fn stack_size(self, _: usize) -> Self { self }
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> { Ok(ThreadPool(())) }
    pub fn build_global(self) -> Result<(), ThreadPoolBuildError> { Ok(()) }
}
