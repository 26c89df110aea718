//! Stand-in for rayon: each item of a parallel iterator is a task; the tasks run in order, or as threads whose schedule the
//! harness chooses (`sched`). What they give is collected in the order of the items, as rayon promises for indexed iterators.
pub mod prelude {
    use std::rc::Rc;

    type Emit<'e, T> = &'e mut dyn FnMut(T);
    type Task<'a, T> = Box<dyn FnOnce(Emit<T>) + 'a>;

    /// A parallel iterator: tasks that have not run, or what they gave.
    pub struct Par<'a, T> {
        tasks: Vec<Task<'a, T>>,
        items: std::vec::IntoIter<T>,
    }
    impl<'a, T: 'a> Par<'a, T> {
        pub(crate) fn of<I: Iterator<Item = T>>(i: I) -> Self {
            Par { tasks: Vec::new(), items: i.collect::<Vec<T>>().into_iter() }
        }
        /// Each task followed by `f`.
        fn then<R: 'a, F: Fn(T, Emit<R>) + 'a>(self, f: F) -> Par<'a, R> {
            let f = Rc::new(f);
            let mut tasks: Vec<Task<'a, R>> = Vec::new();
            for t in self.tasks {
                let f = f.clone();
                tasks.push(Box::new(move |e| t(&mut |x| f(x, e))));
            }
            for x in self.items {
                let f = f.clone();
                tasks.push(Box::new(move |e| f(x, e)));
            }
            Par { tasks, items: Vec::new().into_iter() }
        }
        fn done(mut self) -> std::vec::IntoIter<T> {
            self.run();
            std::mem::replace(&mut self.items, Vec::new().into_iter())
        }
        fn run(&mut self) {
            if self.tasks.is_empty() {
                return;
            }
            let tasks = std::mem::replace(&mut self.tasks, Vec::new());
            let mut out: Vec<Vec<T>> = tasks.iter().map(|_| Vec::new()).collect();
            let jobs = tasks.into_iter().zip(out.iter_mut()).map(|(t, v)| Box::new(move || t(&mut |x| v.push(x))) as Box<dyn FnOnce()>).collect();
            sched::run_all(jobs);
            let all: Vec<T> = out.into_iter().flatten().collect();
            self.items = all.into_iter();
        }
    }
    impl<'a, T: 'a> Iterator for Par<'a, T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            self.run();
            self.items.next()
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            if self.tasks.is_empty() {
                self.items.size_hint()
            } else {
                (0, None)
            }
        }
    }
    impl<'a, T: 'a> DoubleEndedIterator for Par<'a, T> {
        fn next_back(&mut self) -> Option<T> {
            self.run();
            self.items.next_back()
        }
    }
    impl<'a, T: 'a> Par<'a, T> {
        pub fn map<R: 'a, F: Fn(T) -> R + 'a>(self, f: F) -> Par<'a, R> {
            self.then(move |x, e| e(f(x)))
        }
        pub fn filter<F: Fn(&T) -> bool + 'a>(self, f: F) -> Par<'a, T> {
            self.then(move |x, e| {
                if f(&x) {
                    e(x)
                }
            })
        }
        pub fn filter_map<R: 'a, F: Fn(T) -> Option<R> + 'a>(self, f: F) -> Par<'a, R> {
            self.then(move |x, e| {
                if let Some(r) = f(x) {
                    e(r)
                }
            })
        }
        pub fn flat_map<R: IntoIterator, F: Fn(T) -> R + 'a>(self, f: F) -> Par<'a, R::Item>
        where
            R::Item: 'a,
        {
            self.then(move |x, e| {
                for r in f(x) {
                    e(r)
                }
            })
        }
        pub fn flat_map_iter<R: IntoIterator, F: Fn(T) -> R + 'a>(self, f: F) -> Par<'a, R::Item>
        where
            R::Item: 'a,
        {
            self.flat_map(f)
        }
        pub fn flatten(self) -> Par<'a, T::Item>
        where
            T: IntoIterator,
            T::Item: 'a,
        {
            self.flat_map(|x| x)
        }
        pub fn flatten_iter(self) -> Par<'a, T::Item>
        where
            T: IntoIterator,
            T::Item: 'a,
        {
            self.flat_map(|x| x)
        }
        pub fn inspect<F: Fn(&T) + 'a>(self, f: F) -> Par<'a, T> {
            self.map(move |x| {
                f(&x);
                x
            })
        }
        pub fn update<F: Fn(&mut T) + 'a>(self, f: F) -> Par<'a, T> {
            self.map(move |mut x| {
                f(&mut x);
                x
            })
        }
        pub fn for_each<F: Fn(T) + 'a>(self, f: F) {
            self.map(f).done();
        }
        pub fn enumerate(self) -> Par<'a, (usize, T)> {
            Par::of(self.done().enumerate())
        }
        pub fn zip<B: IntoIterator>(self, b: B) -> Par<'a, (T, B::Item)>
        where
            B::Item: 'a,
        {
            Par::of(self.done().zip(b))
        }
        pub fn chain<B: IntoIterator<Item = T>>(self, b: B) -> Par<'a, T> {
            Par::of(self.done().chain(b))
        }
        pub fn rev(self) -> Par<'a, T> {
            Par::of(self.done().rev())
        }
        pub fn with_min_len(self, _n: usize) -> Self {
            self
        }
        pub fn with_max_len(self, _n: usize) -> Self {
            self
        }
        pub fn fold<U: 'a, D: Fn() -> U + 'a, F: Fn(U, T) -> U + 'a>(self, id: D, f: F) -> Par<'a, U> {
            self.map(move |x| f(id(), x))
        }
        pub fn reduce<D: Fn() -> T, F: Fn(T, T) -> T>(self, id: D, f: F) -> T {
            self.done().fold(id(), f)
        }
        pub fn reduce_with<F: Fn(T, T) -> T>(self, f: F) -> Option<T> {
            let mut i = self.done();
            let first = i.next()?;
            Some(i.fold(first, f))
        }
        pub fn map_init<U, R: 'a, D: Fn() -> U + 'a, F: Fn(&mut U, T) -> R + 'a>(self, id: D, f: F) -> Par<'a, R> {
            self.map(move |x| f(&mut id(), x))
        }
        pub fn map_with<U: Clone + 'a, R: 'a, F: Fn(&mut U, T) -> R + 'a>(self, t: U, f: F) -> Par<'a, R> {
            self.map(move |x| f(&mut t.clone(), x))
        }
        pub fn for_each_with<U: Clone + 'a, F: Fn(&mut U, T) + 'a>(self, t: U, f: F) {
            self.for_each(move |x| f(&mut t.clone(), x))
        }
        pub fn for_each_init<U, D: Fn() -> U + 'a, F: Fn(&mut U, T) + 'a>(self, id: D, f: F) {
            self.for_each(move |x| f(&mut id(), x))
        }
        pub fn collect_into_vec(self, v: &mut Vec<T>) {
            v.clear();
            v.extend(self.done())
        }
        pub fn try_for_each<E: 'a, F: Fn(T) -> Result<(), E> + 'a>(self, f: F) -> Result<(), E> {
            let r: Vec<Result<(), E>> = self.map(f).done().collect();
            r.into_iter().collect()
        }
        pub fn find_any<F: Fn(&T) -> bool>(self, f: F) -> Option<T> {
            let mut found: Vec<T> = self.done().filter(|x| f(x)).collect();
            if found.is_empty() {
                return None;
            }
            let k = sched::any_of(found.len());
            Some(found.swap_remove(k))
        }
        pub fn find_first<F: Fn(&T) -> bool>(self, f: F) -> Option<T> {
            self.done().find(|x| f(x))
        }
        pub fn find_last<F: Fn(&T) -> bool>(self, f: F) -> Option<T> {
            self.done().rev().find(|x| f(x))
        }
        pub fn find_map_any<R, F: Fn(T) -> Option<R>>(self, f: F) -> Option<R> {
            let mut found: Vec<R> = self.done().filter_map(|x| f(x)).collect();
            if found.is_empty() {
                return None;
            }
            let k = sched::any_of(found.len());
            Some(found.swap_remove(k))
        }
        pub fn position_first<F: Fn(T) -> bool>(self, f: F) -> Option<usize> {
            self.done().position(|x| f(x))
        }
    }
    impl<'a, 'b: 'a, T: 'b> Par<'a, &'b T> {
        pub fn cloned(self) -> Par<'a, T>
        where
            T: Clone,
        {
            self.map(|x| x.clone())
        }
        pub fn copied(self) -> Par<'a, T>
        where
            T: Copy,
        {
            self.map(|x| *x)
        }
    }

    pub trait ParallelIterator: Iterator {}
    impl<I: Iterator> ParallelIterator for I {}
    pub trait IndexedParallelIterator: Iterator {}
    impl<I: Iterator> IndexedParallelIterator for I {}

    pub trait IntoParallelIterator {
        type Item;
        fn into_par_iter<'a>(self) -> Par<'a, Self::Item>
        where
            Self::Item: 'a;
    }
    impl<I: IntoIterator> IntoParallelIterator for I {
        type Item = I::Item;
        fn into_par_iter<'a>(self) -> Par<'a, I::Item>
        where
            I::Item: 'a,
        {
            Par::of(self.into_iter())
        }
    }
    pub trait IntoParallelRefIterator<'a> {
        type Item: 'a;
        fn par_iter(&'a self) -> Par<'a, Self::Item>;
    }
    impl<'a, I: 'a + ?Sized> IntoParallelRefIterator<'a> for I
    where
        &'a I: IntoIterator,
        <&'a I as IntoIterator>::Item: 'a,
    {
        type Item = <&'a I as IntoIterator>::Item;
        fn par_iter(&'a self) -> Par<'a, Self::Item> {
            Par::of(self.into_iter())
        }
    }
    pub trait IntoParallelRefMutIterator<'a> {
        type Item: 'a;
        fn par_iter_mut(&'a mut self) -> Par<'a, Self::Item>;
    }
    impl<'a, I: 'a + ?Sized> IntoParallelRefMutIterator<'a> for I
    where
        &'a mut I: IntoIterator,
        <&'a mut I as IntoIterator>::Item: 'a,
    {
        type Item = <&'a mut I as IntoIterator>::Item;
        fn par_iter_mut(&'a mut self) -> Par<'a, Self::Item> {
            Par::of(self.into_iter())
        }
    }
    pub trait ParallelBridge: Iterator + Sized {
        fn par_bridge<'a>(self) -> Par<'a, Self::Item>
        where
            Self::Item: 'a;
    }
    impl<I: Iterator> ParallelBridge for I {
        fn par_bridge<'a>(self) -> Par<'a, I::Item>
        where
            I::Item: 'a,
        {
            Par::of(self)
        }
    }
    pub trait ParallelExtend<T> {
        fn par_extend<I: IntoIterator<Item = T>>(&mut self, i: I);
    }
    impl<T, C: Extend<T>> ParallelExtend<T> for C {
        fn par_extend<I: IntoIterator<Item = T>>(&mut self, i: I) {
            self.extend(i)
        }
    }
    pub trait ParallelSlice<T> {
        fn par_chunks(&self, n: usize) -> Par<'_, &[T]>;
        fn par_windows(&self, n: usize) -> Par<'_, &[T]>;
    }
    impl<T> ParallelSlice<T> for [T] {
        fn par_chunks(&self, n: usize) -> Par<'_, &[T]> {
            Par::of(self.chunks(n))
        }
        fn par_windows(&self, n: usize) -> Par<'_, &[T]> {
            Par::of(self.windows(n))
        }
    }
    pub trait ParallelSliceMut<T> {
        fn par_sort(&mut self)
        where
            T: Ord;
        fn par_sort_by<F: Fn(&T, &T) -> std::cmp::Ordering>(&mut self, f: F);
        fn par_sort_by_key<K: Ord, F: Fn(&T) -> K>(&mut self, f: F);
        fn par_sort_unstable(&mut self)
        where
            T: Ord;
        fn par_sort_unstable_by<F: Fn(&T, &T) -> std::cmp::Ordering>(&mut self, f: F);
        fn par_sort_unstable_by_key<K: Ord, F: Fn(&T) -> K>(&mut self, f: F);
    }
    impl<T> ParallelSliceMut<T> for [T] {
        fn par_sort(&mut self)
        where
            T: Ord,
        {
            self.sort()
        }
        fn par_sort_by<F: Fn(&T, &T) -> std::cmp::Ordering>(&mut self, f: F) {
            self.sort_by(f)
        }
        fn par_sort_by_key<K: Ord, F: Fn(&T) -> K>(&mut self, f: F) {
            self.sort_by_key(f)
        }
        fn par_sort_unstable(&mut self)
        where
            T: Ord,
        {
            self.sort_unstable()
        }
        fn par_sort_unstable_by<F: Fn(&T, &T) -> std::cmp::Ordering>(&mut self, f: F) {
            self.sort_unstable_by(f)
        }
        fn par_sort_unstable_by_key<K: Ord, F: Fn(&T) -> K>(&mut self, f: F) {
            self.sort_unstable_by_key(f)
        }
    }
}
pub use prelude as iter;
pub use prelude as slice;

pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce() -> RA,
    B: FnOnce() -> RB,
{
    let (mut ra, mut rb) = (None, None);
    sched::run_all(vec![Box::new(|| ra = Some(a())), Box::new(|| rb = Some(b()))]);
    (ra.unwrap(), rb.unwrap())
}
/// Tasks started in a scope run when its body has ended.
pub struct Scope<'s>(std::cell::RefCell<Vec<Box<dyn FnOnce(&Scope<'s>) + 's>>>);
impl<'s> Scope<'s> {
    pub fn spawn<F: FnOnce(&Scope<'s>) + 's>(&self, f: F) {
        self.0.borrow_mut().push(Box::new(f))
    }
}
pub fn scope<'s, R, F: FnOnce(&Scope<'s>) -> R>(f: F) -> R {
    let s = Scope(Default::default());
    let r = f(&s);
    loop {
        let tasks = std::mem::replace(&mut *s.0.borrow_mut(), Vec::new());
        if tasks.is_empty() {
            return r;
        }
        let s = &s;
        sched::run_all(tasks.into_iter().map(|t| Box::new(move || t(s)) as Box<dyn FnOnce() + '_>).collect());
    }
}
pub fn current_num_threads() -> usize {
    1
}

/// Settings of the thread pool: there is none.
#[derive(Default)]
pub struct ThreadPoolBuilder;
#[derive(Debug)]
pub struct ThreadPoolBuildError;
impl std::fmt::Display for ThreadPoolBuildError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("no thread pool")
    }
}
impl std::error::Error for ThreadPoolBuildError {}
impl ThreadPoolBuilder {
    pub fn new() -> Self {
        ThreadPoolBuilder
    }
    pub fn num_threads(self, _: usize) -> Self {
        self
    }
    pub fn stack_size(self, _: usize) -> Self {
        self
    }
    pub fn build_global(self) -> Result<(), ThreadPoolBuildError> {
        Ok(())
    }
}
