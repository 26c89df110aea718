//! Locks and atomics as `std` has them, each operation a point at which another thread may run first (`sched`).
pub use ::std::sync::*;
use ::std::fmt;
use ::std::ops::{Deref, DerefMut};
use ::std::prelude::v1::*;

/// A guard that wakes the waiting when it goes.
pub struct Held<G>(Option<G>);
impl<G> Held<G> {
    fn new(g: G) -> Self {
        Held(Some(g))
    }
}
impl<G> Drop for Held<G> {
    fn drop(&mut self) {
        self.0 = None;
        sched::wake();
    }
}
impl<G: Deref> Deref for Held<G> {
    type Target = G::Target;
    fn deref(&self) -> &G::Target {
        self.0.as_ref().unwrap()
    }
}
impl<G: DerefMut> DerefMut for Held<G> {
    fn deref_mut(&mut self) -> &mut G::Target {
        self.0.as_mut().unwrap()
    }
}
impl<G: Deref> fmt::Debug for Held<G>
where
    G::Target: fmt::Debug,
{
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<G: Deref> fmt::Display for Held<G>
where
    G::Target: fmt::Display,
{
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
pub type MutexGuard<'a, T> = Held<::std::sync::MutexGuard<'a, T>>;
pub type RwLockReadGuard<'a, T> = Held<::std::sync::RwLockReadGuard<'a, T>>;
pub type RwLockWriteGuard<'a, T> = Held<::std::sync::RwLockWriteGuard<'a, T>>;

fn held<G>(r: TryLockResult<G>) -> TryLockResult<Held<G>> {
    match r {
        Ok(g) => Ok(Held::new(g)),
        Err(TryLockError::Poisoned(e)) => Err(TryLockError::Poisoned(PoisonError::new(Held::new(e.into_inner())))),
        Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
    }
}
fn until<G>(f: impl Fn() -> TryLockResult<G>) -> LockResult<Held<G>> {
    sched::point();
    loop {
        match held(f()) {
            Ok(g) => return Ok(g),
            Err(TryLockError::Poisoned(e)) => return Err(e),
            Err(TryLockError::WouldBlock) => sched::block(),
        }
    }
}

#[derive(Default)]
pub struct Mutex<T: ?Sized>(::std::sync::Mutex<T>);
impl<T> Mutex<T> {
    pub const fn new(t: T) -> Self {
        Mutex(::std::sync::Mutex::new(t))
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.0.into_inner()
    }
}
impl<T: ?Sized> Mutex<T> {
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        until(|| self.0.try_lock())
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        sched::point();
        held(self.0.try_lock())
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        self.0.get_mut()
    }
    pub fn is_poisoned(&self) -> bool {
        self.0.is_poisoned()
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(t: T) -> Self {
        Mutex::new(t)
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}

#[derive(Default)]
pub struct RwLock<T: ?Sized>(::std::sync::RwLock<T>);
impl<T> RwLock<T> {
    pub const fn new(t: T) -> Self {
        RwLock(::std::sync::RwLock::new(t))
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.0.into_inner()
    }
}
impl<T: ?Sized> RwLock<T> {
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        until(|| self.0.try_read())
    }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        until(|| self.0.try_write())
    }
    pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
        sched::point();
        held(self.0.try_read())
    }
    pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
        sched::point();
        held(self.0.try_write())
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        self.0.get_mut()
    }
    pub fn is_poisoned(&self) -> bool {
        self.0.is_poisoned()
    }
}
impl<T> From<T> for RwLock<T> {
    fn from(t: T) -> Self {
        RwLock::new(t)
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}

pub mod atomic {
    pub use ::std::sync::atomic::*;
    use ::std::fmt;
    use ::std::prelude::v1::*;

    macro_rules! common {
        ($n:ident, $t:ty) => {
            #[derive(Default)]
            pub struct $n(::std::sync::atomic::$n);
            impl $n {
                pub const fn new(v: $t) -> Self {
                    $n(::std::sync::atomic::$n::new(v))
                }
                pub fn load(&self, o: Ordering) -> $t {
                    sched::point();
                    self.0.load(o)
                }
                pub fn store(&self, v: $t, o: Ordering) {
                    sched::point();
                    self.0.store(v, o)
                }
                pub fn swap(&self, v: $t, o: Ordering) -> $t {
                    sched::point();
                    self.0.swap(v, o)
                }
                pub fn compare_exchange(&self, a: $t, b: $t, o: Ordering, p: Ordering) -> Result<$t, $t> {
                    sched::point();
                    self.0.compare_exchange(a, b, o, p)
                }
                pub fn compare_exchange_weak(&self, a: $t, b: $t, o: Ordering, p: Ordering) -> Result<$t, $t> {
                    sched::point();
                    self.0.compare_exchange(a, b, o, p)
                }
                #[allow(deprecated)]
                pub fn compare_and_swap(&self, a: $t, b: $t, o: Ordering) -> $t {
                    sched::point();
                    self.0.compare_and_swap(a, b, o)
                }
                pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, o: Ordering, p: Ordering, mut f: F) -> Result<$t, $t> {
                    let mut now = self.load(p);
                    loop {
                        match f(now) {
                            Some(v) => match self.compare_exchange(now, v, o, p) {
                                Ok(v) => return Ok(v),
                                Err(v) => now = v,
                            },
                            None => return Err(now),
                        }
                    }
                }
                pub fn get_mut(&mut self) -> &mut $t {
                    self.0.get_mut()
                }
                pub fn into_inner(self) -> $t {
                    self.0.into_inner()
                }
            }
            impl fmt::Debug for $n {
                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                    self.0.fmt(f)
                }
            }
            impl From<$t> for $n {
                fn from(v: $t) -> Self {
                    $n::new(v)
                }
            }
        };
    }
    macro_rules! fetch {
        ($n:ident, $t:ty, $($f:ident)*) => {
            impl $n {
                $(pub fn $f(&self, v: $t, o: Ordering) -> $t {
                    sched::point();
                    self.0.$f(v, o)
                })*
            }
        };
    }
    macro_rules! int {
        ($($n:ident $t:ty),*) => {
            $(common!($n, $t);
            fetch!($n, $t, fetch_add fetch_sub fetch_and fetch_nand fetch_or fetch_xor fetch_max fetch_min);)*
        };
    }
    int!(AtomicU8 u8, AtomicU16 u16, AtomicU32 u32, AtomicU64 u64, AtomicUsize usize, AtomicI8 i8, AtomicI16 i16, AtomicI32 i32, AtomicI64 i64, AtomicIsize isize);
    common!(AtomicBool, bool);
    fetch!(AtomicBool, bool, fetch_and fetch_nand fetch_or fetch_xor);
}
