//! Stands for `std` when the library under test is compiled for these checks: everything is
//! std's own, except the synchronisation primitives, whose operations are scheduling points.

#![allow(unused_imports, deprecated)]

pub use ::std::*;

pub mod ctl;

pub mod hint {
    pub use ::std::hint::*;
    pub fn spin_loop() {
        if crate::ctl::in_session() {
            crate::ctl::yield_point();
        } else {
            ::std::hint::spin_loop();
        }
    }
}

pub mod thread {
    pub use ::std::thread::*;
    pub fn yield_now() {
        if crate::ctl::in_session() {
            crate::ctl::yield_point();
        } else {
            ::std::thread::yield_now();
        }
    }
    pub fn sleep(d: ::std::time::Duration) {
        if crate::ctl::in_session() {
            crate::ctl::yield_point();
        } else {
            ::std::thread::sleep(d);
        }
    }
}

pub mod sync {
    pub use ::std::sync::*;
    use crate::ctl::{self, Kind};
    use ::std::fmt;
    use ::std::ops::{Deref, DerefMut};
    use ::std::sync as real;

    // ------------------------------------------------------------------ RwLock

    pub struct RwLock<T: ?Sized> {
        inner: real::RwLock<T>,
    }

    pub struct RwLockReadGuard<'a, T: ?Sized> {
        inner: Option<real::RwLockReadGuard<'a, T>>,
        of: &'a RwLock<T>,
    }

    pub struct RwLockWriteGuard<'a, T: ?Sized> {
        inner: Option<real::RwLockWriteGuard<'a, T>>,
        of: &'a RwLock<T>,
    }

    fn wrap<G, H>(r: Result<G, PoisonError<G>>, f: impl FnOnce(G) -> H) -> LockResult<H> {
        match r {
            Ok(g) => Ok(f(g)),
            Err(e) => Err(PoisonError::new(f(e.into_inner()))),
        }
    }

    fn wrap_try<G, H>(r: Result<G, TryLockError<G>>, f: impl FnOnce(G) -> H) -> TryLockResult<H> {
        match r {
            Ok(g) => Ok(f(g)),
            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
            Err(TryLockError::Poisoned(e)) => Err(TryLockError::Poisoned(PoisonError::new(f(e.into_inner())))),
        }
    }

    impl<T> RwLock<T> {
        pub const fn new(t: T) -> RwLock<T> {
            RwLock { inner: real::RwLock::new(t) }
        }
        pub fn into_inner(self) -> LockResult<T> {
            self.inner.into_inner()
        }
    }

    impl<T: ?Sized> RwLock<T> {
        pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
            ctl::acquire(self, Kind::Read);
            wrap(self.inner.read(), |g| RwLockReadGuard { inner: Some(g), of: self })
        }
        pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
            ctl::acquire(self, Kind::Write);
            wrap(self.inner.write(), |g| RwLockWriteGuard { inner: Some(g), of: self })
        }
        pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
            if ctl::try_acquire(self, Kind::Read) == Some(false) {
                return Err(TryLockError::WouldBlock);
            }
            wrap_try(self.inner.try_read(), |g| RwLockReadGuard { inner: Some(g), of: self })
        }
        pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
            if ctl::try_acquire(self, Kind::Write) == Some(false) {
                return Err(TryLockError::WouldBlock);
            }
            wrap_try(self.inner.try_write(), |g| RwLockWriteGuard { inner: Some(g), of: self })
        }
        pub fn is_poisoned(&self) -> bool {
            self.inner.is_poisoned()
        }
        pub fn clear_poison(&self) {
            self.inner.clear_poison()
        }
        pub fn get_mut(&mut self) -> LockResult<&mut T> {
            self.inner.get_mut()
        }
    }

    impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
        fn drop(&mut self) {
            if let Some(g) = self.inner.take() {
                drop(g);
                ctl::release(self.of, Kind::Read);
            }
        }
    }

    impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
        fn drop(&mut self) {
            if let Some(g) = self.inner.take() {
                let was = self.of.inner.is_poisoned();
                drop(g);
                if !was && ctl::aborting() {
                    self.of.inner.clear_poison();
                }
                ctl::release(self.of, Kind::Write);
            }
        }
    }

    impl<'a, T: ?Sized> RwLockWriteGuard<'a, T> {
        pub fn downgrade(mut s: Self) -> RwLockReadGuard<'a, T> {
            let g = s.inner.take().expect("guard");
            let of = s.of;
            ctl::downgrade(of);
            RwLockReadGuard { inner: Some(real::RwLockWriteGuard::downgrade(g)), of }
        }
    }

    impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            self.inner.as_ref().expect("guard")
        }
    }
    impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            self.inner.as_ref().expect("guard")
        }
    }
    impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
        fn deref_mut(&mut self) -> &mut T {
            self.inner.as_mut().expect("guard")
        }
    }
    impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLockReadGuard<'_, T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            (**self).fmt(f)
        }
    }
    impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLockWriteGuard<'_, T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            (**self).fmt(f)
        }
    }
    impl<T: ?Sized + fmt::Display> fmt::Display for RwLockReadGuard<'_, T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            (**self).fmt(f)
        }
    }
    impl<T: ?Sized + fmt::Display> fmt::Display for RwLockWriteGuard<'_, T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            (**self).fmt(f)
        }
    }
    impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            self.inner.fmt(f)
        }
    }
    impl<T: Default> Default for RwLock<T> {
        fn default() -> Self {
            RwLock::new(T::default())
        }
    }
    impl<T> From<T> for RwLock<T> {
        fn from(t: T) -> Self {
            RwLock::new(t)
        }
    }

    // ------------------------------------------------------------------- Mutex

    pub struct Mutex<T: ?Sized> {
        inner: real::Mutex<T>,
    }

    pub struct MutexGuard<'a, T: ?Sized> {
        inner: Option<real::MutexGuard<'a, T>>,
        of: &'a Mutex<T>,
    }

    impl<T> Mutex<T> {
        pub const fn new(t: T) -> Mutex<T> {
            Mutex { inner: real::Mutex::new(t) }
        }
        pub fn into_inner(self) -> LockResult<T> {
            self.inner.into_inner()
        }
    }

    impl<T: ?Sized> Mutex<T> {
        pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
            ctl::acquire(self, Kind::Write);
            wrap(self.inner.lock(), |g| MutexGuard { inner: Some(g), of: self })
        }
        pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
            if ctl::try_acquire(self, Kind::Write) == Some(false) {
                return Err(TryLockError::WouldBlock);
            }
            wrap_try(self.inner.try_lock(), |g| MutexGuard { inner: Some(g), of: self })
        }
        pub fn is_poisoned(&self) -> bool {
            self.inner.is_poisoned()
        }
        pub fn clear_poison(&self) {
            self.inner.clear_poison()
        }
        pub fn get_mut(&mut self) -> LockResult<&mut T> {
            self.inner.get_mut()
        }
    }

    impl<T: ?Sized> Drop for MutexGuard<'_, T> {
        fn drop(&mut self) {
            if let Some(g) = self.inner.take() {
                let was = self.of.inner.is_poisoned();
                drop(g);
                if !was && ctl::aborting() {
                    self.of.inner.clear_poison();
                }
                ctl::release(self.of, Kind::Write);
            }
        }
    }
    impl<T: ?Sized> Deref for MutexGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            self.inner.as_ref().expect("guard")
        }
    }
    impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
        fn deref_mut(&mut self) -> &mut T {
            self.inner.as_mut().expect("guard")
        }
    }
    impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            (**self).fmt(f)
        }
    }
    impl<T: ?Sized + fmt::Display> fmt::Display for MutexGuard<'_, T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            (**self).fmt(f)
        }
    }
    impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            self.inner.fmt(f)
        }
    }
    impl<T: Default> Default for Mutex<T> {
        fn default() -> Self {
            Mutex::new(T::default())
        }
    }
    impl<T> From<T> for Mutex<T> {
        fn from(t: T) -> Self {
            Mutex::new(t)
        }
    }

    // ----------------------------------------------------------------- Condvar

    #[derive(Default)]
    pub struct Condvar {
        inner: real::Condvar,
        _size: u8,
    }

    impl fmt::Debug for Condvar {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            self.inner.fmt(f)
        }
    }

    impl Condvar {
        pub const fn new() -> Condvar {
            Condvar { inner: real::Condvar::new(), _size: 0 }
        }
        pub fn wait<'a, T>(&self, mut guard: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
            let of = guard.of;
            if ctl::in_session() {
                // Nothing else runs between the release and the wait.
                drop(guard);
                ctl::cond_wait(self);
                of.lock()
            } else {
                let g = guard.inner.take().expect("guard");
                wrap(self.inner.wait(g), |g| MutexGuard { inner: Some(g), of })
            }
        }
        pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(&self, guard: MutexGuard<'a, T>, mut condition: F) -> LockResult<MutexGuard<'a, T>> {
            let mut guard = guard;
            while condition(&mut *guard) {
                guard = self.wait(guard)?;
            }
            Ok(guard)
        }
        pub fn notify_one(&self) {
            ctl::point();
            ctl::cond_notify(self, false);
            self.inner.notify_one();
        }
        pub fn notify_all(&self) {
            ctl::point();
            ctl::cond_notify(self, true);
            self.inner.notify_all();
        }
    }

    // ---------------------------------------------------- one-time initialisation

    pub struct OnceLock<T> {
        inner: real::OnceLock<T>,
        _size: u8,
    }

    impl<T> OnceLock<T> {
        pub const fn new() -> OnceLock<T> {
            OnceLock { inner: real::OnceLock::new(), _size: 0 }
        }
        pub fn get(&self) -> Option<&T> {
            ctl::point();
            self.inner.get()
        }
        pub fn get_mut(&mut self) -> Option<&mut T> {
            self.inner.get_mut()
        }
        pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
            match ctl::once_begin(self, || self.inner.get().is_some()) {
                None => self.inner.get_or_init(f),
                Some(false) => self.inner.get().expect("initialised"),
                Some(true) => {
                    let end = ctl::OnceEnd(self);
                    let v = f();
                    let _ = self.inner.set(v);
                    drop(end);
                    self.inner.get().expect("initialised")
                }
            }
        }
        pub fn set(&self, value: T) -> Result<(), T> {
            let mut value = Some(value);
            self.get_or_init(|| value.take().unwrap());
            match value {
                None => Ok(()),
                Some(v) => Err(v),
            }
        }
        pub fn into_inner(self) -> Option<T> {
            self.inner.into_inner()
        }
        pub fn take(&mut self) -> Option<T> {
            self.inner.take()
        }
    }
    impl<T> Default for OnceLock<T> {
        fn default() -> Self {
            OnceLock::new()
        }
    }
    impl<T: fmt::Debug> fmt::Debug for OnceLock<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            self.inner.fmt(f)
        }
    }
    impl<T: Clone> Clone for OnceLock<T> {
        fn clone(&self) -> Self {
            OnceLock { inner: self.inner.clone(), _size: 0 }
        }
    }
    impl<T> From<T> for OnceLock<T> {
        fn from(t: T) -> Self {
            OnceLock { inner: real::OnceLock::from(t), _size: 0 }
        }
    }
    impl<T: PartialEq> PartialEq for OnceLock<T> {
        fn eq(&self, other: &Self) -> bool {
            self.inner == other.inner
        }
    }
    impl<T: Eq> Eq for OnceLock<T> {}

    pub struct Once {
        inner: real::Once,
        _size: u8,
    }

    impl Once {
        pub const fn new() -> Once {
            Once { inner: real::Once::new(), _size: 0 }
        }
        pub fn call_once<F: FnOnce()>(&self, f: F) {
            match ctl::once_begin(self, || self.inner.is_completed()) {
                None => self.inner.call_once(f),
                Some(false) => {}
                Some(true) => {
                    let end = ctl::OnceEnd(self);
                    self.inner.call_once(f);
                    drop(end);
                }
            }
        }
        pub fn is_completed(&self) -> bool {
            ctl::point();
            self.inner.is_completed()
        }
    }
    impl fmt::Debug for Once {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            self.inner.fmt(f)
        }
    }

    pub struct LazyLock<T, F = fn() -> T> {
        cell: OnceLock<T>,
        init: real::Mutex<Option<F>>,
    }

    impl<T, F: FnOnce() -> T> LazyLock<T, F> {
        pub const fn new(f: F) -> LazyLock<T, F> {
            LazyLock { cell: OnceLock::new(), init: real::Mutex::new(Some(f)) }
        }
        pub fn force(this: &LazyLock<T, F>) -> &T {
            this.cell.get_or_init(|| {
                let f = this.init.lock().unwrap_or_else(|e| e.into_inner()).take();
                match f {
                    Some(f) => f(),
                    None => panic!("LazyLock instance has previously been poisoned"),
                }
            })
        }
    }
    impl<T, F: FnOnce() -> T> Deref for LazyLock<T, F> {
        type Target = T;
        fn deref(&self) -> &T {
            LazyLock::force(self)
        }
    }
    impl<T: Default> Default for LazyLock<T> {
        fn default() -> Self {
            LazyLock::new(T::default)
        }
    }
    impl<T: fmt::Debug, F> fmt::Debug for LazyLock<T, F> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            self.cell.fmt(f)
        }
    }

    // ----------------------------------------------------------------- atomics

    pub mod atomic {
        pub use ::std::sync::atomic::*;
        use crate::ctl::point;
        use ::std::fmt;
        use ::std::sync::atomic as real;

        macro_rules! common {
            ($name:ident, $t:ty) => {
                #[repr(transparent)]
                pub struct $name(real::$name);
                impl $name {
                    pub const fn new(v: $t) -> Self {
                        Self(real::$name::new(v))
                    }
                    pub fn load(&self, o: Ordering) -> $t {
                        point();
                        self.0.load(o)
                    }
                    pub fn store(&self, v: $t, o: Ordering) {
                        point();
                        self.0.store(v, o)
                    }
                    pub fn swap(&self, v: $t, o: Ordering) -> $t {
                        point();
                        self.0.swap(v, o)
                    }
                    pub fn compare_exchange(&self, c: $t, n: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                        point();
                        self.0.compare_exchange(c, n, s, f)
                    }
                    pub fn compare_exchange_weak(&self, c: $t, n: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                        point();
                        self.0.compare_exchange(c, n, s, f)
                    }
                    pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, set: Ordering, fetch: Ordering, f: F) -> Result<$t, $t> {
                        point();
                        self.0.fetch_update(set, fetch, f)
                    }
                    pub fn get_mut(&mut self) -> &mut $t {
                        self.0.get_mut()
                    }
                    pub fn into_inner(self) -> $t {
                        self.0.into_inner()
                    }
                }
                impl Default for $name {
                    fn default() -> Self {
                        Self(Default::default())
                    }
                }
                impl From<$t> for $name {
                    fn from(v: $t) -> Self {
                        Self::new(v)
                    }
                }
                impl fmt::Debug for $name {
                    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                        self.0.fmt(f)
                    }
                }
            };
        }

        macro_rules! ints {
            ($($name:ident $t:ty),*) => {$(
                common!($name, $t);
                impl $name {
                    pub fn fetch_add(&self, v: $t, o: Ordering) -> $t { point(); self.0.fetch_add(v, o) }
                    pub fn fetch_sub(&self, v: $t, o: Ordering) -> $t { point(); self.0.fetch_sub(v, o) }
                    pub fn fetch_and(&self, v: $t, o: Ordering) -> $t { point(); self.0.fetch_and(v, o) }
                    pub fn fetch_or(&self, v: $t, o: Ordering) -> $t { point(); self.0.fetch_or(v, o) }
                    pub fn fetch_xor(&self, v: $t, o: Ordering) -> $t { point(); self.0.fetch_xor(v, o) }
                    pub fn fetch_nand(&self, v: $t, o: Ordering) -> $t { point(); self.0.fetch_nand(v, o) }
                    pub fn fetch_max(&self, v: $t, o: Ordering) -> $t { point(); self.0.fetch_max(v, o) }
                    pub fn fetch_min(&self, v: $t, o: Ordering) -> $t { point(); self.0.fetch_min(v, o) }
                }
            )*};
        }

        ints!(AtomicU8 u8, AtomicU16 u16, AtomicU32 u32, AtomicU64 u64, AtomicUsize usize,
              AtomicI8 i8, AtomicI16 i16, AtomicI32 i32, AtomicI64 i64, AtomicIsize isize);

        common!(AtomicBool, bool);
        impl AtomicBool {
            pub fn fetch_and(&self, v: bool, o: Ordering) -> bool {
                point();
                self.0.fetch_and(v, o)
            }
            pub fn fetch_or(&self, v: bool, o: Ordering) -> bool {
                point();
                self.0.fetch_or(v, o)
            }
            pub fn fetch_xor(&self, v: bool, o: Ordering) -> bool {
                point();
                self.0.fetch_xor(v, o)
            }
            pub fn fetch_nand(&self, v: bool, o: Ordering) -> bool {
                point();
                self.0.fetch_nand(v, o)
            }
            pub fn fetch_not(&self, o: Ordering) -> bool {
                point();
                self.0.fetch_not(o)
            }
        }

        pub fn spin_loop_hint() {
            crate::hint::spin_loop()
        }
    }
}
