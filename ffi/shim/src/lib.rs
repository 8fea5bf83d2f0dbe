//! `std`, with the synchronisation primitives replaced by ones whose operations are scheduling points.
//!
//! A thread that was not started by `mc_ctl::explore` sees ordinary locks, except that locking a lock it already holds ends
//! the process (instead of hanging it).
pub use std::*;

pub mod mc_ctl;

pub mod sync {
    use crate::mc_ctl::{self as ctl, Op};
    pub use std::sync::*;
    use std::fmt;
    use std::ops::{Deref, DerefMut};

    pub struct Mutex<T: ?Sized> {
        pub(crate) inner: std::sync::Mutex<T>,
    }
    pub struct MutexGuard<'a, T: ?Sized> {
        g: Option<std::sync::MutexGuard<'a, T>>,
        id: usize,
    }
    impl<T> Mutex<T> {
        pub const fn new(t: T) -> Mutex<T> {
            Mutex { inner: std::sync::Mutex::new(t) }
        }
        pub fn into_inner(self) -> LockResult<T> {
            self.inner.into_inner()
        }
    }
    impl<T: ?Sized> Mutex<T> {
        fn id(&self) -> usize {
            &self.inner as *const _ as *const u8 as usize
        }
        pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
            let id = self.id();
            ctl::point(Op::Lock(id));
            ctl::will_lock(id);
            let r = self.inner.lock();
            ctl::locked(id);
            match r {
                Ok(g) => Ok(MutexGuard { g: Some(g), id }),
                Err(e) => Err(PoisonError::new(MutexGuard { g: Some(e.into_inner()), id })),
            }
        }
        pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
            let id = self.id();
            ctl::point(Op::Rmw(id));
            match self.inner.try_lock() {
                Ok(g) => {
                    ctl::locked(id);
                    Ok(MutexGuard { g: Some(g), id })
                }
                Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
                Err(TryLockError::Poisoned(e)) => {
                    ctl::locked(id);
                    Err(TryLockError::Poisoned(PoisonError::new(MutexGuard { g: Some(e.into_inner()), id })))
                }
            }
        }
        pub fn get_mut(&mut self) -> LockResult<&mut T> {
            self.inner.get_mut()
        }
        pub fn is_poisoned(&self) -> bool {
            self.inner.is_poisoned()
        }
        pub fn clear_poison(&self) {
            self.inner.clear_poison()
        }
    }
    impl<T: Default> Default for Mutex<T> {
        fn default() -> Self {
            Mutex::new(T::default())
        }
    }
    impl<T> From<T> for Mutex<T> {
        fn from(t: T) -> Self {
            Mutex::new(t)
        }
    }
    impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            self.inner.fmt(f)
        }
    }
    impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            (**self).fmt(f)
        }
    }
    impl<T: ?Sized> Deref for MutexGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            self.g.as_ref().unwrap()
        }
    }
    impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
        fn deref_mut(&mut self) -> &mut T {
            self.g.as_mut().unwrap()
        }
    }
    impl<T: ?Sized> Drop for MutexGuard<'_, T> {
        fn drop(&mut self) {
            self.g = None;
            ctl::unlocked(self.id);
        }
    }

    pub struct RwLock<T: ?Sized> {
        inner: std::sync::RwLock<T>,
    }
    pub struct RwLockReadGuard<'a, T: ?Sized> {
        g: Option<std::sync::RwLockReadGuard<'a, T>>,
        id: usize,
    }
    pub struct RwLockWriteGuard<'a, T: ?Sized> {
        g: Option<std::sync::RwLockWriteGuard<'a, T>>,
        id: usize,
    }
    impl<T> RwLock<T> {
        pub const fn new(t: T) -> RwLock<T> {
            RwLock { inner: std::sync::RwLock::new(t) }
        }
        pub fn into_inner(self) -> LockResult<T> {
            self.inner.into_inner()
        }
    }
    impl<T: ?Sized> RwLock<T> {
        fn id(&self) -> usize {
            &self.inner as *const _ as *const u8 as usize
        }
        pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
            let id = self.id();
            ctl::point(Op::Read(id));
            ctl::will_lock(id);
            let r = self.inner.read();
            ctl::read_locked(id);
            match r {
                Ok(g) => Ok(RwLockReadGuard { g: Some(g), id }),
                Err(e) => Err(PoisonError::new(RwLockReadGuard { g: Some(e.into_inner()), id })),
            }
        }
        pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
            let id = self.id();
            ctl::point(Op::Lock(id));
            ctl::will_lock(id);
            let r = self.inner.write();
            ctl::locked(id);
            match r {
                Ok(g) => Ok(RwLockWriteGuard { g: Some(g), id }),
                Err(e) => Err(PoisonError::new(RwLockWriteGuard { g: Some(e.into_inner()), id })),
            }
        }
        pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
            let id = self.id();
            ctl::point(Op::Rmw(id));
            match self.inner.try_read() {
                Ok(g) => {
                    ctl::read_locked(id);
                    Ok(RwLockReadGuard { g: Some(g), id })
                }
                Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
                Err(TryLockError::Poisoned(e)) => {
                    ctl::read_locked(id);
                    Err(TryLockError::Poisoned(PoisonError::new(RwLockReadGuard { g: Some(e.into_inner()), id })))
                }
            }
        }
        pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
            let id = self.id();
            ctl::point(Op::Rmw(id));
            match self.inner.try_write() {
                Ok(g) => {
                    ctl::locked(id);
                    Ok(RwLockWriteGuard { g: Some(g), id })
                }
                Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
                Err(TryLockError::Poisoned(e)) => {
                    ctl::locked(id);
                    Err(TryLockError::Poisoned(PoisonError::new(RwLockWriteGuard { g: Some(e.into_inner()), id })))
                }
            }
        }
        pub fn clear_poison(&self) {
            self.inner.clear_poison()
        }
        pub fn get_mut(&mut self) -> LockResult<&mut T> {
            self.inner.get_mut()
        }
        pub fn is_poisoned(&self) -> bool {
            self.inner.is_poisoned()
        }
    }
    impl<T> From<T> for RwLock<T> {
        fn from(t: T) -> Self {
            RwLock::new(t)
        }
    }
    impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            self.inner.fmt(f)
        }
    }
    impl<T: Default> Default for RwLock<T> {
        fn default() -> Self {
            RwLock::new(T::default())
        }
    }
    impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLockReadGuard<'_, T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            (**self).fmt(f)
        }
    }
    impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            self.g.as_ref().unwrap()
        }
    }
    impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLockWriteGuard<'_, T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            (**self).fmt(f)
        }
    }
    impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            self.g.as_ref().unwrap()
        }
    }
    impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
        fn deref_mut(&mut self) -> &mut T {
            self.g.as_mut().unwrap()
        }
    }
    impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
        fn drop(&mut self) {
            self.g = None;
            ctl::read_unlocked(self.id);
        }
    }
    impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
        fn drop(&mut self) {
            self.g = None;
            ctl::unlocked(self.id);
        }
    }

    pub mod atomic {
        use crate::mc_ctl::{self as ctl, Op};
        pub use std::sync::atomic::*;
        macro_rules! atomic_int {
            ($($name:ident $t:ty),*) => {$(
                #[derive(Default, Debug)]
                pub struct $name(std::sync::atomic::$name);
                impl $name {
                    pub const fn new(v: $t) -> Self { $name(std::sync::atomic::$name::new(v)) }
                    fn pt(&self) { ctl::point(Op::Rmw(self as *const _ as usize)); }
                    pub fn load(&self, o: Ordering) -> $t { self.pt(); self.0.load(o) }
                    pub fn store(&self, v: $t, o: Ordering) { self.pt(); self.0.store(v, o) }
                    pub fn swap(&self, v: $t, o: Ordering) -> $t { self.pt(); self.0.swap(v, o) }
                    pub fn fetch_add(&self, v: $t, o: Ordering) -> $t { self.pt(); self.0.fetch_add(v, o) }
                    pub fn fetch_sub(&self, v: $t, o: Ordering) -> $t { self.pt(); self.0.fetch_sub(v, o) }
                    pub fn fetch_max(&self, v: $t, o: Ordering) -> $t { self.pt(); self.0.fetch_max(v, o) }
                    pub fn fetch_min(&self, v: $t, o: Ordering) -> $t { self.pt(); self.0.fetch_min(v, o) }
                    pub fn fetch_xor(&self, v: $t, o: Ordering) -> $t { self.pt(); self.0.fetch_xor(v, o) }
                    pub fn fetch_or(&self, v: $t, o: Ordering) -> $t { self.pt(); self.0.fetch_or(v, o) }
                    pub fn fetch_and(&self, v: $t, o: Ordering) -> $t { self.pt(); self.0.fetch_and(v, o) }
                    pub fn compare_exchange(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> { self.pt(); self.0.compare_exchange(a, b, s, f) }
                    pub fn compare_exchange_weak(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> { self.pt(); self.0.compare_exchange(a, b, s, f) }
                    pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, s: Ordering, f: Ordering, g: F) -> Result<$t, $t> { self.pt(); self.0.fetch_update(s, f, g) }
                    pub fn into_inner(self) -> $t { self.0.into_inner() }
                    pub fn get_mut(&mut self) -> &mut $t { self.0.get_mut() }
                }
            )*};
        }
        atomic_int!(AtomicUsize usize, AtomicIsize isize, AtomicU64 u64, AtomicI64 i64, AtomicU32 u32, AtomicI32 i32, AtomicU16 u16, AtomicU8 u8);
        #[derive(Default, Debug)]
        pub struct AtomicBool(std::sync::atomic::AtomicBool);
        impl AtomicBool {
            pub const fn new(v: bool) -> Self {
                AtomicBool(std::sync::atomic::AtomicBool::new(v))
            }
            fn pt(&self) {
                ctl::point(Op::Rmw(self as *const _ as usize));
            }
            pub fn load(&self, o: Ordering) -> bool {
                self.pt();
                self.0.load(o)
            }
            pub fn store(&self, v: bool, o: Ordering) {
                self.pt();
                self.0.store(v, o)
            }
            pub fn swap(&self, v: bool, o: Ordering) -> bool {
                self.pt();
                self.0.swap(v, o)
            }
            pub fn compare_exchange(&self, a: bool, b: bool, s: Ordering, f: Ordering) -> Result<bool, bool> {
                self.pt();
                self.0.compare_exchange(a, b, s, f)
            }
        }
    }
}
