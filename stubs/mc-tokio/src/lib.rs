//! Real tokio, except that `sync::RwLock` and `sync::Mutex` pass a scheduling point before they are acquired.
//! The locks themselves (fair queueing, wake-ups, cancellation) are tokio's own.
pub use real::*;

pub mod sync {
    pub use crate::locks::{
        Mutex, OwnedMutexGuard, OwnedRwLockReadGuard, OwnedRwLockWriteGuard, RwLock,
    };
    pub use real::sync::*;
}

mod locks {
    use mcrt::{point, Kind};
    use real::sync as r;
    use std::fmt;
    use std::mem::ManuallyDrop;
    use std::ops::{Deref, DerefMut};
    use std::sync::Arc;

    #[derive(Default)]
    pub struct RwLock<T: ?Sized> {
        inner: r::RwLock<T>,
    }

    impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            self.inner.fmt(f)
        }
    }

    impl<T: 'static> From<T> for RwLock<T> {
        fn from(t: T) -> Self {
            Self::new(t)
        }
    }

    impl<T: ?Sized + 'static> RwLock<T> {
        pub fn new(t: T) -> Self
        where
            T: Sized,
        {
            Self { inner: r::RwLock::new(t) }
        }
        pub const fn const_new(t: T) -> Self
        where
            T: Sized,
        {
            Self { inner: r::RwLock::const_new(t) }
        }
        pub async fn read(&self) -> r::RwLockReadGuard<'_, T> {
            point(Kind::Lock).await;
            let g = self.inner.read().await;
            point(Kind::Hold).await;
            g
        }
        pub async fn write(&self) -> r::RwLockWriteGuard<'_, T> {
            point(Kind::Lock).await;
            let g = self.inner.write().await;
            point(Kind::Hold).await;
            g
        }
        pub fn blocking_read(&self) -> r::RwLockReadGuard<'_, T> {
            self.inner.try_read().expect("blocking_read would block the only thread")
        }
        pub fn blocking_write(&self) -> r::RwLockWriteGuard<'_, T> {
            self.inner.try_write().expect("blocking_write would block the only thread")
        }
        pub fn try_read(&self) -> Result<r::RwLockReadGuard<'_, T>, r::TryLockError> {
            self.inner.try_read()
        }
        pub fn try_write(&self) -> Result<r::RwLockWriteGuard<'_, T>, r::TryLockError> {
            self.inner.try_write()
        }
        pub async fn read_owned(self: Arc<Self>) -> OwnedRwLockReadGuard<T> {
            let g = self.read().await;
            // SAFETY: the guard is dropped before the Arc that keeps the lock alive
            let guard: r::RwLockReadGuard<'static, T> = unsafe { std::mem::transmute(g) };
            OwnedRwLockReadGuard { guard: ManuallyDrop::new(guard), _lock: self.clone() }
        }
        pub async fn write_owned(self: Arc<Self>) -> OwnedRwLockWriteGuard<T> {
            let g = self.write().await;
            // SAFETY: as above
            let guard: r::RwLockWriteGuard<'static, T> = unsafe { std::mem::transmute(g) };
            OwnedRwLockWriteGuard { guard: ManuallyDrop::new(guard), _lock: self.clone() }
        }
        pub fn get_mut(&mut self) -> &mut T {
            self.inner.get_mut()
        }
        pub fn into_inner(self) -> T
        where
            T: Sized,
        {
            self.inner.into_inner()
        }
    }

    #[derive(Default)]
    pub struct Mutex<T: ?Sized> {
        inner: r::Mutex<T>,
    }
    impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            self.inner.fmt(f)
        }
    }
    impl<T: 'static> From<T> for Mutex<T> {
        fn from(t: T) -> Self {
            Self::new(t)
        }
    }
    impl<T: ?Sized + 'static> Mutex<T> {
        pub fn new(t: T) -> Self
        where
            T: Sized,
        {
            Self { inner: r::Mutex::new(t) }
        }
        pub const fn const_new(t: T) -> Self
        where
            T: Sized,
        {
            Self { inner: r::Mutex::const_new(t) }
        }
        pub async fn lock(&self) -> r::MutexGuard<'_, T> {
            point(Kind::Lock).await;
            let g = self.inner.lock().await;
            point(Kind::Hold).await;
            g
        }
        pub fn blocking_lock(&self) -> r::MutexGuard<'_, T> {
            self.inner.try_lock().expect("blocking_lock would block the only thread")
        }
        pub fn try_lock(&self) -> Result<r::MutexGuard<'_, T>, r::TryLockError> {
            self.inner.try_lock()
        }
        pub async fn lock_owned(self: Arc<Self>) -> OwnedMutexGuard<T> {
            let g = self.lock().await;
            // SAFETY: as above
            let guard: r::MutexGuard<'static, T> = unsafe { std::mem::transmute(g) };
            OwnedMutexGuard { guard: ManuallyDrop::new(guard), _lock: self.clone() }
        }
        pub fn get_mut(&mut self) -> &mut T {
            self.inner.get_mut()
        }
        pub fn into_inner(self) -> T
        where
            T: Sized,
        {
            self.inner.into_inner()
        }
    }

    macro_rules! owned {
        ($name:ident, $lock:ident, $guard:ident) => {
            pub struct $name<T: ?Sized + 'static> {
                guard: ManuallyDrop<r::$guard<'static, T>>,
                _lock: Arc<$lock<T>>,
            }
            impl<T: ?Sized> Drop for $name<T> {
                fn drop(&mut self) {
                    // SAFETY: dropped once, before the Arc
                    unsafe { ManuallyDrop::drop(&mut self.guard) }
                }
            }
            impl<T: ?Sized> Deref for $name<T> {
                type Target = T;
                fn deref(&self) -> &T {
                    &self.guard
                }
            }
            impl<T: ?Sized + fmt::Debug> fmt::Debug for $name<T> {
                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                    (**self).fmt(f)
                }
            }
        };
    }
    owned!(OwnedRwLockReadGuard, RwLock, RwLockReadGuard);
    owned!(OwnedRwLockWriteGuard, RwLock, RwLockWriteGuard);
    owned!(OwnedMutexGuard, Mutex, MutexGuard);
    impl<T: ?Sized> DerefMut for OwnedRwLockWriteGuard<T> {
        fn deref_mut(&mut self) -> &mut T {
            &mut self.guard
        }
    }
    impl<T: ?Sized> DerefMut for OwnedMutexGuard<T> {
        fn deref_mut(&mut self) -> &mut T {
            &mut self.guard
        }
    }
}
