//! The standard library with a Mutex whose acquisition is a place where the
//! scheduler of the concurrent harness may switch threads.  A harness whose
//! crate root says `extern crate shim as std;` has generated code use it.
pub use ::std::*;

pub mod lockpoints {
    use ::std::cell::Cell;
    use ::std::sync::OnceLock;
    pub static HOOK: OnceLock<fn(u8)> = OnceLock::new();
    ::std::thread_local! { static ON: Cell<bool> = const { Cell::new(false) }; }
    /// Whether this thread's acquisitions are such places
    pub fn set(on: bool) { ON.with(|c| c.set(on)) }
    pub(crate) fn point(k: u8) {
        if ON.try_with(|c| c.get()) == Ok(true) {
            // what the hook itself does is none
            set(false);
            if let Some(h) = HOOK.get() { h(k) }
            set(true);
        }
    }
}

pub mod sync {
    pub use ::std::sync::*;
    use ::std::{fmt, ops::{Deref, DerefMut}};
    use super::lockpoints::point;

    #[derive(Default)]
    pub struct Mutex<T: ?Sized>(::std::sync::Mutex<T>);
    pub struct MutexGuard<'a, T: ?Sized + 'a>(Option<::std::sync::MutexGuard<'a, T>>);

    impl<T> Mutex<T> {
        pub const fn new(t: T) -> Self { Mutex(::std::sync::Mutex::new(t)) }
        pub fn into_inner(self) -> LockResult<T> { self.0.into_inner() }
    }
    fn wrap<'a, T: ?Sized>(r: LockResult<::std::sync::MutexGuard<'a, T>>) -> LockResult<MutexGuard<'a, T>> {
        match r {
            Ok(g) => Ok(MutexGuard(Some(g))),
            Err(e) => Err(PoisonError::new(MutexGuard(Some(e.into_inner())))),
        }
    }
    impl<T: ?Sized> Mutex<T> {
        pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
            point(b'L');
            wrap(self.0.lock())
        }
        pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
            point(b'L');
            match self.0.try_lock() {
                Ok(g) => Ok(MutexGuard(Some(g))),
                Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
                Err(TryLockError::Poisoned(e)) =>
                    Err(TryLockError::Poisoned(PoisonError::new(MutexGuard(Some(e.into_inner()))))),
            }
        }
        pub fn is_poisoned(&self) -> bool { self.0.is_poisoned() }
        pub fn clear_poison(&self) { self.0.clear_poison() }
        pub fn get_mut(&mut self) -> LockResult<&mut T> { self.0.get_mut() }
    }
    impl<T> From<T> for Mutex<T> { fn from(t: T) -> Self { Mutex::new(t) } }
    impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.0.fmt(f) }
    }
    impl<T: ?Sized> Deref for MutexGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T { self.0.as_ref().unwrap() }
    }
    impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
        fn deref_mut(&mut self) -> &mut T { self.0.as_mut().unwrap() }
    }
    impl<T: ?Sized> Drop for MutexGuard<'_, T> {
        fn drop(&mut self) {
            self.0.take();
            point(b'U');
        }
    }
    impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { (**self).fmt(f) }
    }
    impl<T: ?Sized + fmt::Display> fmt::Display for MutexGuard<'_, T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { (**self).fmt(f) }
    }
}
