//! once_cell with a scheduling point at every use of a shared lazy value or cell.
pub use real::unsync;
#[cfg(any())]
pub mod race {
    pub use real::race::*;
}
pub mod sync {
    use std::ops::{Deref, DerefMut};
    pub struct Lazy<T, F = fn() -> T>(real::sync::Lazy<T, F>);
    impl<T, F> Lazy<T, F> {
        pub const fn new(f: F) -> Lazy<T, F> {
            Lazy(real::sync::Lazy::new(f))
        }
        pub fn into_value(this: Lazy<T, F>) -> Result<T, F> {
            real::sync::Lazy::into_value(this.0)
        }
    }
    impl<T, F: FnOnce() -> T> Lazy<T, F> {
        pub fn get(this: &Lazy<T, F>) -> Option<&T> {
            sched::point();
            real::sync::Lazy::get(&this.0)
        }
        pub fn force(this: &Lazy<T, F>) -> &T {
            sched::point();
            real::sync::Lazy::force(&this.0)
        }
        pub fn force_mut(this: &mut Lazy<T, F>) -> &mut T {
            real::sync::Lazy::force_mut(&mut this.0)
        }
    }
    impl<T, F: FnOnce() -> T> Deref for Lazy<T, F> {
        type Target = T;
        fn deref(&self) -> &T {
            Lazy::force(self)
        }
    }
    impl<T, F: FnOnce() -> T> DerefMut for Lazy<T, F> {
        fn deref_mut(&mut self) -> &mut T {
            Lazy::force_mut(self)
        }
    }
    impl<T: std::fmt::Debug, F> std::fmt::Debug for Lazy<T, F> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            self.0.fmt(f)
        }
    }
    impl<T: Default> Default for Lazy<T> {
        fn default() -> Lazy<T> {
            Lazy::new(T::default)
        }
    }
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct OnceCell<T>(real::sync::OnceCell<T>);
    impl<T> Default for OnceCell<T> {
        fn default() -> Self {
            Self::new()
        }
    }
    impl<T> OnceCell<T> {
        pub const fn new() -> Self {
            OnceCell(real::sync::OnceCell::new())
        }
        pub const fn with_value(v: T) -> Self {
            OnceCell(real::sync::OnceCell::with_value(v))
        }
        pub fn get(&self) -> Option<&T> {
            sched::point();
            self.0.get()
        }
        pub fn get_mut(&mut self) -> Option<&mut T> {
            self.0.get_mut()
        }
        pub fn set(&self, v: T) -> Result<(), T> {
            sched::point();
            self.0.set(v)
        }
        pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
            sched::point();
            self.0.get_or_init(f)
        }
        pub fn get_or_try_init<F: FnOnce() -> Result<T, E>, E>(&self, f: F) -> Result<&T, E> {
            sched::point();
            self.0.get_or_try_init(f)
        }
        pub fn take(&mut self) -> Option<T> {
            self.0.take()
        }
        pub fn into_inner(self) -> Option<T> {
            self.0.into_inner()
        }
    }
}
