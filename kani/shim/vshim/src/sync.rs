pub use ::std::sync::*;
use ::std::cell::UnsafeCell;

pub mod atomic {
    pub use ::std::sync::atomic::*;
    use ::std::cell::UnsafeCell;

    #[cfg(kani)]
    fn havoc<T: kani::Arbitrary>(cell: &UnsafeCell<T>) {
        unsafe {
            if crate::env::HAVOC && crate::env::steps() {
                *cell.get() = kani::any();
            }
        }
        crate::env::preempt();
    }
    #[cfg(not(kani))]
    fn havoc<T>(_: &UnsafeCell<T>) {}

    macro_rules! atomic {
        ($name:ident, $t:ty) => {
            pub struct $name(UnsafeCell<$t>);
            unsafe impl Sync for $name {}
            unsafe impl Send for $name {}
            impl ::std::panic::RefUnwindSafe for $name {}
            impl Default for $name {
                fn default() -> Self {
                    Self::new(0)
                }
            }
            impl From<$t> for $name {
                fn from(v: $t) -> Self {
                    Self::new(v)
                }
            }
            impl ::std::fmt::Debug for $name {
                fn fmt(&self, _: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
                    Ok(())
                }
            }
            impl $name {
                pub const fn new(v: $t) -> Self {
                    Self(UnsafeCell::new(v))
                }
                /// Ghost read: no preemption, not logged.
                pub fn ghost(&self) -> $t {
                    unsafe { *self.0.get() }
                }
                fn rmw(&self, f: impl FnOnce($t) -> $t) -> $t {
                    havoc(&self.0);
                    unsafe {
                        let old = *self.0.get();
                        let new = f(old);
                        *self.0.get() = new;
                        crate::env::log_read(old as u64);
                        crate::env::log_mod(old as u64, new as u64);
                        old
                    }
                }
                pub fn load(&self, _: Ordering) -> $t {
                    havoc(&self.0);
                    let v = unsafe { *self.0.get() };
                    crate::env::log_read(v as u64);
                    v
                }
                pub fn store(&self, v: $t, _: Ordering) {
                    havoc(&self.0);
                    unsafe {
                        let old = *self.0.get();
                        *self.0.get() = v;
                        crate::env::log_mod(old as u64, v as u64);
                    }
                }
                pub fn swap(&self, v: $t, _: Ordering) -> $t {
                    self.rmw(|_| v)
                }
                pub fn fetch_add(&self, v: $t, _: Ordering) -> $t {
                    self.rmw(|x| x.wrapping_add(v))
                }
                pub fn fetch_sub(&self, v: $t, _: Ordering) -> $t {
                    self.rmw(|x| x.wrapping_sub(v))
                }
                pub fn fetch_and(&self, v: $t, _: Ordering) -> $t {
                    self.rmw(|x| x & v)
                }
                pub fn fetch_or(&self, v: $t, _: Ordering) -> $t {
                    self.rmw(|x| x | v)
                }
                pub fn fetch_xor(&self, v: $t, _: Ordering) -> $t {
                    self.rmw(|x| x ^ v)
                }
                pub fn fetch_max(&self, v: $t, _: Ordering) -> $t {
                    self.rmw(|x| if x > v { x } else { v })
                }
                pub fn fetch_min(&self, v: $t, _: Ordering) -> $t {
                    self.rmw(|x| if x < v { x } else { v })
                }
                pub fn compare_exchange(
                    &self,
                    cur: $t,
                    new: $t,
                    _: Ordering,
                    _: Ordering,
                ) -> Result<$t, $t> {
                    havoc(&self.0);
                    unsafe {
                        let old = *self.0.get();
                        crate::env::log_read(old as u64);
                        if old == cur {
                            *self.0.get() = new;
                            crate::env::log_mod(old as u64, new as u64);
                            Ok(old)
                        } else {
                            Err(old)
                        }
                    }
                }
                pub fn compare_exchange_weak(
                    &self,
                    cur: $t,
                    new: $t,
                    a: Ordering,
                    b: Ordering,
                ) -> Result<$t, $t> {
                    // may fail for no reason
                    if crate::env::steps() {
                        return Err(self.load(b));
                    }
                    self.compare_exchange(cur, new, a, b)
                }
                pub fn fetch_update<F: FnMut($t) -> Option<$t>>(
                    &self,
                    set: Ordering,
                    fetch: Ordering,
                    mut f: F,
                ) -> Result<$t, $t> {
                    let mut prev = self.load(fetch);
                    while let Some(next) = f(prev) {
                        match self.compare_exchange_weak(prev, next, set, fetch) {
                            Ok(x) => return Ok(x),
                            Err(p) => prev = p,
                        }
                    }
                    Err(prev)
                }
                pub fn get_mut(&mut self) -> &mut $t {
                    self.0.get_mut()
                }
                pub fn into_inner(self) -> $t {
                    self.0.into_inner()
                }
            }
        };
    }
    atomic!(AtomicU64, u64);
    atomic!(AtomicI64, i64);
    atomic!(AtomicU32, u32);
    atomic!(AtomicI32, i32);
    atomic!(AtomicUsize, usize);
    atomic!(AtomicIsize, isize);
}

/// While set, every initialiser of a cell counts as having panicked after it
/// was called: the cell stays empty and `get_or_init` yields a reference that
/// nothing may use (in reality it would not return).
pub static mut UNWIND_INIT: bool = false;

/// Write-once cell. Contract: `get` returns the value if set; `get_or_init`
/// runs its argument only if no value is set and no other thread is setting
/// one, sets the cell to the result, and returns the one value; while a thread
/// runs its initialiser other threads that want to set the cell wait.
pub struct OnceLock<T> {
    value: UnsafeCell<Option<T>>,
    busy: UnsafeCell<bool>,
}

unsafe impl<T: Sync + Send> Sync for OnceLock<T> {}
unsafe impl<T: Send> Send for OnceLock<T> {}

impl<T> Default for OnceLock<T> {
    fn default() -> Self {
        Self::new()
    }
}

impl<T> From<T> for OnceLock<T> {
    fn from(v: T) -> Self {
        Self::with_value(v)
    }
}

impl<T> OnceLock<T> {
    pub const fn new() -> Self {
        Self {
            value: UnsafeCell::new(None),
            busy: UnsafeCell::new(false),
        }
    }
    pub const fn with_value(v: T) -> Self {
        Self {
            value: UnsafeCell::new(Some(v)),
            busy: UnsafeCell::new(false),
        }
    }
    pub fn get(&self) -> Option<&T> {
        crate::env::preempt();
        unsafe { (*self.value.get()).as_ref() }
    }
    pub fn get_mut(&mut self) -> Option<&mut T> {
        self.value.get_mut().as_mut()
    }
    pub fn set(&self, v: T) -> Result<(), T> {
        crate::env::preempt();
        unsafe {
            // Another thread initialising: we would wait, so drop this schedule.
            crate::kani_assume(!*self.busy.get());
            if (*self.value.get()).is_some() {
                Err(v)
            } else {
                *self.value.get() = Some(v);
                Ok(())
            }
        }
    }
    pub fn get_or_init(&self, f: impl FnOnce() -> T) -> &T {
        crate::env::preempt();
        unsafe {
            crate::kani_assume(!*self.busy.get());
            if (*self.value.get()).is_none() {
                *self.busy.get() = true;
                let v = f();
                if UNWIND_INIT {
                    *self.busy.get() = false;
                    return &*Box::leak(Box::new(v));
                }
                *self.value.get() = Some(v);
                *self.busy.get() = false;
            }
            (*self.value.get()).as_ref().unwrap()
        }
    }
    pub fn get_or_try_init<E>(&self, f: impl FnOnce() -> Result<T, E>) -> Result<&T, E> {
        crate::env::preempt();
        unsafe {
            crate::kani_assume(!*self.busy.get());
            if (*self.value.get()).is_none() {
                *self.busy.get() = true;
                let r = f();
                *self.busy.get() = false;
                *self.value.get() = Some(r?);
            }
            Ok((*self.value.get()).as_ref().unwrap())
        }
    }
    /// Of `once_cell`.
    pub fn try_insert(&self, v: T) -> Result<&T, (&T, T)> {
        let r = self.set(v);
        let x = unsafe { (*self.value.get()).as_ref().unwrap() };
        match r {
            Ok(()) => Ok(x),
            Err(v) => Err((x, v)),
        }
    }
    pub fn into_inner(self) -> Option<T> {
        self.value.into_inner()
    }
    pub fn take(&mut self) -> Option<T> {
        self.value.get_mut().take()
    }
}
