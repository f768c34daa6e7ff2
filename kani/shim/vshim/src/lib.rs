//! Contract stand-ins for the parts of `std` that Kani cannot take (hash maps
//! seeded by system calls, B-trees, thread-blocking primitives) plus ghost
//! state for the harnesses. Everything else of `std` is passed through.
//!
//! The copies of the repository's source files that are verified end in
//! `use vshim as std;`, so a path such as `std::collections::HashMap` in them
//! means the stand-in below and `std::mem::take` means the real one.
#![allow(static_mut_refs)]
#![allow(clippy::all)]

pub use ::std::*;

pub mod collections;
pub mod env;
pub mod sync;

/// Giving way: other threads may step.
pub mod thread {
    pub use ::std::thread::*;
    pub fn yield_now() {
        crate::env::preempt()
    }
    pub fn sleep(_: ::std::time::Duration) {
        crate::env::preempt()
    }
}
pub mod hint {
    pub use ::std::hint::*;
    pub fn spin_loop() {}
}

/// What a `#[linkme::distributed_slice]` declaration becomes.
pub struct DistSlice<T: 'static>(::std::marker::PhantomData<&'static [T]>);

unsafe impl<T> Sync for DistSlice<T> {}

/// The slice that every `DistSlice` denotes: (pointer, length).
pub static mut DIST_SLICE: Option<(*const u8, usize)> = None;

impl<T> DistSlice<T> {
    pub const fn new() -> Self {
        Self(::std::marker::PhantomData)
    }
    pub fn static_slice(self) -> &'static [T] {
        &*Box::leak(Box::new(self))
    }
}

impl<T> ::std::ops::Deref for DistSlice<T> {
    type Target = [T];
    fn deref(&self) -> &[T] {
        match unsafe { DIST_SLICE } {
            Some((ptr, len)) => unsafe { ::std::slice::from_raw_parts(ptr as *const T, len) },
            None => &[],
        }
    }
}

impl<T> IntoIterator for &DistSlice<T> {
    type Item = &'static T;
    type IntoIter = ::std::slice::Iter<'static, T>;
    fn into_iter(self) -> Self::IntoIter {
        let s: &[T] = self;
        unsafe { ::std::slice::from_raw_parts(s.as_ptr(), s.len()) }.iter()
    }
}

/// Memory for `n` values of type `T`, never initialised and never read: for
/// harnesses that only compare addresses. `n` may be symbolic.
pub fn opaque_slice<T>(n: usize) -> *const T {
    let size = ::std::mem::size_of::<T>();
    kani_assume(n <= (1usize << 40) / size);
    let layout = unsafe {
        ::std::alloc::Layout::from_size_align_unchecked(n * size + 1, ::std::mem::align_of::<T>())
    };
    unsafe { ::std::alloc::alloc(layout) as *const T }
}

#[cfg(kani)]
pub fn kani_assume(b: bool) {
    kani::assume(b)
}
#[cfg(not(kani))]
pub fn kani_assume(_: bool) {}
#[cfg(kani)]
pub fn any_bool() -> bool {
    kani::any()
}
#[cfg(not(kani))]
pub fn any_bool() -> bool {
    false
}

/// For `should_panic` harnesses: reaching this is not the expected panic but a
/// failed memory check.
pub fn must_not_return<T>(_: &T) {
    let p: *const u8 = ::std::ptr::null();
    unsafe {
        let v = *p;
        kani_assume(v == 0 || v != 0);
    }
}
