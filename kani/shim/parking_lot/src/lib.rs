//! Contract stand-in for `parking_lot::RwLock` and `Mutex`: mutual exclusion,
//! no poisoning. A thread that already holds the lock and acquires it again in
//! a conflicting mode would deadlock: that is an error here. Other threads
//! step only when the lock is acquired; if an environment step needs a lock
//! that the verified thread holds it would wait, so that schedule is dropped.
use std::cell::{Cell, UnsafeCell};
use std::ops::{Deref, DerefMut};

pub struct RwLock<T> {
    readers: Cell<usize>,
    writer: Cell<bool>,
    data: UnsafeCell<T>,
}
unsafe impl<T: Send + Sync> Sync for RwLock<T> {}
unsafe impl<T: Send> Send for RwLock<T> {}

pub const fn const_rwlock<T>(t: T) -> RwLock<T> {
    RwLock::new(t)
}

impl<T> From<T> for RwLock<T> {
    fn from(t: T) -> Self {
        Self::new(t)
    }
}

fn conflict(c: bool) {
    if c {
        if vshim::env::in_env() {
            vshim::kani_assume(false);
        }
        panic!("self-deadlock: lock acquired again while held");
    }
}

impl<T> RwLock<T> {
    pub const fn new(t: T) -> Self {
        Self {
            readers: Cell::new(0),
            writer: Cell::new(false),
            data: UnsafeCell::new(t),
        }
    }
    pub fn read(&self) -> RwLockReadGuard<'_, T> {
        vshim::env::preempt();
        conflict(self.writer.get());
        self.readers.set(self.readers.get() + 1);
        RwLockReadGuard(self)
    }
    pub fn write(&self) -> RwLockWriteGuard<'_, T> {
        vshim::env::preempt();
        conflict(self.writer.get() || self.readers.get() != 0);
        self.writer.set(true);
        RwLockWriteGuard(self)
    }
    /// Fails if the lock is held, by this thread or by another one.
    pub fn try_read(&self) -> Option<RwLockReadGuard<'_, T>> {
        vshim::env::preempt();
        if self.writer.get() || vshim::env::steps() {
            return None;
        }
        self.readers.set(self.readers.get() + 1);
        Some(RwLockReadGuard(self))
    }
    pub fn try_write(&self) -> Option<RwLockWriteGuard<'_, T>> {
        vshim::env::preempt();
        if self.writer.get() || self.readers.get() != 0 || vshim::env::steps() {
            return None;
        }
        self.writer.set(true);
        Some(RwLockWriteGuard(self))
    }
    /// Waiting for a limited time may fail as not waiting at all may.
    pub fn try_read_for(&self, _: std::time::Duration) -> Option<RwLockReadGuard<'_, T>> {
        self.try_read()
    }
    pub fn try_read_until(&self, _: std::time::Instant) -> Option<RwLockReadGuard<'_, T>> {
        self.try_read()
    }
    pub fn try_write_for(&self, _: std::time::Duration) -> Option<RwLockWriteGuard<'_, T>> {
        self.try_write()
    }
    pub fn try_write_until(&self, _: std::time::Instant) -> Option<RwLockWriteGuard<'_, T>> {
        self.try_write()
    }
    pub fn read_recursive(&self) -> RwLockReadGuard<'_, T> {
        self.read()
    }
    pub fn upgradable_read(&self) -> RwLockUpgradableReadGuard<'_, T> {
        RwLockUpgradableReadGuard(self.read())
    }
    /// Whether some thread holds the lock: anything, unless this one does.
    pub fn is_locked(&self) -> bool {
        self.writer.get() || self.readers.get() != 0 || vshim::env::steps()
    }
    pub fn is_locked_exclusive(&self) -> bool {
        self.writer.get() || vshim::env::steps()
    }
    pub fn get_mut(&mut self) -> &mut T {
        self.data.get_mut()
    }
    pub fn into_inner(self) -> T {
        self.data.into_inner()
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        Self::new(T::default())
    }
}

impl<'a, T> RwLockWriteGuard<'a, T> {
    /// The lock is kept throughout.
    pub fn downgrade(s: Self) -> RwLockReadGuard<'a, T> {
        let l = s.0;
        drop(s);
        l.readers.set(l.readers.get() + 1);
        RwLockReadGuard(l)
    }
}

/// No other thread writes between the acquisition and the upgrade.
pub struct RwLockUpgradableReadGuard<'a, T>(RwLockReadGuard<'a, T>);
impl<'a, T> RwLockUpgradableReadGuard<'a, T> {
    pub fn upgrade(s: Self) -> RwLockWriteGuard<'a, T> {
        let l = s.0 .0;
        drop(s);
        conflict(l.readers.get() != 0);
        l.writer.set(true);
        RwLockWriteGuard(l)
    }
    pub fn downgrade(s: Self) -> RwLockReadGuard<'a, T> {
        s.0
    }
}
impl<'a, T> Deref for RwLockUpgradableReadGuard<'a, T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.0
    }
}

pub struct RwLockReadGuard<'a, T>(&'a RwLock<T>);
pub struct RwLockWriteGuard<'a, T>(&'a RwLock<T>);
impl<'a, T> Deref for RwLockReadGuard<'a, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.0.data.get() }
    }
}
impl<'a, T> Deref for RwLockWriteGuard<'a, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.0.data.get() }
    }
}
impl<'a, T> DerefMut for RwLockWriteGuard<'a, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.0.data.get() }
    }
}
impl<'a, T> Drop for RwLockReadGuard<'a, T> {
    fn drop(&mut self) {
        self.0.readers.set(self.0.readers.get() - 1);
    }
}
impl<'a, T> Drop for RwLockWriteGuard<'a, T> {
    fn drop(&mut self) {
        self.0.writer.set(false);
    }
}

pub struct Mutex<T>(RwLock<T>);
pub type MutexGuard<'a, T> = RwLockWriteGuard<'a, T>;
pub const fn const_mutex<T>(t: T) -> Mutex<T> {
    Mutex::new(t)
}
impl<T> From<T> for Mutex<T> {
    fn from(t: T) -> Self {
        Self::new(t)
    }
}
impl<T> Mutex<T> {
    pub const fn new(t: T) -> Self {
        Self(RwLock::new(t))
    }
    pub fn lock(&self) -> MutexGuard<'_, T> {
        self.0.write()
    }
    pub fn try_lock(&self) -> Option<MutexGuard<'_, T>> {
        self.0.try_write()
    }
    pub fn try_lock_for(&self, _: std::time::Duration) -> Option<MutexGuard<'_, T>> {
        self.0.try_write()
    }
    pub fn is_locked(&self) -> bool {
        self.0.is_locked_exclusive()
    }
    pub fn get_mut(&mut self) -> &mut T {
        self.0.get_mut()
    }
    pub fn into_inner(self) -> T {
        self.0.into_inner()
    }
}
