//! Locks whose waiting is visible to the scheduler. `Raw` is shared with the
//! parking_lot stub.
use crate::rt;
use ::std::cell::UnsafeCell;
use ::std::fmt;
use ::std::ops::{Deref, DerefMut};
use ::std::sync::atomic::{AtomicIsize, Ordering};
use ::std::sync::{LockResult, PoisonError, TryLockError, TryLockResult};

#[derive(Default)]
pub struct Raw(AtomicIsize);

impl Raw {
    pub const fn new() -> Self {
        Raw(AtomicIsize::new(0))
    }
    fn key(&self) -> usize {
        self as *const Raw as usize
    }
    pub fn try_write(&self) -> bool {
        self.0
            .compare_exchange(0, -1, Ordering::AcqRel, Ordering::Acquire)
            .is_ok()
    }
    pub fn try_read(&self) -> bool {
        let v = self.0.load(Ordering::Acquire);
        v >= 0
            && self
                .0
                .compare_exchange(v, v + 1, Ordering::AcqRel, Ordering::Acquire)
                .is_ok()
    }
    pub fn write(&self) {
        rt::seam("lock");
        while !self.try_write() {
            if ::std::thread::panicking() {
                return;
            }
            rt::block(self.key(), "lock");
        }
    }
    pub fn read(&self) {
        rt::seam("lock");
        while !self.try_read() {
            if ::std::thread::panicking() {
                return;
            }
            rt::block(self.key(), "lock");
        }
    }
    pub fn unlock_write(&self) {
        self.0.store(0, Ordering::Release);
        rt::wake(self.key());
    }
    pub fn unlock_read(&self) {
        self.0.fetch_sub(1, Ordering::AcqRel);
        rt::wake(self.key());
    }
}

pub struct Mutex<T: ?Sized> {
    raw: Raw,
    data: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}

pub struct MutexGuard<'a, T: ?Sized>(&'a Mutex<T>);

impl<T> Mutex<T> {
    pub const fn new(t: T) -> Self {
        Mutex {
            raw: Raw::new(),
            data: UnsafeCell::new(t),
        }
    }
    pub fn into_inner(self) -> LockResult<T> {
        Ok(self.data.into_inner())
    }
}
impl<T: ?Sized> Mutex<T> {
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        self.raw.write();
        Ok(MutexGuard(self))
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        rt::seam("try_lock");
        if self.raw.try_write() {
            Ok(MutexGuard(self))
        } else {
            Err(TryLockError::WouldBlock)
        }
    }
    pub fn get_mut(&mut self) -> Result<&mut T, PoisonError<&mut T>> {
        Ok(self.data.get_mut())
    }
    pub fn is_poisoned(&self) -> bool {
        false
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Mutex::new(T::default())
    }
}
impl<T: ?Sized> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Mutex")
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.0.data.get() }
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.0.data.get() }
    }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        self.0.raw.unlock_write();
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}

pub struct RwLock<T: ?Sized> {
    raw: Raw,
    data: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
pub struct RwLockReadGuard<'a, T: ?Sized>(&'a RwLock<T>);
pub struct RwLockWriteGuard<'a, T: ?Sized>(&'a RwLock<T>);

impl<T> RwLock<T> {
    pub const fn new(t: T) -> Self {
        RwLock {
            raw: Raw::new(),
            data: UnsafeCell::new(t),
        }
    }
}
impl<T: ?Sized> RwLock<T> {
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        self.raw.read();
        Ok(RwLockReadGuard(self))
    }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        self.raw.write();
        Ok(RwLockWriteGuard(self))
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        RwLock::new(T::default())
    }
}
impl<T: ?Sized> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("RwLock")
    }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.0.data.get() }
    }
}
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        self.0.raw.unlock_read();
    }
}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.0.data.get() }
    }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.0.data.get() }
    }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        self.0.raw.unlock_write();
    }
}
