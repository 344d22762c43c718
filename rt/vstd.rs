//! Stand-in for `std`, given to the unmodified library with `--extern std=`.
//! Everything is the real std except threads, locks, condition variables,
//! atomics, clocks and HashMap/HashSet, which become calls to the vm_* interface
//! (interpreted by the symbolic VM, or by the native replay runtime `vrt`).
#![allow(dead_code, unused_imports, private_interfaces, internal_features)]
#![cfg_attr(sym_arc, feature(coerce_unsized, dispatch_from_dyn, unsize, legacy_receiver_trait))]
pub use ::std::*;

#[cfg(sym_arc)]
#[path = "arc.rs"]
mod arc;
#[path = "more.rs"]
pub mod more;

pub mod vm {
  extern "C" {
    pub fn vm_lock(a: *const u8, w: i64);
    pub fn vm_unlock(a: *const u8, w: i64);
    pub fn vm_trylock(a: *const u8, w: i64) -> i64;
    pub fn vm_atomic(a: *const u8, w: i64);
    pub fn vm_cv_wait(cv: *const u8, lock: *const u8);
    pub fn vm_cv_wait_to(cv: *const u8, lock: *const u8, ns: i64) -> i64;
    pub fn vm_cv_notify(cv: *const u8, all: i64);
    pub fn vm_spawn(f: extern "C" fn(*mut u8), data: *mut u8) -> i64;
    pub fn vm_join(t: i64);
    pub fn vm_sleep(ns: i64);
    pub fn vm_mark(k: i64, a: i64, b: i64);
    pub fn vm_yield();
    pub fn vm_now() -> i64;
    pub fn vm_tid() -> i64;
    pub fn vm_thread_done(t: i64) -> i64;
  }
}

fn dur_ns(d: ::std::time::Duration) -> i64 {
  if d.as_secs() == 0 {
    d.subsec_nanos() as i64
  } else {
    (d.as_secs() as i64).wrapping_mul(1_000_000_000).wrapping_add(d.subsec_nanos() as i64)
  }
}
fn ns_dur(ns: i64) -> ::std::time::Duration {
  if ns < 1_000_000_000 {
    ::std::time::Duration::new(0, ns as u32)
  } else {
    ::std::time::Duration::from_nanos(ns as u64)
  }
}

pub mod sync {
  use crate::vm::*;
  use ::std::cell::UnsafeCell;
  use ::std::fmt;
  use ::std::ops::{Deref, DerefMut};
  pub use ::std::sync::*;
  #[cfg(sym_arc)]
  pub use crate::arc::{Arc, Weak};
  pub use crate::more::{mpsc, Barrier, BarrierWaitResult, LazyLock, Once, OnceLock};

  /// Marks a lock and the extent of what it protects in memory.
  pub const MAGIC: u64 = 0x5AFE_10CC_ED00_F00D;
  #[repr(C)]
  pub struct Key {
    magic: u64,
    size: u64,
  }
  impl Key {
    pub const fn new<T>() -> Key {
      Key { magic: MAGIC, size: ::std::mem::size_of::<T>() as u64 }
    }
    #[inline(always)]
    fn p(&self) -> *const u8 {
      self as *const Key as *const u8
    }
  }

  #[repr(C)]
  pub struct Mutex<T: ?Sized> {
    key: Key,
    data: UnsafeCell<T>,
  }
  unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
  unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
  pub struct MutexGuard<'a, T: ?Sized + 'a> {
    lock: &'a Mutex<T>,
  }
  unsafe impl<T: ?Sized + Sync> Sync for MutexGuard<'_, T> {}
  impl<T> Mutex<T> {
    pub const fn new(t: T) -> Mutex<T> {
      Mutex { key: Key::new::<T>(), data: UnsafeCell::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
      Ok(self.data.into_inner())
    }
  }
  impl<T: ?Sized> Mutex<T> {
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
      unsafe { vm_lock(self.key.p(), 1) };
      Ok(MutexGuard { lock: self })
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
      if unsafe { vm_trylock(self.key.p(), 1) } != 0 {
        Ok(MutexGuard { lock: self })
      } else {
        Err(TryLockError::WouldBlock)
      }
    }
    pub fn is_poisoned(&self) -> bool {
      false
    }
    pub fn clear_poison(&self) {}
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
      Ok(self.data.get_mut())
    }
  }
  impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
      Mutex::new(T::default())
    }
  }
  impl<T> From<T> for Mutex<T> {
    fn from(t: T) -> Self {
      Mutex::new(t)
    }
  }
  impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
      f.write_str("Mutex")
    }
  }
  impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
      unsafe { &*self.lock.data.get() }
    }
  }
  impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
      unsafe { &mut *self.lock.data.get() }
    }
  }
  impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
      unsafe { vm_unlock(self.lock.key.p(), 1) }
    }
  }
  impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
      (**self).fmt(f)
    }
  }

  #[repr(C)]
  pub struct RwLock<T: ?Sized> {
    key: Key,
    data: UnsafeCell<T>,
  }
  unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
  unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
  pub struct RwLockReadGuard<'a, T: ?Sized + 'a> {
    lock: &'a RwLock<T>,
  }
  pub struct RwLockWriteGuard<'a, T: ?Sized + 'a> {
    lock: &'a RwLock<T>,
  }
  impl<T> RwLock<T> {
    pub const fn new(t: T) -> RwLock<T> {
      RwLock { key: Key::new::<T>(), data: UnsafeCell::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
      Ok(self.data.into_inner())
    }
  }
  impl<T: ?Sized> RwLock<T> {
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
      unsafe { vm_lock(self.key.p(), 0) };
      Ok(RwLockReadGuard { lock: self })
    }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
      unsafe { vm_lock(self.key.p(), 1) };
      Ok(RwLockWriteGuard { lock: self })
    }
    pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
      if unsafe { vm_trylock(self.key.p(), 0) } != 0 {
        Ok(RwLockReadGuard { lock: self })
      } else {
        Err(TryLockError::WouldBlock)
      }
    }
    pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
      if unsafe { vm_trylock(self.key.p(), 1) } != 0 {
        Ok(RwLockWriteGuard { lock: self })
      } else {
        Err(TryLockError::WouldBlock)
      }
    }
    pub fn is_poisoned(&self) -> bool {
      false
    }
    pub fn clear_poison(&self) {}
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
      Ok(self.data.get_mut())
    }
  }
  impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
      RwLock::new(T::default())
    }
  }
  impl<T> From<T> for RwLock<T> {
    fn from(t: T) -> Self {
      RwLock::new(t)
    }
  }
  impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
      f.write_str("RwLock")
    }
  }
  impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
      unsafe { &*self.lock.data.get() }
    }
  }
  impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
      unsafe { &*self.lock.data.get() }
    }
  }
  impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
      unsafe { &mut *self.lock.data.get() }
    }
  }
  impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
      unsafe { vm_unlock(self.lock.key.p(), 0) }
    }
  }
  impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
      unsafe { vm_unlock(self.lock.key.p(), 1) }
    }
  }

  #[repr(C)]
  pub struct Condvar {
    key: Key,
  }
  #[derive(Debug, PartialEq, Eq, Copy, Clone)]
  pub struct WaitTimeoutResult(bool);
  impl WaitTimeoutResult {
    pub fn timed_out(&self) -> bool {
      self.0
    }
  }
  impl Default for Condvar {
    fn default() -> Self {
      Condvar::new()
    }
  }
  impl fmt::Debug for Condvar {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
      f.write_str("Condvar")
    }
  }
  impl Condvar {
    pub const fn new() -> Condvar {
      Condvar { key: Key::new::<()>() }
    }
    pub fn wait<'a, T>(&self, g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
      unsafe { vm_cv_wait(self.key.p(), g.lock.key.p()) };
      Ok(g)
    }
    pub fn wait_while<'a, T, F>(
      &self,
      mut g: MutexGuard<'a, T>,
      mut cond: F,
    ) -> LockResult<MutexGuard<'a, T>>
    where
      F: FnMut(&mut T) -> bool,
    {
      while cond(&mut *g) {
        unsafe { vm_cv_wait(self.key.p(), g.lock.key.p()) };
      }
      Ok(g)
    }
    pub fn wait_timeout<'a, T>(
      &self,
      g: MutexGuard<'a, T>,
      d: ::std::time::Duration,
    ) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
      let r = unsafe { vm_cv_wait_to(self.key.p(), g.lock.key.p(), crate::dur_ns(d)) };
      Ok((g, WaitTimeoutResult(r != 0)))
    }
    pub fn wait_timeout_while<'a, T, F>(
      &self,
      mut g: MutexGuard<'a, T>,
      d: ::std::time::Duration,
      mut cond: F,
    ) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)>
    where
      F: FnMut(&mut T) -> bool,
    {
      let start = unsafe { vm_now() };
      let total = crate::dur_ns(d);
      loop {
        if !cond(&mut *g) {
          return Ok((g, WaitTimeoutResult(false)));
        }
        let spent = unsafe { vm_now() } - start;
        if spent >= total {
          return Ok((g, WaitTimeoutResult(true)));
        }
        unsafe { vm_cv_wait_to(self.key.p(), g.lock.key.p(), total - spent) };
      }
    }
    pub fn notify_one(&self) {
      unsafe { vm_cv_notify(self.key.p(), 0) }
    }
    pub fn notify_all(&self) {
      unsafe { vm_cv_notify(self.key.p(), 1) }
    }
  }

  pub mod atomic {
    use crate::vm::*;
    use ::std::cell::UnsafeCell;
    use ::std::fmt;
    pub use ::std::sync::atomic::*;

    macro_rules! at {
      ($n:ident, $t:ty) => {
        #[repr(C)]
        pub struct $n {
          key: super::Key,
          v: UnsafeCell<$t>,
        }
        unsafe impl Send for $n {}
        unsafe impl Sync for $n {}
        impl ::std::panic::RefUnwindSafe for $n {}
        impl $n {
          pub const fn new(v: $t) -> Self {
            Self { key: super::Key::new::<$t>(), v: UnsafeCell::new(v) }
          }
          #[inline]
          fn ev(&self, w: i64) {
            unsafe { vm_atomic(self.v.get() as *const u8, w) }
          }
          pub fn load(&self, _o: Ordering) -> $t {
            self.ev(0);
            unsafe { *self.v.get() }
          }
          pub fn store(&self, v: $t, _o: Ordering) {
            self.ev(1);
            unsafe { *self.v.get() = v }
          }
          pub fn swap(&self, v: $t, _o: Ordering) -> $t {
            self.ev(1);
            unsafe { ::std::mem::replace(&mut *self.v.get(), v) }
          }
          pub fn compare_exchange(
            &self,
            c: $t,
            n: $t,
            _a: Ordering,
            _b: Ordering,
          ) -> Result<$t, $t> {
            self.ev(1);
            unsafe {
              let x = *self.v.get();
              if x == c {
                *self.v.get() = n;
                Ok(x)
              } else {
                Err(x)
              }
            }
          }
          pub fn compare_exchange_weak(
            &self,
            c: $t,
            n: $t,
            a: Ordering,
            b: Ordering,
          ) -> Result<$t, $t> {
            self.compare_exchange(c, n, a, b)
          }
          pub fn compare_and_swap(&self, c: $t, n: $t, a: Ordering) -> $t {
            match self.compare_exchange(c, n, a, a) {
              Ok(x) => x,
              Err(x) => x,
            }
          }
          pub fn fetch_update<F>(&self, _a: Ordering, _b: Ordering, mut f: F) -> Result<$t, $t>
          where
            F: FnMut($t) -> Option<$t>,
          {
            self.ev(1);
            unsafe {
              let x = *self.v.get();
              match f(x) {
                Some(n) => {
                  *self.v.get() = n;
                  Ok(x)
                }
                None => Err(x),
              }
            }
          }
          pub fn fetch_and(&self, v: $t, _o: Ordering) -> $t {
            self.ev(1);
            unsafe {
              let x = *self.v.get();
              *self.v.get() = x & v;
              x
            }
          }
          pub fn fetch_or(&self, v: $t, _o: Ordering) -> $t {
            self.ev(1);
            unsafe {
              let x = *self.v.get();
              *self.v.get() = x | v;
              x
            }
          }
          pub fn fetch_xor(&self, v: $t, _o: Ordering) -> $t {
            self.ev(1);
            unsafe {
              let x = *self.v.get();
              *self.v.get() = x ^ v;
              x
            }
          }
          pub fn get_mut(&mut self) -> &mut $t {
            self.v.get_mut()
          }
          pub fn into_inner(self) -> $t {
            self.v.into_inner()
          }
        }
        impl From<$t> for $n {
          fn from(v: $t) -> Self {
            Self::new(v)
          }
        }
        impl Default for $n {
          fn default() -> Self {
            Self::new(Default::default())
          }
        }
        impl fmt::Debug for $n {
          fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str(stringify!($n))
          }
        }
      };
    }
    macro_rules! atn {
      ($n:ident, $t:ty) => {
        at!($n, $t);
        impl $n {
          pub fn fetch_add(&self, v: $t, _o: Ordering) -> $t {
            self.ev(1);
            unsafe {
              let x = *self.v.get();
              *self.v.get() = x.wrapping_add(v);
              x
            }
          }
          pub fn fetch_sub(&self, v: $t, _o: Ordering) -> $t {
            self.ev(1);
            unsafe {
              let x = *self.v.get();
              *self.v.get() = x.wrapping_sub(v);
              x
            }
          }
          pub fn fetch_max(&self, v: $t, _o: Ordering) -> $t {
            self.ev(1);
            unsafe {
              let x = *self.v.get();
              *self.v.get() = x.max(v);
              x
            }
          }
          pub fn fetch_min(&self, v: $t, _o: Ordering) -> $t {
            self.ev(1);
            unsafe {
              let x = *self.v.get();
              *self.v.get() = x.min(v);
              x
            }
          }
        }
      };
    }
    at!(AtomicBool, bool);
    atn!(AtomicI8, i8);
    atn!(AtomicU8, u8);
    atn!(AtomicI16, i16);
    atn!(AtomicU16, u16);
    atn!(AtomicI32, i32);
    atn!(AtomicU32, u32);
    atn!(AtomicI64, i64);
    atn!(AtomicU64, u64);
    atn!(AtomicIsize, isize);
    atn!(AtomicUsize, usize);
  }
}

pub mod thread {
  use crate::vm::*;
  use ::std::cell::UnsafeCell;
  use crate::sync::Arc;
  pub use ::std::thread::*;

  #[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
  pub struct ThreadId(i64);
  #[derive(Clone, Debug)]
  pub struct Thread {
    id: ThreadId,
  }
  impl Thread {
    pub fn id(&self) -> ThreadId {
      self.id
    }
    pub fn name(&self) -> Option<&str> {
      None
    }
  }
  pub fn current() -> Thread {
    Thread { id: ThreadId(unsafe { vm_tid() }) }
  }
  pub fn panicking() -> bool {
    false
  }
  static mut MARKS: bool = false;
  /// From now on a sleep leaves the mark (40, 0, 0) before it begins.
  pub fn __mark_sleeps() {
    unsafe { MARKS = true }
  }
  pub fn sleep(d: ::std::time::Duration) {
    unsafe {
      if MARKS {
        vm_mark(40, 0, 0)
      }
    }
    unsafe { vm_sleep(crate::dur_ns(d)) }
  }
  #[allow(non_snake_case)]
  pub fn sleep_ms(ms: u32) {
    unsafe { vm_sleep(ms as i64 * 1_000_000) }
  }
  pub fn yield_now() {
    unsafe { vm_yield() }
  }

  struct Slot<T>(UnsafeCell<Option<T>>);
  unsafe impl<T> Send for Slot<T> {}
  unsafe impl<T> Sync for Slot<T> {}
  pub struct JoinHandle<T> {
    t: i64,
    slot: Arc<Slot<T>>,
  }
  unsafe impl<T> Send for JoinHandle<T> {}
  unsafe impl<T> Sync for JoinHandle<T> {}
  impl<T> JoinHandle<T> {
    pub fn join(self) -> Result<T> {
      unsafe {
        vm_join(self.t);
        Ok((*self.slot.0.get()).take().unwrap())
      }
    }
    pub fn is_finished(&self) -> bool {
      unsafe { vm_thread_done(self.t) != 0 }
    }
    pub fn thread(&self) -> Thread {
      Thread { id: ThreadId(self.t) }
    }
  }
  struct Start {
    f: Box<dyn FnOnce()>,
  }
  extern "C" fn tramp(p: *mut u8) {
    let s: Box<Start> = unsafe { Box::from_raw(p as *mut Start) };
    let f = s.f;
    f();
  }
  fn spawn_raw<F, T>(f: F) -> JoinHandle<T>
  where
    F: FnOnce() -> T,
  {
    let slot = Arc::new(Slot(UnsafeCell::new(None)));
    let s2 = slot.clone();
    let b: Box<dyn FnOnce() + '_> = Box::new(move || {
      let r = f();
      unsafe { *s2.0.get() = Some(r) };
    });
    let b: Box<dyn FnOnce() + 'static> = unsafe { ::std::mem::transmute(b) };
    let st = Box::into_raw(Box::new(Start { f: b })) as *mut u8;
    let t = unsafe { vm_spawn(tramp, st) };
    JoinHandle { t, slot }
  }
  pub fn spawn<F, T>(f: F) -> JoinHandle<T>
  where
    F: FnOnce() -> T + Send + 'static,
    T: Send + 'static,
  {
    spawn_raw(f)
  }
  #[derive(Default, Debug)]
  pub struct Builder {}
  impl Builder {
    pub fn new() -> Builder {
      Builder {}
    }
    pub fn name(self, _n: String) -> Builder {
      self
    }
    pub fn stack_size(self, _n: usize) -> Builder {
      self
    }
    pub fn spawn<F, T>(self, f: F) -> ::std::io::Result<JoinHandle<T>>
    where
      F: FnOnce() -> T + Send + 'static,
      T: Send + 'static,
    {
      Ok(spawn_raw(f))
    }
    pub unsafe fn spawn_unchecked<F, T>(self, f: F) -> ::std::io::Result<JoinHandle<T>>
    where
      F: FnOnce() -> T + Send,
      T: Send,
    {
      Ok(spawn_raw(f))
    }
  }
}

pub mod time {
  use crate::vm::*;
  use ::std::ops::{Add, AddAssign, Sub, SubAssign};
  pub use ::std::time::*;

  macro_rules! clk {
    ($n:ident) => {
      #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
      pub struct $n {
        ns: i64,
      }
      impl $n {
        pub fn now() -> $n {
          $n { ns: unsafe { vm_now() } }
        }
        pub fn checked_add(&self, d: Duration) -> Option<$n> {
          Some($n { ns: self.ns + crate::dur_ns(d) })
        }
        pub fn checked_sub(&self, d: Duration) -> Option<$n> {
          Some($n { ns: self.ns - crate::dur_ns(d) })
        }
      }
      impl Add<Duration> for $n {
        type Output = $n;
        fn add(self, d: Duration) -> $n {
          $n { ns: self.ns + crate::dur_ns(d) }
        }
      }
      impl Sub<Duration> for $n {
        type Output = $n;
        fn sub(self, d: Duration) -> $n {
          $n { ns: self.ns - crate::dur_ns(d) }
        }
      }
      impl AddAssign<Duration> for $n {
        fn add_assign(&mut self, d: Duration) {
          self.ns += crate::dur_ns(d)
        }
      }
      impl SubAssign<Duration> for $n {
        fn sub_assign(&mut self, d: Duration) {
          self.ns -= crate::dur_ns(d)
        }
      }
    };
  }
  clk!(Instant);
  clk!(SystemTime);
  impl Instant {
    pub fn elapsed(&self) -> Duration {
      crate::ns_dur(unsafe { vm_now() } - self.ns)
    }
    pub fn duration_since(&self, o: Instant) -> Duration {
      if self.ns < o.ns {
        return Duration::new(0, 0);
      }
      crate::ns_dur(self.ns - o.ns)
    }
    pub fn saturating_duration_since(&self, o: Instant) -> Duration {
      self.duration_since(o)
    }
    pub fn checked_duration_since(&self, o: Instant) -> Option<Duration> {
      if self.ns < o.ns {
        None
      } else {
        Some(crate::ns_dur(self.ns - o.ns))
      }
    }
  }
  impl Sub<Instant> for Instant {
    type Output = Duration;
    fn sub(self, o: Instant) -> Duration {
      self.duration_since(o)
    }
  }
  impl SystemTime {
    pub const UNIX_EPOCH: SystemTime = SystemTime { ns: 0 };
    pub fn elapsed(&self) -> Result<Duration, SystemTimeError> {
      Ok(crate::ns_dur(unsafe { vm_now() } - self.ns))
    }
    pub fn duration_since(&self, o: SystemTime) -> Result<Duration, SystemTimeError> {
      Ok(crate::ns_dur(self.ns - o.ns))
    }
  }
  pub const UNIX_EPOCH: SystemTime = SystemTime { ns: 0 };
}

pub mod collections {
  pub use self::hash_map::HashMap;
  pub use self::hash_set::HashSet;
  pub use ::std::collections::*;
  pub use self::vec_deque::VecDeque;

  /// After a removal: forget the stale bytes, and the buffer when nothing is left
  /// (so that equal collections have equal representations).
  fn tidy<T>(v: &mut Vec<T>, was: usize) {
    let n = v.len();
    if n == 0 {
      *v = Vec::new();
    } else {
      let mut i = n;
      while i < was {
        unsafe { ::std::ptr::write_bytes(v.as_mut_ptr().add(i), 0, 1) };
        i += 1;
      }
    }
  }

  pub mod vec_deque {
    //! Double-ended queue as a vector that always starts at its first slot.
    use super::tidy;
    use ::std::fmt;
    use ::std::ops::{Bound, Index, IndexMut, RangeBounds};
    pub use ::std::slice::{Iter, IterMut};
    pub use ::std::vec::{Drain, IntoIter};

    #[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub struct VecDeque<T> {
      v: Vec<T>,
    }
    impl<T> Default for VecDeque<T> {
      fn default() -> Self {
        VecDeque { v: Vec::new() }
      }
    }
    impl<T: fmt::Debug> fmt::Debug for VecDeque<T> {
      fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.v.fmt(f)
      }
    }
    impl<T> VecDeque<T> {
      pub const fn new() -> Self {
        VecDeque { v: Vec::new() }
      }
      pub fn with_capacity(n: usize) -> Self {
        VecDeque { v: Vec::with_capacity(n) }
      }
      pub fn len(&self) -> usize {
        self.v.len()
      }
      pub fn is_empty(&self) -> bool {
        self.v.is_empty()
      }
      pub fn capacity(&self) -> usize {
        self.v.capacity()
      }
      pub fn reserve(&mut self, _n: usize) {}
      pub fn shrink_to_fit(&mut self) {}
      pub fn push_back(&mut self, t: T) {
        self.v.push(t)
      }
      pub fn push_front(&mut self, t: T) {
        self.v.insert(0, t)
      }
      pub fn pop_front(&mut self) -> Option<T> {
        self.remove(0)
      }
      pub fn pop_back(&mut self) -> Option<T> {
        let n = self.v.len();
        let r = self.v.pop();
        tidy(&mut self.v, n);
        r
      }
      pub fn remove(&mut self, i: usize) -> Option<T> {
        let n = self.v.len();
        if i >= n {
          return None;
        }
        let r = self.v.remove(i);
        tidy(&mut self.v, n);
        Some(r)
      }
      pub fn insert(&mut self, i: usize, t: T) {
        self.v.insert(i, t)
      }
      pub fn swap(&mut self, i: usize, j: usize) {
        self.v.swap(i, j)
      }
      pub fn swap_remove_front(&mut self, i: usize) -> Option<T> {
        if i >= self.v.len() {
          return None;
        }
        self.v.swap(0, i);
        self.pop_front()
      }
      pub fn swap_remove_back(&mut self, i: usize) -> Option<T> {
        let n = self.v.len();
        if i >= n {
          return None;
        }
        self.v.swap(n - 1, i);
        self.pop_back()
      }
      pub fn rotate_left(&mut self, n: usize) {
        self.v.rotate_left(n)
      }
      pub fn rotate_right(&mut self, n: usize) {
        self.v.rotate_right(n)
      }
      pub fn front(&self) -> Option<&T> {
        self.v.first()
      }
      pub fn back(&self) -> Option<&T> {
        self.v.last()
      }
      pub fn front_mut(&mut self) -> Option<&mut T> {
        self.v.first_mut()
      }
      pub fn back_mut(&mut self) -> Option<&mut T> {
        self.v.last_mut()
      }
      pub fn get(&self, i: usize) -> Option<&T> {
        self.v.get(i)
      }
      pub fn get_mut(&mut self, i: usize) -> Option<&mut T> {
        self.v.get_mut(i)
      }
      pub fn iter(&self) -> Iter<'_, T> {
        self.v.iter()
      }
      pub fn iter_mut(&mut self) -> IterMut<'_, T> {
        self.v.iter_mut()
      }
      pub fn range<R: RangeBounds<usize>>(&self, r: R) -> Iter<'_, T> {
        self.v[(r.start_bound().cloned(), r.end_bound().cloned())].iter()
      }
      pub fn range_mut<R: RangeBounds<usize>>(&mut self, r: R) -> IterMut<'_, T> {
        self.v[(r.start_bound().cloned(), r.end_bound().cloned())].iter_mut()
      }
      pub fn contains(&self, t: &T) -> bool
      where
        T: PartialEq,
      {
        self.v.contains(t)
      }
      pub fn clear(&mut self) {
        self.v = Vec::new();
      }
      pub fn truncate(&mut self, n: usize) {
        let w = self.v.len();
        self.v.truncate(n);
        tidy(&mut self.v, w);
      }
      pub fn resize(&mut self, n: usize, t: T)
      where
        T: Clone,
      {
        let w = self.v.len();
        self.v.resize(n, t);
        tidy(&mut self.v, w);
      }
      pub fn resize_with<F: FnMut() -> T>(&mut self, n: usize, f: F) {
        let w = self.v.len();
        self.v.resize_with(n, f);
        tidy(&mut self.v, w);
      }
      pub fn retain<F: FnMut(&T) -> bool>(&mut self, f: F) {
        let w = self.v.len();
        self.v.retain(f);
        tidy(&mut self.v, w);
      }
      pub fn retain_mut<F: FnMut(&mut T) -> bool>(&mut self, f: F) {
        let w = self.v.len();
        self.v.retain_mut(f);
        tidy(&mut self.v, w);
      }
      /// What is drained is moved out at once.
      pub fn drain<R: RangeBounds<usize>>(&mut self, r: R) -> IntoIter<T> {
        let n = self.v.len();
        let a = match r.start_bound() {
          Bound::Included(x) => *x,
          Bound::Excluded(x) => *x + 1,
          Bound::Unbounded => 0,
        };
        let b = match r.end_bound() {
          Bound::Included(x) => *x + 1,
          Bound::Excluded(x) => *x,
          Bound::Unbounded => n,
        };
        if a == 0 && b == n {
          return ::std::mem::take(&mut self.v).into_iter();
        }
        let tail = self.v.split_off(b);
        let mid = self.v.split_off(a);
        self.v.extend(tail);
        tidy(&mut self.v, n);
        mid.into_iter()
      }
      pub fn append(&mut self, o: &mut Self) {
        let x = ::std::mem::take(&mut o.v);
        self.v.extend(x)
      }
      pub fn split_off(&mut self, i: usize) -> Self {
        let w = self.v.len();
        let x = self.v.split_off(i);
        tidy(&mut self.v, w);
        VecDeque { v: x }
      }
      pub fn make_contiguous(&mut self) -> &mut [T] {
        &mut self.v
      }
      pub fn as_slices(&self) -> (&[T], &[T]) {
        (&self.v, &[])
      }
      pub fn as_mut_slices(&mut self) -> (&mut [T], &mut [T]) {
        (&mut self.v, &mut [])
      }
      pub fn binary_search(&self, t: &T) -> Result<usize, usize>
      where
        T: Ord,
      {
        self.v.binary_search(t)
      }
      pub fn partition_point<P: FnMut(&T) -> bool>(&self, p: P) -> usize {
        self.v.partition_point(p)
      }
    }
    impl<T> Index<usize> for VecDeque<T> {
      type Output = T;
      fn index(&self, i: usize) -> &T {
        self.v.get(i).expect("Out of bounds access")
      }
    }
    impl<T> IndexMut<usize> for VecDeque<T> {
      fn index_mut(&mut self, i: usize) -> &mut T {
        self.v.get_mut(i).expect("Out of bounds access")
      }
    }
    impl<T> From<Vec<T>> for VecDeque<T> {
      fn from(v: Vec<T>) -> Self {
        VecDeque { v }
      }
    }
    impl<T> From<VecDeque<T>> for Vec<T> {
      fn from(v: VecDeque<T>) -> Self {
        v.v
      }
    }
    impl<T, const N: usize> From<[T; N]> for VecDeque<T> {
      fn from(a: [T; N]) -> Self {
        VecDeque { v: Vec::from(a) }
      }
    }
    impl<T> FromIterator<T> for VecDeque<T> {
      fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Self {
        VecDeque { v: i.into_iter().collect() }
      }
    }
    impl<T> Extend<T> for VecDeque<T> {
      fn extend<I: IntoIterator<Item = T>>(&mut self, i: I) {
        for t in i {
          self.v.push(t)
        }
      }
    }
    impl<'a, T: Copy + 'a> Extend<&'a T> for VecDeque<T> {
      fn extend<I: IntoIterator<Item = &'a T>>(&mut self, i: I) {
        for t in i {
          self.v.push(*t)
        }
      }
    }
    impl<T> IntoIterator for VecDeque<T> {
      type Item = T;
      type IntoIter = IntoIter<T>;
      fn into_iter(self) -> IntoIter<T> {
        self.v.into_iter()
      }
    }
    impl<'a, T> IntoIterator for &'a VecDeque<T> {
      type Item = &'a T;
      type IntoIter = Iter<'a, T>;
      fn into_iter(self) -> Iter<'a, T> {
        self.v.iter()
      }
    }
    impl<'a, T> IntoIterator for &'a mut VecDeque<T> {
      type Item = &'a mut T;
      type IntoIter = IterMut<'a, T>;
      fn into_iter(self) -> IterMut<'a, T> {
        self.v.iter_mut()
      }
    }
    impl<T: PartialEq> PartialEq<Vec<T>> for VecDeque<T> {
      fn eq(&self, o: &Vec<T>) -> bool {
        self.v == *o
      }
    }
  }

  pub mod hash_map {
    //! Map as an association list (insertion order; removal swaps nothing).
    use ::std::borrow::Borrow;
    use ::std::fmt;
    use ::std::hash::Hash;
    use ::std::ops::Index;

    #[derive(Clone)]
    pub struct HashMap<K, V> {
      v: Vec<(K, V)>,
    }
    impl<K, V> Default for HashMap<K, V> {
      fn default() -> Self {
        HashMap { v: Vec::new() }
      }
    }
    impl<K: fmt::Debug, V: fmt::Debug> fmt::Debug for HashMap<K, V> {
      fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_map().entries(self.v.iter().map(|(k, v)| (k, v))).finish()
      }
    }
    impl<K: Eq + Hash, V: PartialEq> PartialEq for HashMap<K, V> {
      fn eq(&self, o: &Self) -> bool {
        self.v.len() == o.v.len() && self.v.iter().all(|(k, v)| o.get(k) == Some(v))
      }
    }
    impl<K, V> HashMap<K, V> {
      pub const fn new() -> Self {
        HashMap { v: Vec::new() }
      }
      pub fn with_capacity(n: usize) -> Self {
        HashMap { v: Vec::with_capacity(n) }
      }
      pub fn len(&self) -> usize {
        self.v.len()
      }
      pub fn capacity(&self) -> usize {
        self.v.capacity()
      }
      pub fn is_empty(&self) -> bool {
        self.v.is_empty()
      }
      pub fn clear(&mut self) {
        self.v = Vec::new();
      }
      pub fn iter(&self) -> Iter<'_, K, V> {
        Iter { i: self.v.iter() }
      }
      pub fn iter_mut(&mut self) -> IterMut<'_, K, V> {
        IterMut { i: self.v.iter_mut() }
      }
      pub fn keys(&self) -> impl Iterator<Item = &K> + '_ {
        self.iter().map(|x| x.0)
      }
      pub fn values(&self) -> impl Iterator<Item = &V> + '_ {
        self.iter().map(|x| x.1)
      }
      pub fn values_mut(&mut self) -> impl Iterator<Item = &mut V> + '_ {
        self.iter_mut().map(|x| x.1)
      }
      pub fn into_keys(self) -> impl Iterator<Item = K> {
        self.v.into_iter().map(|x| x.0)
      }
      pub fn into_values(self) -> impl Iterator<Item = V> {
        self.v.into_iter().map(|x| x.1)
      }
      pub fn drain(&mut self) -> ::std::vec::IntoIter<(K, V)> {
        let mut v = ::std::mem::take(&mut self.v);
        if unsafe { REVERSE } {
          v.reverse()
        }
        v.into_iter()
      }
      pub fn retain<F: FnMut(&K, &mut V) -> bool>(&mut self, mut f: F) {
        let n = self.v.len();
        self.v.retain_mut(|x| f(&x.0, &mut x.1));
        super::tidy(&mut self.v, n);
      }
    }
    impl<K: Eq + Hash, V> HashMap<K, V> {
      fn pos<Q: ?Sized + Eq>(&self, k: &Q) -> Option<usize>
      where
        K: Borrow<Q>,
      {
        let mut i = 0;
        while i < self.v.len() {
          if self.v[i].0.borrow() == k {
            return Some(i);
          }
          i += 1;
        }
        None
      }
      pub fn reserve(&mut self, _n: usize) {}
      pub fn shrink_to_fit(&mut self) {}
      pub fn insert(&mut self, k: K, v: V) -> Option<V> {
        match self.pos(&k) {
          Some(i) => Some(::std::mem::replace(&mut self.v[i].1, v)),
          None => {
            self.v.push((k, v));
            None
          }
        }
      }
      pub fn remove<Q: ?Sized + Eq + Hash>(&mut self, k: &Q) -> Option<V>
      where
        K: Borrow<Q>,
      {
        self.remove_entry(k).map(|x| x.1)
      }
      pub fn remove_entry<Q: ?Sized + Eq + Hash>(&mut self, k: &Q) -> Option<(K, V)>
      where
        K: Borrow<Q>,
      {
        match self.pos(k) {
          Some(i) => {
            let n = self.v.len();
            let r = self.v.remove(i);
            super::tidy(&mut self.v, n);
            Some(r)
          }
          None => None,
        }
      }
      pub fn get<Q: ?Sized + Eq + Hash>(&self, k: &Q) -> Option<&V>
      where
        K: Borrow<Q>,
      {
        match self.pos(k) {
          Some(i) => Some(&self.v[i].1),
          None => None,
        }
      }
      pub fn get_key_value<Q: ?Sized + Eq + Hash>(&self, k: &Q) -> Option<(&K, &V)>
      where
        K: Borrow<Q>,
      {
        match self.pos(k) {
          Some(i) => Some((&self.v[i].0, &self.v[i].1)),
          None => None,
        }
      }
      pub fn get_mut<Q: ?Sized + Eq + Hash>(&mut self, k: &Q) -> Option<&mut V>
      where
        K: Borrow<Q>,
      {
        match self.pos(k) {
          Some(i) => Some(&mut self.v[i].1),
          None => None,
        }
      }
      pub fn contains_key<Q: ?Sized + Eq + Hash>(&self, k: &Q) -> bool
      where
        K: Borrow<Q>,
      {
        self.pos(k).is_some()
      }
      pub fn entry(&mut self, k: K) -> Entry<'_, K, V> {
        match self.pos(&k) {
          Some(i) => Entry::Occupied(OccupiedEntry { m: self, i }),
          None => Entry::Vacant(VacantEntry { m: self, k }),
        }
      }
    }
    pub enum Entry<'a, K, V> {
      Occupied(OccupiedEntry<'a, K, V>),
      Vacant(VacantEntry<'a, K, V>),
    }
    pub struct OccupiedEntry<'a, K, V> {
      m: &'a mut HashMap<K, V>,
      i: usize,
    }
    pub struct VacantEntry<'a, K, V> {
      m: &'a mut HashMap<K, V>,
      k: K,
    }
    impl<'a, K, V> OccupiedEntry<'a, K, V> {
      pub fn key(&self) -> &K {
        &self.m.v[self.i].0
      }
      pub fn get(&self) -> &V {
        &self.m.v[self.i].1
      }
      pub fn get_mut(&mut self) -> &mut V {
        &mut self.m.v[self.i].1
      }
      pub fn into_mut(self) -> &'a mut V {
        &mut self.m.v[self.i].1
      }
      pub fn insert(&mut self, v: V) -> V {
        ::std::mem::replace(&mut self.m.v[self.i].1, v)
      }
      pub fn remove(self) -> V {
        let n = self.m.v.len();
        let r = self.m.v.remove(self.i).1;
        super::tidy(&mut self.m.v, n);
        r
      }
    }
    impl<'a, K, V> VacantEntry<'a, K, V> {
      pub fn key(&self) -> &K {
        &self.k
      }
      pub fn insert(self, v: V) -> &'a mut V {
        self.m.v.push((self.k, v));
        &mut self.m.v.last_mut().unwrap().1
      }
    }
    impl<'a, K, V> Entry<'a, K, V> {
      pub fn or_insert(self, v: V) -> &'a mut V {
        self.or_insert_with(|| v)
      }
      pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> &'a mut V {
        match self {
          Entry::Occupied(o) => o.into_mut(),
          Entry::Vacant(x) => x.insert(f()),
        }
      }
      pub fn or_default(self) -> &'a mut V
      where
        V: Default,
      {
        self.or_insert_with(V::default)
      }
      pub fn and_modify<F: FnOnce(&mut V)>(mut self, f: F) -> Self {
        if let Entry::Occupied(o) = &mut self {
          f(o.get_mut());
        }
        self
      }
      pub fn key(&self) -> &K {
        match self {
          Entry::Occupied(o) => o.key(),
          Entry::Vacant(x) => x.key(),
        }
      }
    }
    /// Iteration order of the real HashMap is arbitrary: harnesses choose between
    /// insertion order and its reverse.
    pub static mut REVERSE: bool = false;
    pub struct Iter<'a, K, V> {
      i: ::std::slice::Iter<'a, (K, V)>,
    }
    impl<'a, K, V> Clone for Iter<'a, K, V> {
      fn clone(&self) -> Self {
        Iter { i: self.i.clone() }
      }
    }
    impl<'a, K, V> Iterator for Iter<'a, K, V> {
      type Item = (&'a K, &'a V);
      fn next(&mut self) -> Option<Self::Item> {
        if unsafe { REVERSE } { self.i.next_back() } else { self.i.next() }.map(|x| (&x.0, &x.1))
      }
      fn size_hint(&self) -> (usize, Option<usize>) {
        self.i.size_hint()
      }
    }
    impl<'a, K, V> ExactSizeIterator for Iter<'a, K, V> {}
    pub struct IterMut<'a, K, V> {
      i: ::std::slice::IterMut<'a, (K, V)>,
    }
    impl<'a, K, V> Iterator for IterMut<'a, K, V> {
      type Item = (&'a K, &'a mut V);
      fn next(&mut self) -> Option<Self::Item> {
        if unsafe { REVERSE } { self.i.next_back() } else { self.i.next() }.map(|x| (&x.0, &mut x.1))
      }
    }
    impl<K, V> IntoIterator for HashMap<K, V> {
      type Item = (K, V);
      type IntoIter = ::std::vec::IntoIter<(K, V)>;
      fn into_iter(self) -> Self::IntoIter {
        let mut v = self.v;
        if unsafe { REVERSE } {
          v.reverse()
        }
        v.into_iter()
      }
    }
    impl<'a, K, V> IntoIterator for &'a HashMap<K, V> {
      type Item = (&'a K, &'a V);
      type IntoIter = Iter<'a, K, V>;
      fn into_iter(self) -> Self::IntoIter {
        self.iter()
      }
    }
    impl<'a, K, V> IntoIterator for &'a mut HashMap<K, V> {
      type Item = (&'a K, &'a mut V);
      type IntoIter = IterMut<'a, K, V>;
      fn into_iter(self) -> Self::IntoIter {
        self.iter_mut()
      }
    }
    impl<K: Eq + Hash, V> FromIterator<(K, V)> for HashMap<K, V> {
      fn from_iter<I: IntoIterator<Item = (K, V)>>(i: I) -> Self {
        let mut m = HashMap::new();
        for (k, v) in i {
          m.insert(k, v);
        }
        m
      }
    }
    impl<K: Eq + Hash, V> Extend<(K, V)> for HashMap<K, V> {
      fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, i: I) {
        for (k, v) in i {
          self.insert(k, v);
        }
      }
    }
    impl<K: Eq + Hash, V, const N: usize> From<[(K, V); N]> for HashMap<K, V> {
      fn from(a: [(K, V); N]) -> Self {
        a.into_iter().collect()
      }
    }
    impl<Q: ?Sized + Eq + Hash, K: Eq + Hash + Borrow<Q>, V> Index<&Q> for HashMap<K, V> {
      type Output = V;
      fn index(&self, k: &Q) -> &V {
        self.get(k).expect("no entry found for key")
      }
    }
  }

  pub mod hash_set {
    use super::hash_map::HashMap;
    use ::std::borrow::Borrow;
    use ::std::hash::Hash;
    #[derive(Clone)]
    pub struct HashSet<K> {
      m: HashMap<K, ()>,
    }
    impl<K> Default for HashSet<K> {
      fn default() -> Self {
        HashSet { m: HashMap::new() }
      }
    }
    impl<K> HashSet<K> {
      pub fn new() -> Self {
        HashSet { m: HashMap::new() }
      }
      pub fn len(&self) -> usize {
        self.m.len()
      }
      pub fn is_empty(&self) -> bool {
        self.m.is_empty()
      }
      pub fn clear(&mut self) {
        self.m.clear()
      }
      pub fn iter(&self) -> impl Iterator<Item = &K> + '_ {
        self.m.keys()
      }
      pub fn retain<F: FnMut(&K) -> bool>(&mut self, mut f: F) {
        self.m.retain(|k, _| f(k))
      }
    }
    impl<K: Eq + Hash> HashSet<K> {
      pub fn insert(&mut self, k: K) -> bool {
        if self.m.contains_key(&k) {
          false
        } else {
          self.m.insert(k, ());
          true
        }
      }
      pub fn contains<Q: ?Sized + Eq + Hash>(&self, k: &Q) -> bool
      where
        K: Borrow<Q>,
      {
        self.m.contains_key(k)
      }
      pub fn remove<Q: ?Sized + Eq + Hash>(&mut self, k: &Q) -> bool
      where
        K: Borrow<Q>,
      {
        self.m.remove(k).is_some()
      }
    }
    impl<K: Eq + Hash> FromIterator<K> for HashSet<K> {
      fn from_iter<I: IntoIterator<Item = K>>(i: I) -> Self {
        let mut s = HashSet::new();
        for k in i {
          s.insert(k);
        }
        s
      }
    }
  }
}
