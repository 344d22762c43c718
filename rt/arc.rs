//! Arc and Weak with the meaning of std's. The header tells the engine which words are
//! reference counts (they are not part of what a lock protects or a thread knows).
use ::std::alloc::{alloc, dealloc, Layout};
use ::std::borrow::Borrow;
use ::std::fmt;
use ::std::hash::{Hash, Hasher};
use ::std::marker::{PhantomData, Unsize};
use ::std::mem::ManuallyDrop;
use ::std::ops::{CoerceUnsized, Deref, DispatchFromDyn, LegacyReceiver};
use ::std::pin::Pin;
use ::std::ptr::NonNull;
use ::std::sync::atomic::{AtomicUsize, Ordering::*};

pub const ARC_MAGIC: u64 = 0x5AFE_0A2C_ED00_F00D;

#[repr(C)]
struct Inner<T: ?Sized> {
  magic: u64,
  size: u64,
  strong: AtomicUsize,
  weak: AtomicUsize,
  data: T,
}
pub struct Arc<T: ?Sized> {
  p: NonNull<Inner<T>>,
  _t: PhantomData<Inner<T>>,
}
pub struct Weak<T: ?Sized> {
  p: NonNull<Inner<T>>,
}
unsafe impl<T: ?Sized + Sync + Send> Send for Arc<T> {}
unsafe impl<T: ?Sized + Sync + Send> Sync for Arc<T> {}
unsafe impl<T: ?Sized + Sync + Send> Send for Weak<T> {}
unsafe impl<T: ?Sized + Sync + Send> Sync for Weak<T> {}
impl<T: ?Sized> ::std::panic::UnwindSafe for Arc<T> {}
impl<T: ?Sized> Unpin for Arc<T> {}
impl<T: ?Sized + Unsize<U>, U: ?Sized> CoerceUnsized<Arc<U>> for Arc<T> {}
impl<T: ?Sized + Unsize<U>, U: ?Sized> DispatchFromDyn<Arc<U>> for Arc<T> {}
impl<T: ?Sized + Unsize<U>, U: ?Sized> CoerceUnsized<Weak<U>> for Weak<T> {}
impl<T: ?Sized + Unsize<U>, U: ?Sized> DispatchFromDyn<Weak<U>> for Weak<T> {}
impl<T: ?Sized> LegacyReceiver for Arc<T> {}

impl<T> Arc<T> {
  #[inline]
  pub fn new(data: T) -> Arc<T> {
    let b = Box::new(Inner { magic: ARC_MAGIC, size: 16, strong: AtomicUsize::new(1), weak: AtomicUsize::new(1), data });
    Arc { p: unsafe { NonNull::new_unchecked(Box::into_raw(b)) }, _t: PhantomData }
  }
  pub fn new_cyclic<F: FnOnce(&Weak<T>) -> T>(f: F) -> Arc<T> {
    unsafe {
      let p = alloc(Layout::new::<Inner<T>>()) as *mut Inner<T>;
      (&raw mut (*p).magic).write(ARC_MAGIC);
      (&raw mut (*p).size).write(16);
      (&raw mut (*p).strong).write(AtomicUsize::new(0));
      (&raw mut (*p).weak).write(AtomicUsize::new(1));
      let w = Weak { p: NonNull::new_unchecked(p) };
      let v = f(&w);
      (&raw mut (*p).data).write(v);
      (*p).strong.store(1, Release);
      let a = Arc { p: w.p, _t: PhantomData };
      ::std::mem::forget(w); // the strong references share this weak one
      a
    }
  }
  pub fn pin(data: T) -> Pin<Arc<T>> {
    unsafe { Pin::new_unchecked(Arc::new(data)) }
  }
  pub fn try_unwrap(this: Arc<T>) -> Result<T, Arc<T>> {
    let i = unsafe { this.p.as_ref() };
    if i.strong.compare_exchange(1, 0, Relaxed, Relaxed).is_err() {
      return Err(this);
    }
    let this = ManuallyDrop::new(this);
    unsafe {
      let v = (&raw const (*this.p.as_ptr()).data).read();
      drop(Weak { p: this.p });
      Ok(v)
    }
  }
  pub fn into_inner(this: Arc<T>) -> Option<T> {
    let i = unsafe { this.p.as_ref() };
    let this = ManuallyDrop::new(this);
    if i.strong.fetch_sub(1, Release) != 1 {
      return None;
    }
    unsafe {
      let v = (&raw const (*this.p.as_ptr()).data).read();
      drop(Weak { p: this.p });
      Some(v)
    }
  }
  pub fn unwrap_or_clone(this: Arc<T>) -> T
  where
    T: Clone,
  {
    Arc::try_unwrap(this).unwrap_or_else(|a| (*a).clone())
  }
}
impl<T: ?Sized> Arc<T> {
  pub fn as_ptr(this: &Arc<T>) -> *const T {
    unsafe { &raw const (*this.p.as_ptr()).data }
  }
  pub fn ptr_eq(a: &Arc<T>, b: &Arc<T>) -> bool {
    ::std::ptr::addr_eq(a.p.as_ptr(), b.p.as_ptr())
  }
  pub fn strong_count(this: &Arc<T>) -> usize {
    unsafe { this.p.as_ref().strong.load(Relaxed) }
  }
  pub fn weak_count(this: &Arc<T>) -> usize {
    unsafe { this.p.as_ref().weak.load(Relaxed) - 1 }
  }
  pub fn downgrade(this: &Arc<T>) -> Weak<T> {
    unsafe { this.p.as_ref().weak.fetch_add(1, Relaxed) };
    Weak { p: this.p }
  }
  pub fn get_mut(this: &mut Arc<T>) -> Option<&mut T> {
    unsafe {
      let i = this.p.as_ref();
      if i.strong.load(Acquire) == 1 && i.weak.load(Acquire) == 1 {
        Some(&mut (*this.p.as_ptr()).data)
      } else {
        None
      }
    }
  }
}
impl<T: Clone> Arc<T> {
  pub fn make_mut(this: &mut Arc<T>) -> &mut T {
    if Arc::get_mut(this).is_none() {
      *this = Arc::new((**this).clone());
    }
    Arc::get_mut(this).unwrap()
  }
}
impl<T: ?Sized> Drop for Arc<T> {
  #[inline]
  fn drop(&mut self) {
    unsafe {
      if self.p.as_ref().strong.fetch_sub(1, Release) != 1 {
        return;
      }
      ::std::ptr::drop_in_place(&raw mut (*self.p.as_ptr()).data);
      drop(Weak { p: self.p });
    }
  }
}
impl<T: ?Sized> Clone for Arc<T> {
  #[inline]
  fn clone(&self) -> Arc<T> {
    unsafe { self.p.as_ref().strong.fetch_add(1, Relaxed) };
    Arc { p: self.p, _t: PhantomData }
  }
}
impl<T: ?Sized> Deref for Arc<T> {
  type Target = T;
  #[inline(always)]
  fn deref(&self) -> &T {
    unsafe { &self.p.as_ref().data }
  }
}
impl<T> Weak<T> {
  pub fn new() -> Weak<T> {
    Weak { p: unsafe { NonNull::new_unchecked(usize::MAX as *mut Inner<T>) } }
  }
}
impl<T: ?Sized> Weak<T> {
  fn dangling(&self) -> bool {
    self.p.as_ptr() as *mut u8 as usize == usize::MAX
  }
  pub fn upgrade(&self) -> Option<Arc<T>> {
    if self.dangling() {
      return None;
    }
    let i = unsafe { self.p.as_ref() };
    let mut n = i.strong.load(Relaxed);
    loop {
      if n == 0 {
        return None;
      }
      match i.strong.compare_exchange(n, n + 1, Acquire, Relaxed) {
        Ok(_) => return Some(Arc { p: self.p, _t: PhantomData }),
        Err(k) => n = k,
      }
    }
  }
  pub fn strong_count(&self) -> usize {
    if self.dangling() {
      0
    } else {
      unsafe { self.p.as_ref().strong.load(Relaxed) }
    }
  }
  pub fn ptr_eq(&self, o: &Weak<T>) -> bool {
    ::std::ptr::addr_eq(self.p.as_ptr(), o.p.as_ptr())
  }
}
impl<T: ?Sized> Clone for Weak<T> {
  fn clone(&self) -> Weak<T> {
    if !self.dangling() {
      unsafe { self.p.as_ref().weak.fetch_add(1, Relaxed) };
    }
    Weak { p: self.p }
  }
}
impl<T: ?Sized> Drop for Weak<T> {
  #[inline]
  fn drop(&mut self) {
    if self.dangling() {
      return;
    }
    unsafe {
      if self.p.as_ref().weak.fetch_sub(1, Release) == 1 {
        let l = Layout::for_value(self.p.as_ref());
        dealloc(self.p.as_ptr() as *mut u8, l);
      }
    }
  }
}
impl<T> Default for Weak<T> {
  fn default() -> Weak<T> {
    Weak::new()
  }
}
impl<T: ?Sized> fmt::Debug for Weak<T> {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    write!(f, "(Weak)")
  }
}
impl<T: Default> Default for Arc<T> {
  fn default() -> Arc<T> {
    Arc::new(T::default())
  }
}
impl<T> From<T> for Arc<T> {
  fn from(v: T) -> Arc<T> {
    Arc::new(v)
  }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for Arc<T> {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    (**self).fmt(f)
  }
}
impl<T: ?Sized + fmt::Display> fmt::Display for Arc<T> {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    (**self).fmt(f)
  }
}
impl<T: ?Sized> fmt::Pointer for Arc<T> {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    fmt::Pointer::fmt(&Arc::as_ptr(self), f)
  }
}
impl<T: ?Sized> AsRef<T> for Arc<T> {
  fn as_ref(&self) -> &T {
    self
  }
}
impl<T: ?Sized> Borrow<T> for Arc<T> {
  fn borrow(&self) -> &T {
    self
  }
}
impl<T: ?Sized + PartialEq> PartialEq for Arc<T> {
  fn eq(&self, o: &Arc<T>) -> bool {
    **self == **o
  }
}
impl<T: ?Sized + Eq> Eq for Arc<T> {}
impl<T: ?Sized + PartialOrd> PartialOrd for Arc<T> {
  fn partial_cmp(&self, o: &Arc<T>) -> Option<::std::cmp::Ordering> {
    (**self).partial_cmp(&**o)
  }
}
impl<T: ?Sized + Ord> Ord for Arc<T> {
  fn cmp(&self, o: &Arc<T>) -> ::std::cmp::Ordering {
    (**self).cmp(&**o)
  }
}
impl<T: ?Sized + Hash> Hash for Arc<T> {
  fn hash<H: Hasher>(&self, h: &mut H) {
    (**self).hash(h)
  }
}
