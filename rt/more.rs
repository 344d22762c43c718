//! The rest of std::sync in terms of the lock and condition variable of this facade.
use crate::sync::{Condvar, Mutex};
use ::std::cell::UnsafeCell;
use ::std::fmt;
use ::std::ops::Deref;

/// Filled at most once; what is inside never moves.
pub struct OnceLock<T> {
  set: Mutex<Option<Box<T>>>,
}
unsafe impl<T: Send> Send for OnceLock<T> {}
unsafe impl<T: Send + Sync> Sync for OnceLock<T> {}
impl<T> OnceLock<T> {
  pub const fn new() -> OnceLock<T> {
    OnceLock { set: Mutex::new(None) }
  }
  pub fn get(&self) -> Option<&T> {
    let g = self.set.lock().unwrap();
    let p = g.as_ref().map(|x| &**x as *const T);
    drop(g);
    p.map(|p| unsafe { &*p })
  }
  pub fn get_mut(&mut self) -> Option<&mut T> {
    self.set.get_mut().unwrap().as_mut().map(|x| &mut **x)
  }
  pub fn set(&self, t: T) -> Result<(), T> {
    let mut g = self.set.lock().unwrap();
    if g.is_some() {
      drop(g);
      return Err(t);
    }
    *g = Some(Box::new(t));
    Ok(())
  }
  pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
    let mut g = self.set.lock().unwrap();
    if g.is_none() {
      *g = Some(Box::new(f()));
    }
    let p = &**g.as_ref().unwrap() as *const T;
    drop(g);
    unsafe { &*p }
  }
  pub fn into_inner(self) -> Option<T> {
    self.set.into_inner().unwrap().map(|x| *x)
  }
  pub fn take(&mut self) -> Option<T> {
    self.set.get_mut().unwrap().take().map(|x| *x)
  }
}
impl<T> Default for OnceLock<T> {
  fn default() -> Self {
    OnceLock::new()
  }
}
impl<T: Clone> Clone for OnceLock<T> {
  fn clone(&self) -> Self {
    let c = OnceLock::new();
    if let Some(x) = self.get() {
      let _ = c.set(x.clone());
    }
    c
  }
}
impl<T> From<T> for OnceLock<T> {
  fn from(t: T) -> Self {
    OnceLock { set: Mutex::new(Some(Box::new(t))) }
  }
}
impl<T> fmt::Debug for OnceLock<T> {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    f.write_str("OnceLock")
  }
}

pub struct LazyLock<T, F = fn() -> T> {
  cell: OnceLock<T>,
  f: UnsafeCell<Option<F>>,
}
unsafe impl<T: Send + Sync, F: Send> Sync for LazyLock<T, F> {}
impl<T, F: FnOnce() -> T> LazyLock<T, F> {
  pub const fn new(f: F) -> LazyLock<T, F> {
    LazyLock { cell: OnceLock::new(), f: UnsafeCell::new(Some(f)) }
  }
  pub fn force(this: &LazyLock<T, F>) -> &T {
    // only the initialising thread, under the cell's lock, takes the function
    this.cell.get_or_init(|| unsafe { (*this.f.get()).take().expect("poisoned")() })
  }
}
impl<T, F: FnOnce() -> T> Deref for LazyLock<T, F> {
  type Target = T;
  fn deref(&self) -> &T {
    LazyLock::force(self)
  }
}

pub struct Once {
  done: Mutex<bool>,
}
impl Once {
  pub const fn new() -> Once {
    Once { done: Mutex::new(false) }
  }
  pub fn call_once<F: FnOnce()>(&self, f: F) {
    let mut d = self.done.lock().unwrap();
    if !*d {
      f();
      *d = true;
    }
  }
  pub fn is_completed(&self) -> bool {
    *self.done.lock().unwrap()
  }
}

pub struct Barrier {
  n: usize,
  state: Mutex<(usize, usize)>, // waiting, generation
  cv: Condvar,
}
pub struct BarrierWaitResult(bool);
impl BarrierWaitResult {
  pub fn is_leader(&self) -> bool {
    self.0
  }
}
impl Barrier {
  pub const fn new(n: usize) -> Barrier {
    Barrier { n, state: Mutex::new((0, 0)), cv: Condvar::new() }
  }
  pub fn wait(&self) -> BarrierWaitResult {
    let mut g = self.state.lock().unwrap();
    g.0 += 1;
    if g.0 >= self.n {
      *g = (0, g.1 + 1);
      self.cv.notify_all();
      return BarrierWaitResult(true);
    }
    let generation = g.1;
    drop(self.cv.wait_while(g, |g| g.1 == generation));
    BarrierWaitResult(false)
  }
}

pub mod mpsc {
  use super::{Condvar, Mutex};
  use crate::collections::VecDeque;
  use crate::sync::Arc;
  pub use ::std::sync::mpsc::{RecvError, RecvTimeoutError, SendError, TryRecvError, TrySendError};
  use ::std::time::Duration;

  struct State<T> {
    queue: VecDeque<T>,
    senders: usize,
    receiver: bool,
  }
  struct Shared<T> {
    state: Mutex<State<T>>,
    filled: Condvar,
    room: Condvar,
    bound: usize,
  }
  pub struct Sender<T> {
    s: Arc<Shared<T>>,
  }
  pub struct SyncSender<T> {
    s: Arc<Shared<T>>,
  }
  pub struct Receiver<T> {
    s: Arc<Shared<T>>,
    _one: ::std::marker::PhantomData<::std::cell::Cell<()>>,
  }
  unsafe impl<T: Send> Send for Receiver<T> {}

  fn shared<T>(bound: usize) -> Arc<Shared<T>> {
    Arc::new(Shared {
      state: Mutex::new(State { queue: VecDeque::new(), senders: 1, receiver: true }),
      filled: Condvar::new(),
      room: Condvar::new(),
      bound,
    })
  }
  pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
    let s = shared(usize::MAX);
    (Sender { s: s.clone() }, Receiver { s, _one: ::std::marker::PhantomData })
  }
  /// A bound of 0 is taken as 1.
  pub fn sync_channel<T>(bound: usize) -> (SyncSender<T>, Receiver<T>) {
    let s = shared(bound.max(1));
    (SyncSender { s: s.clone() }, Receiver { s, _one: ::std::marker::PhantomData })
  }
  fn send<T>(s: &Shared<T>, t: T) -> Result<(), SendError<T>> {
    let g = s.state.lock().unwrap();
    let mut g = s.room.wait_while(g, |g| g.receiver && g.queue.len() >= s.bound).unwrap();
    if !g.receiver {
      drop(g);
      return Err(SendError(t));
    }
    g.queue.push_back(t);
    s.filled.notify_one();
    Ok(())
  }
  fn left<T>(s: &Shared<T>) {
    let mut g = s.state.lock().unwrap();
    g.senders -= 1;
    if g.senders == 0 {
      s.filled.notify_all();
    }
  }
  impl<T> Sender<T> {
    pub fn send(&self, t: T) -> Result<(), SendError<T>> {
      send(&self.s, t)
    }
  }
  impl<T> SyncSender<T> {
    pub fn send(&self, t: T) -> Result<(), SendError<T>> {
      send(&self.s, t)
    }
    pub fn try_send(&self, t: T) -> Result<(), TrySendError<T>> {
      let mut g = self.s.state.lock().unwrap();
      if !g.receiver {
        return Err(TrySendError::Disconnected(t));
      }
      if g.queue.len() >= self.s.bound {
        return Err(TrySendError::Full(t));
      }
      g.queue.push_back(t);
      self.s.filled.notify_one();
      Ok(())
    }
  }
  impl<T> Clone for Sender<T> {
    fn clone(&self) -> Self {
      self.s.state.lock().unwrap().senders += 1;
      Sender { s: self.s.clone() }
    }
  }
  impl<T> Clone for SyncSender<T> {
    fn clone(&self) -> Self {
      self.s.state.lock().unwrap().senders += 1;
      SyncSender { s: self.s.clone() }
    }
  }
  impl<T> Drop for Sender<T> {
    fn drop(&mut self) {
      left(&self.s)
    }
  }
  impl<T> Drop for SyncSender<T> {
    fn drop(&mut self) {
      left(&self.s)
    }
  }
  impl<T> Receiver<T> {
    pub fn recv(&self) -> Result<T, RecvError> {
      let g = self.s.state.lock().unwrap();
      let mut g = self.s.filled.wait_while(g, |g| g.queue.is_empty() && g.senders > 0).unwrap();
      let r = g.queue.pop_front();
      self.s.room.notify_one();
      r.ok_or(RecvError)
    }
    pub fn try_recv(&self) -> Result<T, TryRecvError> {
      let mut g = self.s.state.lock().unwrap();
      match g.queue.pop_front() {
        Some(t) => {
          self.s.room.notify_one();
          Ok(t)
        }
        None if g.senders == 0 => Err(TryRecvError::Disconnected),
        None => Err(TryRecvError::Empty),
      }
    }
    pub fn recv_timeout(&self, d: Duration) -> Result<T, RecvTimeoutError> {
      let g = self.s.state.lock().unwrap();
      let (mut g, _) =
        self.s.filled.wait_timeout_while(g, d, |g| g.queue.is_empty() && g.senders > 0).unwrap();
      match g.queue.pop_front() {
        Some(t) => {
          self.s.room.notify_one();
          Ok(t)
        }
        None if g.senders == 0 => Err(RecvTimeoutError::Disconnected),
        None => Err(RecvTimeoutError::Timeout),
      }
    }
    pub fn iter(&self) -> Iter<'_, T> {
      Iter { r: self }
    }
    pub fn try_iter(&self) -> TryIter<'_, T> {
      TryIter { r: self }
    }
  }
  impl<T> Drop for Receiver<T> {
    fn drop(&mut self) {
      let rest = {
        let mut g = self.s.state.lock().unwrap();
        g.receiver = false;
        self.s.room.notify_all();
        ::std::mem::replace(&mut g.queue, VecDeque::new())
      };
      drop(rest);
    }
  }
  pub struct Iter<'a, T> {
    r: &'a Receiver<T>,
  }
  impl<T> Iterator for Iter<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
      self.r.recv().ok()
    }
  }
  pub struct TryIter<'a, T> {
    r: &'a Receiver<T>,
  }
  impl<T> Iterator for TryIter<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
      self.r.try_recv().ok()
    }
  }
  pub struct IntoIter<T> {
    r: Receiver<T>,
  }
  impl<T> Iterator for IntoIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
      self.r.recv().ok()
    }
  }
  impl<T> IntoIterator for Receiver<T> {
    type Item = T;
    type IntoIter = IntoIter<T>;
    fn into_iter(self) -> IntoIter<T> {
      IntoIter { r: self }
    }
  }
  impl<'a, T> IntoIterator for &'a Receiver<T> {
    type Item = T;
    type IntoIter = Iter<'a, T>;
    fn into_iter(self) -> Iter<'a, T> {
      self.iter()
    }
  }
}
