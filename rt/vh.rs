//! Shared harness library: symbolic inputs, recorders, scripts, the operator
//! catalogue and the reference semantics it is compared with.
#![allow(dead_code, unused_variables, static_mut_refs)]
extern crate another_rxrust as rx;
pub use rx::prelude::*;
pub use rx::prelude::{observables, operators, schedulers, subjects};
use std::cell::UnsafeCell;
pub use std::sync::Arc;

mod raw {
  extern "C" {
    pub fn vm_sym(lo: i64, hi: i64) -> i64;
    pub fn vm_pick(lo: i64, hi: i64) -> i64;
    pub fn vm_concrete(x: i64) -> i64;
    pub fn vm_assume(c: i64);
    pub fn vm_check(c: i64, p: *const u8, n: usize);
    pub fn vm_cover(p: *const u8, n: usize);
    pub fn vm_log(p: *const u8, n: usize, v: i64);
    pub fn vm_mark(k: i64, a: i64, b: i64);
    pub fn vm_idle();
    pub fn vm_concurrent();
    pub fn vm_now() -> i64;
    pub fn vm_tid() -> i64;
    pub fn vm_threads_live() -> i64;
    pub fn vm_thread_done(t: i64) -> i64;
    pub fn vm_live_heap() -> i64;
    pub fn vm_sleep(ns: i64);
    pub fn vm_yield();
    pub fn vm_join(t: i64);
  }
}
pub fn sym(lo: i64, hi: i64) -> i64 {
  unsafe { raw::vm_sym(lo, hi) }
}
pub fn pick(lo: i64, hi: i64) -> i64 {
  unsafe { raw::vm_pick(lo, hi) }
}
pub fn concrete(x: i64) -> i64 {
  unsafe { raw::vm_concrete(x) }
}
pub fn assume(c: bool) {
  unsafe { raw::vm_assume(c as i64) }
}
pub fn check(c: bool, m: &'static str) {
  unsafe { raw::vm_check(c as i64, m.as_ptr(), m.len()) }
}
pub fn cover(m: &'static str) {
  unsafe { raw::vm_cover(m.as_ptr(), m.len()) }
}
pub fn log(m: &'static str, v: i64) {
  unsafe { raw::vm_log(m.as_ptr(), m.len(), v) }
}
pub fn mark(k: i64, a: i64, b: i64) {
  unsafe { raw::vm_mark(k, a, b) }
}
pub fn idle() {
  unsafe { raw::vm_idle() }
}
pub fn concurrent() {
  unsafe { raw::vm_concurrent() }
}
pub fn now() -> i64 {
  unsafe { raw::vm_now() }
}
pub fn tid() -> i64 {
  unsafe { raw::vm_tid() }
}
pub fn threads_live() -> i64 {
  unsafe { raw::vm_threads_live() }
}
pub fn live_heap() -> i64 {
  unsafe { raw::vm_live_heap() }
}
pub fn sleep_ns(ns: i64) {
  unsafe { raw::vm_sleep(ns) }
}
pub fn dur(ns: i64) -> std::time::Duration {
  std::time::Duration::new(0, ns as u32)
}

/// Unsynchronised shared cell (no library lock events).
pub struct Sh<T>(pub Arc<UnsafeCell<T>>);
unsafe impl<T> Send for Sh<T> {}
unsafe impl<T> Sync for Sh<T> {}
impl<T> Clone for Sh<T> {
  fn clone(&self) -> Self {
    Sh(self.0.clone())
  }
}
impl<T> Sh<T> {
  pub fn new(t: T) -> Self {
    Sh(Arc::new(UnsafeCell::new(t)))
  }
  #[allow(clippy::mut_from_ref)]
  pub fn m(&self) -> &mut T {
    unsafe { &mut *self.0.get() }
  }
}

pub const SILENT: i64 = 0;
pub const COMPLETE: i64 = 1;
pub const ERR: i64 = 2; // error with payload e has end = ERR + e

/// An error payload private to the harness.
#[derive(Debug, Clone, PartialEq)]
pub struct Payload(pub i64);
pub fn rxerr(code: i64) -> RxError {
  RxError::from_error(Payload(code))
}
pub fn errcode(e: &RxError) -> i64 {
  match e.downcast_ref::<Payload>() {
    Some(p) => p.0,
    None => -99,
  }
}

/// A finite event sequence: items, then silence / complete / error.
#[derive(Clone, Debug)]
pub struct Sq {
  pub items: Vec<i64>,
  pub end: i64,
}
impl Sq {
  pub fn new(items: Vec<i64>, end: i64) -> Sq {
    Sq { items, end }
  }
  pub fn empty() -> Sq {
    Sq { items: vec![], end: SILENT }
  }
}

/// What one subscriber saw.
pub struct RecD {
  pub items: Vec<i64>,
  pub end: i64,   // first terminal
  pub nterm: i64, // terminals delivered
  pub late: i64,  // callbacks after the first terminal
  pub calls: i64,
}
#[derive(Clone)]
pub struct Rec(pub Sh<RecD>);
impl Rec {
  pub fn new() -> Rec {
    Rec(Sh::new(RecD { items: vec![], end: SILENT, nterm: 0, late: 0, calls: 0 }))
  }
  pub fn next(&self, x: i64) {
    let d = self.0.m();
    d.calls += 1;
    if d.nterm > 0 {
      d.late += 1;
    }
    d.items.push(x);
  }
  pub fn error(&self, e: RxError) {
    let d = self.0.m();
    d.calls += 1;
    if d.nterm > 0 {
      d.late += 1;
    } else {
      d.end = ERR + errcode(&e);
    }
    d.nterm += 1;
  }
  pub fn complete(&self) {
    let d = self.0.m();
    d.calls += 1;
    if d.nterm > 0 {
      d.late += 1;
    } else {
      d.end = COMPLETE;
    }
    d.nterm += 1;
  }
  pub fn sub(&self, o: &Observable<'static, i64>) -> Subscription<'static> {
    let (a, b, c) = (self.clone(), self.clone(), self.clone());
    o.subscribe(move |x| a.next(x), move |e| b.error(e), move || c.complete())
  }
  pub fn d(&self) -> &mut RecD {
    self.0.m()
  }
  pub fn len(&self) -> usize {
    self.d().items.len()
  }
  pub fn end(&self) -> i64 {
    self.d().end
  }
  pub fn logit(&self) {
    log("n", self.d().items.len() as i64);
    for x in self.d().items.iter() {
      log("item", *x);
    }
    log("end", self.d().end);
    log("late", self.d().late);
  }
  /// Same items, same terminal, nothing after it.
  pub fn is(&self, e: &Sq) -> bool {
    let d = self.d();
    if d.items.len() != e.items.len() || d.late != 0 {
      return false;
    }
    let mut ok = d.end == e.end;
    for i in 0..e.items.len() {
      ok &= d.items[i] == e.items[i];
    }
    ok
  }
  pub fn expect(&self, e: &Sq, m: &'static str) {
    check(self.is(e), m);
  }
}

pub fn feed(s: &Observer<'static, i64>, q: &Sq) {
  for x in q.items.iter() {
    s.next(*x);
  }
  finish(s, q.end);
}
pub fn finish(s: &Observer<'static, i64>, end: i64) {
  if end == COMPLETE {
    s.complete()
  } else if end >= ERR {
    s.error(rxerr(end - ERR))
  }
}
/// Cold source that plays the script at subscribe time.
pub fn cold(q: &Sq) -> Observable<'static, i64> {
  let q = q.clone();
  Observable::create(move |s| feed(&s, &q))
}
/// Cold source that honours is_subscribed between events.
pub fn cold_polite(q: &Sq) -> Observable<'static, i64> {
  let q = q.clone();
  Observable::create(move |s| {
    for x in q.items.iter() {
      if !s.is_subscribed() {
        return;
      }
      s.next(*x);
    }
    if s.is_subscribed() {
      finish(&s, q.end);
    }
  })
}
pub type Sbj = subjects::Subject<'static, i64>;
pub fn sfinish(s: &Sbj, end: i64) {
  if end == COMPLETE {
    s.complete()
  } else if end >= ERR {
    s.error(rxerr(end - ERR))
  }
}

/// Symbolic script: length picked, items symbolic in 0..=amax, end picked.
pub fn script(maxlen: i64, amax: i64) -> Sq {
  let n = choose(0, maxlen);
  let end = choose(0, 2);
  let mut items = Vec::with_capacity(n as usize);
  for _ in 0..n {
    items.push(sym(-1, amax));
  }
  Sq { items, end: if end == 2 { ERR + 5 } else { end } }
}

pub fn pred(k: i64, x: i64) -> bool {
  match k {
    0 => x >= 1,
    1 => x & 1 == 0,
    2 => x <= 1,
    3 => true,
    4 => x == 2,
    _ => false,
  }
}
pub fn enc(v: &[i64]) -> i64 {
  let mut a = v.len() as i64;
  for x in v {
    a = a * 16 + *x + 8;
  }
  a
}

#[path = "cat.rs"]
pub mod cat;
#[path = "multi.rs"]
pub mod multi;
pub mod thr;
pub mod timed;
pub use multi::*;

/// HashMap iteration order of the run (the real one is unspecified).
pub fn map_order(reverse: bool) {
  unsafe { std::collections::hash_map::REVERSE = reverse }
}

/// Symbolic item.
pub fn item() -> i64 {
  sym(-1, 2)
}

/// Symbolic choice of an event, position or order: a solver variable whose values
/// are split by solver-decided forks.
pub fn choose(lo: i64, hi: i64) -> i64 {
  concrete(sym(lo, hi))
}
