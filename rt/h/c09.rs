//! observe_on / subscribe_on with new-thread schedulers: a cold source of 0-2 items (thorough
//! 3) and complete, error or nothing, or a subject driven by the subscribing thread or by a
//! thread of its own; observe_on alone, twice, with map between, subscribe_on, both in
//! either order; with and without an unsubscribe after the subscription (any time during the
//! emissions). All interleavings at lock granularity.
use vh::thr::*;
use vh::*;

const N: i64 = if cfg!(thorough) { 3 } else { 2 };
const LOST: &str = "@viol an item was lost: e=4(0,v) !1(1,v)";
const DUP: &str = "@viol an item arrived twice: i=1(1,v) j=1(1,v) i!=j";
const ORDER: &str = "@viol items were reordered: e=4(0,v) f=4(0,w) i=1(1,v) j=1(1,w) e<f j<i";
const TLOST: &str = "@viol the terminal was lost: e=4(1,v) !2(1,v)";
const TDUP: &str = "@viol two terminals: i=2(1,*) j=2(1,*) i!=j";
const TFIRST: &str = "@viol an item after the terminal: i=2(1,*) j=1(1,*) i<j";
const TWRONG: &str = "@viol a terminal that was not emitted: i=2(1,v) !4(1,v)<i";
const IWRONG: &str = "@viol an item that was not emitted: i=1(1,v) !4(0,v)<i";
const SAME: &str = "@viol items on two threads: i=1(1,*) j=1(1,*) i!~j";
const SAMET: &str = "@viol the terminal on another thread than the items: i=1(1,*) j=2(1,*) i!~j";
const OWN: &str = "@viol a callback on the emitting thread: e=4(*,*) i=1(1,*) e~i";
const OWNT: &str = "@viol the terminal on the emitting thread: e=4(*,*) i=2(1,*) e~i";
const OVER: &str = "@viol two callbacks at once: i=1(1,v) j=1(1,w) e=16(1,v) i<j j<e";
const OVERT: &str = "@viol the terminal during an item: i=1(1,v) j=2(1,*) e=16(1,v) i<j j<e";
const AFTER: &str = "@viol an event emitted after unsubscribe returned was delivered: u=6(1,*) e=4(0,v) i=1(1,v) u<e";
const AFTERT: &str = "@viol a terminal emitted after unsubscribe returned was delivered: u=6(1,*) e=4(1,v) i=2(1,v) u<e";
const SUBSCRIBER: &str = "@viol the source was subscribed on the subscribing thread: s=9(0,*) d=7(0,*) s~d";
const EXIT: &str = "@exit";

fn source(n: i64, end: i64) -> Observable<'static, i64> {
  Observable::create(move |s: Observer<'static, i64>| {
    mark(SUB, 0, 0);
    for k in 1..=n {
      mark(EMIT, 0, k);
      s.next(k);
    }
    if end > 0 {
      mark(EMIT, 1, end);
      finish(&s, end);
    }
  })
}
fn drive(s: &subjects::Subject<'static, i64>, n: i64, end: i64) {
  for k in 1..=n {
    mark(EMIT, 0, k);
    s.next(k);
  }
  if end > 0 {
    mark(EMIT, 1, end);
    match end {
      1 => s.complete(),
      _ => s.error(rxerr(7)),
    }
  }
}
fn nts() -> fn() -> schedulers::NewThreadScheduler<'static> {
  schedulers::new_thread_scheduler()
}
fn order() {
  for p in [DUP, ORDER, TDUP, TFIRST, TWRONG, IWRONG, OVER, OVERT] {
    prop(p);
  }
}
fn all() {
  prop(LOST);
  prop(TLOST);
}

/// cold source, no unsubscribe
//@ mode=conc shards=12 cost=5 cover=cold
#[no_mangle]
pub extern "C" fn h_c09_cold() {
  let k = pick(0, 6);
  let two = k == 1 || k == 4 || k == 5;
  let (n, end) = (pick(0, if two && !cfg!(thorough) { 1 } else { N }), pick(0, 2));
  assume(n + end > 0);
  order();
  all();
  prop(SAME);
  prop(SAMET);
  match k {
    0 | 1 | 2 | 4 | 5 => {
      prop(OWN);
      prop(OWNT);
    }
    _ => {}
  }
  if k >= 3 {
    prop(SUBSCRIBER);
  }
  if end > 0 {
    prop(EXIT);
  }
  cover("cold");
  concurrent();
  mark(UNSUB, 0, 0);
  let o = source(n, end);
  let o = match k {
    0 => o.observe_on(nts()),
    1 => o.observe_on(nts()).observe_on(nts()),
    2 => o.map(|x| x).observe_on(nts()).map(|x| x),
    3 => o.subscribe_on(nts()),
    4 => o.subscribe_on(nts()).observe_on(nts()),
    5 => o.observe_on(nts()).subscribe_on(nts()),
    _ => o.subscribe_on(nts()).map(|x| x),
  };
  watch2(&o, 1);
}

/// a source without end, unsubscribed some time
//@ mode=conc shards=6 cost=5 cover=unsub
#[no_mangle]
pub extern "C" fn h_c09_unsub() {
  let k = pick(0, 3);
  let by = pick(0, 1);
  let n = pick(1, 2);
  let end = pick(0, 1);
  assume(cfg!(thorough) || n + end < if k == 0 { 3 } else { 2 });
  order();
  prop(AFTER);
  prop(AFTERT);
  prop(SAME);
  prop(EXIT);
  if k != 1 {
    prop(OWN);
  }
  cover("unsub");
  concurrent();
  let s = subjects::Subject::<i64>::new();
  let o = s.observable();
  let o = match k {
    0 => o.observe_on(nts()),
    1 => o.subscribe_on(nts()),
    2 => o.map(|x| x).observe_on(nts()).map(|x| x),
    _ => o.observe_on(nts()).observe_on(nts()),
  };
  let b = watch2(&o, 1);
  if by == 0 {
    let s2 = s.clone();
    th(move || drive(&s2, n, end));
    b.unsubscribe();
    mark(UNSUBD, 1, 0);
  } else {
    th(move || {
      b.unsubscribe();
      mark(UNSUBD, 1, 0);
    });
    drive(&s, n, end);
  }
}

/// cold source, unsubscribed by the subscriber as soon as subscribe has returned
//@ mode=conc shards=6 cost=5 cover=cut
#[no_mangle]
pub extern "C" fn h_c09_cut() {
  let k = pick(0, 2);
  let n = pick(1, N);
  let end = pick(0, 1);
  assume(cfg!(thorough) || k < 2 || n < 2);
  order();
  prop(AFTER);
  prop(AFTERT);
  prop(SAME);
  prop(EXIT);
  cover("cut");
  concurrent();
  let o = source(n, end);
  let o = match k {
    0 => o.observe_on(nts()),
    1 => o.subscribe_on(nts()),
    _ => o.subscribe_on(nts()).observe_on(nts()),
  };
  let b = watch2(&o, 1);
  b.unsubscribe();
  mark(UNSUBD, 1, 0);
}

/// a subject driven by its own thread through observe_on: nothing is lost or reordered
//@ mode=conc shards=4 cost=5 cover=hot
#[no_mangle]
pub extern "C" fn h_c09_hot() {
  let k = pick(0, 1);
  let n = pick(1, N);
  let end = pick(0, 2);
  assume(cfg!(thorough) || k == 0 || n < 2);
  order();
  all();
  prop(SAME);
  prop(SAMET);
  prop(OWN);
  prop(OWNT);
  if end > 0 {
    prop(EXIT);
  }
  cover("hot");
  concurrent();
  let s = subjects::Subject::<i64>::new();
  let o = s.observable();
  let o = match k {
    0 => o.observe_on(nts()),
    _ => o.observe_on(nts()).observe_on(nts()),
  };
  watch2(&o, 1);
  drive(&s, n, end);
}
