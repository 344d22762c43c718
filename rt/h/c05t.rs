//! C05 bounds (threads): one subscriber that unsubscribes (once, or from two threads) while
//! a thread of its own emits 2 items and a terminal (thorough: a second emitting thread):
//! every single-source operator, every two-source combinator, the four subjects, a cold
//! source that starts a thread, publish/ref_count/replay, chains of two operators
//! (thorough), a dropped utils::Using guard; the 20 operators that start threads, with
//! their timers open (1 item, h_c05t_timed). All interleavings at lock granularity.
use vh::multi::*;
use vh::thr::*;
use vh::*;

const AFTER: &str = "@viol an event emitted after unsubscribe had returned was delivered: u=6(1,*) e=4(*,*) i=1(1,*) e~i u<e e<i";
const AFTERV: &str = "@viol an item emitted after unsubscribe had returned was delivered: u=6(1,*) e=4(*,v) i=1(1,v) u<e";
const AFTERT: &str = "@viol a terminal emitted after unsubscribe had returned was delivered: u=6(1,*) e=4(*,*) i=2(1,*) e~i u<e e<i";
const IS: i64 = 20; // (when, is_subscribed); the question is asked after ASK
const ASK: i64 = 21;
const STILL: &str = "@viol is_subscribed() is true after unsubscribe: i=20(2,1)";
const STILL3: &str = "@viol is_subscribed() is true after the terminal: t=3(1,*) a=21(1,*) i=20(1,1) t<a";
const NOTYET: &str = "@viol is_subscribed() is false though nothing was emitted and nobody unsubscribed: i=20(1,0) !4(*,*)<i";

fn props() {
  prop(AFTER);
  prop(AFTERT);
  prop(STILL);
  prop(STILL3);
  prop(NOTYET);
}
fn ask(s: &Subscription<'static>, when: i64) {
  mark(ASK, when, 0);
  mark(IS, when, s.is_subscribed() as i64);
}
fn leave(s: &Subscription<'static>) {
  s.unsubscribe();
  mark(UNSUBD, 1, 0);
  ask(s, 2);
}
fn stays(s: &Subscription<'static>, two: bool) {
  ask(s, 1);
  if two {
    let s2 = s.clone();
    th(move || leave(&s2));
  }
  leave(s);
}

/// replay: two items in the thorough tier only
fn items(k: i64) -> i64 {
  if k == cat::NOPS + 11 && !cfg!(thorough) {
    1
  } else {
    2
  }
}

//@ mode=conc shards=16 cost=5 cover=ops
#[no_mangle]
pub extern "C" fn h_c05t_op() {
  let k = pick(0, NONE_SRC - 1);
  let end = pick(1, 2);
  let two = cfg!(thorough) && pick(0, 1) == 1;
  props();
  if matches!(k - cat::NOPS, 0..=7) || k == cat::MAP {
    prop(AFTERV);
  }
  cover("ops");
  concurrent();
  let s = subjects::Subject::new();
  let h = watch(&one(k, &s.observable()), 1);
  driver(&s, 1, items(k), end);
  stays(&h, two);
}

//@ mode=conc shards=16 nodes=9000 cost=7 cover=multi
#[no_mangle]
pub extern "C" fn h_c05t_multi() {
  let k = pick(0, NMULTI - 1);
  let both = cfg!(thorough) && pick(0, 1) == 1;
  // which input is driven; the other one has emitted already
  let first = if both { true } else { pick(0, 1) == 0 };
  let end = pick(1, 2);
  props();
  cover("multi");
  concurrent();
  let (a, b) = (subjects::Subject::new(), subjects::Subject::new());
  let h = watch(&build(k, &[a.observable(), b.observable()]), 1);
  if both {
    driver(&a, 1, 1, end);
    driver(&b, 2, 1, 1);
  } else if first {
    if !matches!(k, TAKE_UNTIL | RESUME | CONCAT | AMB) {
      b.next(5);
    }
    driver(&a, 1, 2, end);
  } else {
    match k {
      CONCAT => a.complete(),
      RESUME => a.error(rxerr(3)),
      AMB => {}
      _ => a.next(5),
    }
    driver(&b, 2, 2, end);
  }
  stays(&h, false);
}

//@ mode=conc shards=12 cost=8 cover=subject
#[no_mangle]
pub extern "C" fn h_c05t_subject() {
  let k = pick(0, 3);
  let end = pick(0, 2);
  let two = pick(0, 1) == 1;
  // both at once on the two subjects with more state: thorough
  let other = pick(0, 1) == 1 && (cfg!(thorough) || k < 2 || !two);
  props();
  cover("subject");
  concurrent();
  let s = AnySbj::new(k);
  let o = s.observable();
  let h = watch(&o, 1);
  if other {
    watch(&o, 2);
  }
  let s2 = s.clone();
  th(move || {
    for x in 1..=2 {
      mark(EMIT, 1, 10 + x);
      s2.send(0, 10 + x);
    }
    if end > 0 {
      mark(EMIT, 1, 1000 + end);
      s2.send(end, 7);
    }
  });
  stays(&h, two);
}

/// a cold source that starts a thread per subscription
//@ mode=conc shards=8 cost=5 cover=cold
#[no_mangle]
pub extern "C" fn h_c05t_cold() {
  let k = [cat::MAP, cat::TAKE, cat::SCAN, cat::BUFFER, cat::LAST, cat::NOPS, cat::NOPS + 2, cat::NOPS + 6, cat::NOPS + 7, cat::NOPS + 9, cat::NOPS + 10, cat::NOPS + 11]
    [pick(0, if cfg!(thorough) { 11 } else { 10 }) as usize];
  let end = pick(1, 2);
  props();
  cover("cold");
  concurrent();
  let o = Observable::create(move |s: Observer<'static, i64>| {
    th(move || {
      for x in 1..=items(k) {
        mark(EMIT, 1, 10 + x);
        s.next(10 + x);
      }
      mark(EMIT, 1, 1000 + end);
      finish(&s, end);
    });
  });
  let h = watch(&one(k, &o), 1);
  leave(&h);
}

/// the guard of utils::Using is dropped while the source emits
//@ mode=conc shards=2 cost=3 cover=guard
#[no_mangle]
pub extern "C" fn h_c05t_guard() {
  let k = pick(0, 1) * cat::NOPS;
  props();
  cover("guard");
  concurrent();
  let s = subjects::Subject::new();
  let h = watch(&one(k, &s.observable()), 1);
  driver(&s, 1, 2, 1);
  drop(utils::Using::new(h.clone()));
  mark(UNSUBD, 1, 0);
  ask(&h, 2);
}

/// unsubscribing one of two subscribers of a shared source, or the connection
//@ mode=conc shards=8 cost=9 cover=shared
#[no_mangle]
pub extern "C" fn h_c05t_shared() {
  let k = pick(0, 3);
  let end = pick(0, 2);
  props();
  cover("shared");
  concurrent();
  let s = subjects::Subject::new();
  let o = match k {
    0 | 1 => {
      let p = s.observable().publish();
      let o = p.observable();
      let h = watch(&o, 1);
      watch(&o, 2);
      let c = p.connect();
      driver(&s, 1, 2, end);
      if k == 1 {
        c.unsubscribe();
        mark(UNSUBD, 1, 0);
      } else {
        stays(&h, false);
      }
      return;
    }
    2 => s.observable().ref_count().observable(),
    _ => s.observable().replay().observable(),
  };
  let h = watch(&o, 1);
  if k == 2 || cfg!(thorough) {
    watch(&o, 2);
  }
  driver(&s, 1, if k == 3 { items(cat::NOPS + 11) } else { 2 }, end);
  stays(&h, false);
}

/// two operators
//@ mode=conc shards=16 tier=thorough cost=9 cover=chain
#[no_mangle]
pub extern "C" fn h_c05t_chain() {
  let c = pick(0, NONE_SRC * NONE_SRC - 1);
  let end = pick(1, 2);
  props();
  cover("chain");
  concurrent();
  let s = subjects::Subject::new();
  let h = watch(&one(c % NONE_SRC, &one(c / NONE_SRC, &s.observable())), 1);
  driver(&s, 1, 2, end);
  stays(&h, false);
}

/// operators whose own timers race with the source (time left open)
//@ mode=conc shards=16 cost=7 cover=timed
#[no_mangle]
pub extern "C" fn h_c05t_timed() {
  use vh::timed::*;
  let k = pick(0, NTOP - 1);
  let end = pick(1, 2);
  let n = if matches!(k, 4 | 7 | 8 | 10 | 11 | 14 | 15) && !cfg!(thorough) { 0 } else { 1 };
  props();
  prop(AFTERV);
  cover("timed");
  concurrent();
  let s = subjects::Subject::new();
  let h = watch(&top(k, &s.observable(), 1), 1);
  driver(&s, 1, n, end);
  leave(&h);
}
