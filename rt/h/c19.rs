//! At most one terminal and no event that starts after a terminal callback has returned:
//! every two-source combinator with each input emitting one item and then completing,
//! failing or neither on a thread of its own (12 x 3 x 3 endings; thorough: two items); the
//! four subject types with next on one thread and complete/error on another (thorough: on
//! two others) under two observers; every single-source operator over a subject used in
//! that way; a cold source that emits from two threads; the 20 operators that start
//! threads, their timers racing with a source (h_c19_timed). All interleavings at lock
//! granularity.
use vh::multi::*;
use vh::thr::*;
use vh::*;

const TDUP: &str = "@viol two terminals: i=2(o,*) j=2(o,*) i!=j";
const LATE: &str = "@viol an item that started to be emitted after the terminal callback had returned was delivered: t=3(o,*) e=4(*,*) i=1(o,*) e~i t<e e<i";
const LATET: &str = "@viol a terminal that started to be emitted after the terminal callback had returned was delivered: t=3(o,*) e=4(*,*) i=2(o,*) e~i t<e e<i";

fn props() {
  prop(TDUP);
  prop(LATE);
  prop(LATET);
}

//@ mode=conc shards=16 nodes=9000 cost=9 cover=multi
#[no_mangle]
pub extern "C" fn h_c19_multi() {
  let k = pick(0, NMULTI - 1);
  let (e1, e2) = (pick(0, 2), pick(0, 2));
  let n = if cfg!(thorough) { pick(1, 2) } else { 1 };
  props();
  cover("multi");
  concurrent();
  let (a, b) = (subjects::Subject::new(), subjects::Subject::new());
  watch(&build(k, &[a.observable(), b.observable()]), 1);
  if matches!(k, FLAT_MAP | SWITCH) {
    a.next(1); // subscribes to b
  }
  if k == SAMPLE {
    a.next(1);
  }
  if k == RESUME || k == CONCAT {
    // the second input takes over while the first one's thread may still be at work
    let (a2, b2) = (a.clone(), b.clone());
    th(move || {
      finish_s(&a2, 1, if k == CONCAT { 1 } else { 2 });
      emits(&b2, 2, n, e2);
    });
    driver(&a, 1, n, e1);
    return;
  }
  // an outer source that fails right after another inner: thorough
  let n1 = if matches!(k, FLAT_MAP | SWITCH) && e1 == 2 && !cfg!(thorough) { 0 } else { n };
  driver(&a, 1, n1, e1);
  driver(&b, 2, n, e2);
}

/// three inputs
//@ mode=conc shards=8 tier=thorough cost=9 cover=multi3
#[no_mangle]
pub extern "C" fn h_c19_multi3() {
  let k = [MERGE, ZIP, LATEST, AMB, SEQ_EQ][pick(0, 4) as usize];
  let e = [pick(1, 2), pick(1, 2), pick(1, 2)];
  props();
  cover("multi3");
  concurrent();
  let s = [subjects::Subject::new(), subjects::Subject::new(), subjects::Subject::new()];
  watch(&build(k, &[s[0].observable(), s[1].observable(), s[2].observable()]), 1);
  for i in 0..3 {
    driver(&s[i], i as i64 + 1, i64::from(i == 0), e[i]);
  }
}

//@ mode=conc shards=8 cost=5 cover=subject
#[no_mangle]
pub extern "C" fn h_c19_subject() {
  let k = pick(0, 3);
  let n = pick(1, 2);
  // a second observer of a ReplaySubject multiplies the schedules: thorough
  let two = k != 2 || cfg!(thorough) && n == 1;
  let (e1, e2) = (pick(1, 2), pick(0, if cfg!(thorough) { 2 } else { 0 }));
  let e0 = pick(0, 2);
  props();
  cover("subject");
  concurrent();
  let s = AnySbj::new(k);
  let o = s.observable();
  watch(&o, 1);
  if two {
    watch(&o, 2);
  }
  let s2 = s.clone();
  th(move || {
    for k in 1..=n {
      mark(EMIT, 1, 10 + k);
      s2.send(0, 10 + k);
    }
    if e0 > 0 {
      mark(EMIT, 1, 1000);
      s2.send(e0, 7);
    }
  });
  if e2 > 0 {
    let s2 = s.clone();
    th(move || {
      mark(EMIT, 3, 1000);
      s2.send(e2, 7);
    });
  }
  mark(EMIT, 2, 1000);
  s.send(e1, 7);
}

//@ mode=conc shards=16 cost=5 cover=ops
#[no_mangle]
pub extern "C" fn h_c19_ops() {
  let k = pick(0, NONE_SRC - 1);
  let e = pick(1, 2);
  let n = 2;
  props();
  cover("ops");
  concurrent();
  let s = subjects::Subject::new();
  watch(&one(k, &s.observable()), 1);
  driver(&s, 1, n, 3 - e);
  finish_s(&s, 2, e);
}

/// a cold source whose two threads emit into the same observer
//@ mode=conc shards=8 cost=5 cover=cold
#[no_mangle]
pub extern "C" fn h_c19_cold() {
  let k = [cat::MAP, cat::TAKE, cat::SCAN, cat::BUFFER, cat::LAST, cat::MATERIALIZE, cat::NOPS + 5, cat::NOPS + 10][pick(0, 7) as usize];
  let (e1, e2) = (pick(0, 2), pick(1, 2));
  props();
  cover("cold");
  concurrent();
  let o = Observable::create(move |s: Observer<'static, i64>| {
    let s2 = s.clone();
    th(move || {
      mark(EMIT, 1, 11);
      s2.next(11);
      if e1 > 0 {
        mark(EMIT, 1, 1000);
        finish(&s2, e1);
      }
    });
    mark(EMIT, 2, 21);
    s.next(21);
    mark(EMIT, 2, 1000);
    finish(&s, e2);
  });
  watch(&one(k, &o), 1);
}

/// operators whose own timers race with the source (time left open)
//@ mode=conc shards=16 cost=7 cover=timed
#[no_mangle]
pub extern "C" fn h_c19_timed() {
  use vh::timed::*;
  let k = pick(0, NTOP - 1);
  let end = pick(1, 2);
  let n = if matches!(k, 4 | 7 | 8 | 10 | 11 | 14 | 15) && !cfg!(thorough) { 0 } else { 1 };
  props();
  cover("timed");
  concurrent();
  let s = subjects::Subject::new();
  let h = watch(&top(k, &s.observable(), 1), 1);
  driver(&s, 1, n, end).join().unwrap();
  h.unsubscribe();
}
