//! Subjects (Subject, BehaviorSubject, ReplaySubject) under two producer threads of 1-2 and
//! 0-1 items with one observer that stays and one that unsubscribes from a third thread
//! (h_c12_leave), that subscribes on a third thread meanwhile (h_c12_join; thorough: also
//! two items against one for the stateful subjects), one producer that pushes and then
//! completes while an observer joins (h_c12_end), two observers that join at once, of
//! which one may leave again (h_c12_join2), and (thorough) a joiner and a leaver at the
//! same time (h_c12_both). All interleavings at lock granularity.
use vh::thr::*;
use vh::*;

const DUP: &str = "@viol an item arrived twice: i=1(o,v) j=1(o,v) i!=j";
const ORDER: &str = "@viol items of one producer were reordered: e=4(p,v) f=4(p,w) i=1(o,v) j=1(o,w) e<f j<i";
const RT: &str = "@viol an item pushed after another push had returned overtook it: e=5(*,v) f=4(*,w) i=1(o,v) j=1(o,w) e<f j<i";
const MISS0: &str = "@viol an observer that stayed missed an item: e=4(*,v) !1(0,v)";
const LEFT: &str = "@viol a leaving observer has a gap: e=4(p,v) f=4(p,w) j=1(1,w) e<f !1(1,v)";
const AFTER: &str = "@viol an item emitted after unsubscribe returned was delivered: u=6(o,*) e=4(*,v) i=1(o,v) u<e";

fn push(s: &AnySbj, p: i64, n: i64) {
  for k in 1..=n {
    mark(EMIT, p, 10 * p + k);
    s.send(0, 10 * p + k);
    mark(EMITTED, p, 10 * p + k);
  }
}
fn producer(s: &AnySbj, p: i64, n: i64) {
  if n > 0 {
    let s = s.clone();
    th(move || push(&s, p, n));
  }
}
fn joins(k: i64) {
  prop("@viol a late observer has a gap: e=4(p,w) f=4(p,v) j=1(1,w) e<f !1(1,v)");
  prop("@viol an item pushed after subscribe returned was missed: s=8(1,*) e=4(*,v) s<e !1(1,v)");
  prop("@viol an item pushed after a received one was missed: e=5(*,w) f=4(*,v) j=1(1,w) e<f !1(1,v)");
  if k == 1 {
    prop("@viol a late observer got no value: s=8(1,*) !1(1,*)");
    prop("@viol a late observer got the initial value and missed a later one: i=1(1,9) e=4(*,v) !1(1,v)");
  }
  if k == 2 {
    prop("@viol a late observer missed an item: e=4(*,v) !1(1,v)");
    prop(RT);
  }
}

//@ mode=conc shards=6 cost=3 cover=leave
#[no_mangle]
pub extern "C" fn h_c12_leave() {
  let k = pick(0, 2);
  let (n1, n2) = (pick(1, 2), pick(0, 1));
  let s = AnySbj::new(k);
  let o = s.observable();
  watch(&o, 0);
  let b = watch(&o, 1);
  prop(MISS0);
  prop(DUP);
  prop(ORDER);
  prop(LEFT);
  prop(AFTER);
  cover("leave");
  concurrent();
  producer(&s, 1, n1);
  producer(&s, 2, n2);
  b.unsubscribe();
  mark(UNSUBD, 1, 0);
}

//@ mode=conc shards=11 cost=9 cover=join
#[no_mangle]
pub extern "C" fn h_c12_join() {
  let k = pick(0, 2);
  let (n1, n2) = (pick(1, 2), pick(0, 1));
  if !cfg!(thorough) && k == 2 && n1 + n2 > 2 {
    return assume(false);
  }
  let s = AnySbj::new(k);
  let o = s.observable();
  watch(&o, 0);
  prop(MISS0);
  prop(DUP);
  prop(ORDER);
  joins(k);
  cover("join");
  concurrent();
  producer(&s, 1, n1);
  producer(&s, 2, n2);
  watch(&o, 1);
  mark(SUBD, 1, 0);
}

//@ mode=conc shards=4 cost=5 cover=end
#[no_mangle]
pub extern "C" fn h_c12_end() {
  let k = pick(0, 3);
  let n = pick(1, if cfg!(thorough) { 2 } else { 1 });
  let end = pick(1, 2);
  let s = AnySbj::new(k);
  let o = s.observable();
  watch(&o, 0);
  prop(DUP);
  prop("@viol an observer that stayed got no terminal: e=4(2,1000) !2(0,*)");
  prop("@viol two terminals: i=2(o,*) j=2(o,*) i!=j");
  prop("@viol an item after the terminal: i=2(o,*) j=1(o,*) i<j");
  if k < 3 {
    prop("@viol an observer that stayed missed an item: e=4(1,v) !1(0,v)");
  }
  if k == 2 {
    prop("@viol a late observer missed an item: e=4(1,v) !1(1,v)");
  }
  if k == 3 && end == 1 {
    prop("@viol the last item was not delivered: e=4(1,v) !4(1,v+1) !1(0,v)");
  }
  prop("@viol a late observer of a subject that keeps its terminal got none: s=8(1,*) t=10(0,0) !2(1,*)");
  prop("@viol an observer subscribed before the terminal did not get it: s=8(1,*) t=4(2,1000) s<t !2(1,*)");
  cover("end");
  concurrent();
  if k == 1 || k == 2 {
    mark(POST, 0, 0);
  }
  let s2 = s.clone();
  th(move || {
    push(&s2, 1, n);
    mark(EMIT, 2, 1000);
    s2.send(end, 7);
    mark(EMITTED, 2, 1000);
  });
  watch(&o, 1);
  mark(SUBD, 1, 0);
}

/// two observers join at once on two threads, one pushes an item afterwards (thorough: both
/// do) and the other may leave again first
//@ mode=conc shards=6 cost=6 cover=join2
#[no_mangle]
pub extern "C" fn h_c12_join2() {
  let k = pick(0, 2);
  let leave = pick(0, 1);
  let s = AnySbj::new(k);
  let o = s.observable();
  prop(DUP);
  prop(ORDER);
  prop(AFTER);
  prop("@viol an item pushed after subscribe returned was missed: s=8(1,*) e=4(*,v) s<e !1(1,v)");
  if leave == 0 {
    prop("@viol an item pushed after subscribe returned was missed: s=8(2,*) e=4(*,v) s<e !1(2,v)");
  }
  cover("join2");
  concurrent();
  let (s2, o2) = (s.clone(), o.clone());
  th(move || {
    let b = watch(&o2, 2);
    mark(SUBD, 2, 0);
    if leave == 1 {
      b.unsubscribe();
      mark(UNSUBD, 2, 0);
    }
    if cfg!(thorough) {
      push(&s2, 2, 1);
    }
  });
  watch(&o, 1);
  mark(SUBD, 1, 0);
  push(&s, 1, 1);
}

//@ mode=conc shards=3 tier=thorough cost=9 cover=both
#[no_mangle]
pub extern "C" fn h_c12_both() {
  let k = pick(0, 2);
  let s = AnySbj::new(k);
  let o = s.observable();
  watch(&o, 0);
  let b = watch(&o, 2);
  prop(MISS0);
  prop(DUP);
  prop(ORDER);
  prop(AFTER);
  joins(k);
  cover("both");
  concurrent();
  producer(&s, 1, 1);
  th(move || {
    b.unsubscribe();
    mark(UNSUBD, 2, 0);
  });
  watch(&o, 1);
  mark(SUBD, 1, 0);
}
