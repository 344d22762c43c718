//! C13 bounds (threads): ref_count and replay over a source that never ends by itself; two
//! subscribers that arrive at once on two threads (h_c13t_join), one that leaves while
//! another arrives (h_c13t_swap), two that leave at once (h_c13t_leave), one that arrives
//! while a thread emits 1-2 items (h_c13t_feed), or while the source completes (h_c13t_end;
//! replay: thorough).
//! All interleavings at lock granularity: never two source subscriptions at a time, whoever
//! stays gets what is emitted afterwards (replay: everything, once, in order), and the source
//! is unsubscribed when the last one has left.
use std::sync::{Arc, Mutex};
use vh::thr::*;
use vh::*;

const LIVE: i64 = 30; // (when, live source subscriptions)
const TWO: &str = "@viol two source subscriptions at a time: l=30(0,1)";
const NONE: &str = "@viol a subscriber is there but the source is not subscribed: l=30(1,0)";
const MORE: &str = "@viol more than one source subscription: l=30(1,2)";
const LEFT: &str = "@viol the source is still subscribed after the last subscriber left: l=30(2,1)";
const LEFT2: &str = "@viol the source is still subscribed after the last subscriber left: l=30(2,2)";

type Src = Arc<Mutex<Vec<Observer<'static, i64>>>>;
fn live(src: &Src) -> i64 {
  let all: Vec<_> = src.lock().unwrap().clone();
  all.iter().filter(|o| o.is_subscribed()).count() as i64
}
/// Notes at every subscription whether an earlier one is alive.
fn source(src: &Src) -> Observable<'static, i64> {
  let src = src.clone();
  Observable::create(move |s| {
    let before = {
      let mut v = src.lock().unwrap();
      let before: Vec<_> = v.clone();
      v.push(s);
      before
    };
    mark(LIVE, 0, before.iter().any(|o| o.is_subscribed()) as i64);
  })
}
fn emit(src: &Src, x: i64) {
  let all: Vec<_> = src.lock().unwrap().clone();
  mark(EMIT, 0, x);
  all.iter().for_each(|o| o.next(x));
  mark(EMITTED, 0, x);
}
fn share(k: i64, o: &Observable<'static, i64>) -> Observable<'static, i64> {
  if k == 0 {
    o.ref_count().observable()
  } else {
    o.replay().observable()
  }
}
fn props() {
  for p in [TWO, NONE, MORE, LEFT, LEFT2] {
    prop(p);
  }
}

//@ mode=conc shards=4 cost=4 cover=join
#[no_mangle]
pub extern "C" fn h_c13t_join() {
  let k = pick(0, 1);
  props();
  prop("@viol a subscriber got nothing: e=4(0,7) !1(1,7)");
  prop("@viol a subscriber got nothing: e=4(0,7) !1(2,7)");
  cover("join");
  concurrent();
  let src: Src = Arc::new(Mutex::new(Vec::new()));
  let o = share(k, &source(&src));
  let o2 = o.clone();
  let t = th(move || std::mem::forget(watch(&o2, 2)));
  let h = watch(&o, 1);
  t.join().unwrap();
  mark(LIVE, 1, live(&src));
  emit(&src, 7);
}

//@ mode=conc shards=4 cost=4 cover=swap
#[no_mangle]
pub extern "C" fn h_c13t_swap() {
  let k = pick(0, 1);
  props();
  prop("@viol the one that stays got nothing: e=4(0,7) !1(2,7)");
  prop("@viol an item after unsubscribe: e=4(0,7) i=1(1,7)");
  cover("swap");
  concurrent();
  let src: Src = Arc::new(Mutex::new(Vec::new()));
  let o = share(k, &source(&src));
  let h = watch(&o, 1);
  let t = th(move || h.unsubscribe());
  let h2 = watch(&o, 2);
  t.join().unwrap();
  mark(LIVE, 1, live(&src));
  emit(&src, 7);
  h2.unsubscribe();
  mark(LIVE, 2, live(&src));
}

//@ mode=conc shards=4 cost=4 cover=leave
#[no_mangle]
pub extern "C" fn h_c13t_leave() {
  let k = pick(0, 1);
  props();
  cover("leave");
  concurrent();
  let src: Src = Arc::new(Mutex::new(Vec::new()));
  let o = share(k, &source(&src));
  let h = watch(&o, 1);
  let h2 = watch(&o, 2);
  let t = th(move || h.unsubscribe());
  h2.unsubscribe();
  t.join().unwrap();
  mark(LIVE, 2, live(&src));
  // and again
  let h = watch(&o, 3);
  mark(LIVE, 1, live(&src));
}

//@ mode=conc shards=4 cost=4 cover=feed
#[no_mangle]
pub extern "C" fn h_c13t_feed() {
  let k = pick(0, 1);
  let n = pick(1, 2);
  props();
  prop("@viol an item arrived twice: i=1(o,v) j=1(o,v) i!=j");
  prop("@viol items were reordered: i=1(o,w) j=1(o,v) e=4(0,v) f=4(0,w) e<f i<j");
  prop("@viol the first subscriber lost an item: e=4(0,v) !1(1,v)");
  prop("@viol an item emitted after the subscription was lost: s=8(2,0) e=4(0,v) s<e !1(2,v)");
  if k == 1 {
    prop("@viol replay lost an item: e=4(0,v) !1(2,v)");
  }
  cover("feed");
  concurrent();
  let src: Src = Arc::new(Mutex::new(Vec::new()));
  let o = share(k, &source(&src));
  let h = watch(&o, 1);
  let s2 = src.clone();
  let t = th(move || {
    for x in 1..=n {
      emit(&s2, x);
    }
  });
  let h2 = watch(&o, 2);
  mark(SUBD, 2, 0);
  t.join().unwrap();
  mark(LIVE, 1, live(&src));
}

/// the source completes while somebody arrives: that one is told, or a new subscription of
/// the source serves it
//@ mode=conc shards=4 cost=4 cover=end
#[no_mangle]
pub extern "C" fn h_c13t_end() {
  let k = if cfg!(thorough) { pick(0, 1) } else { 0 };
  props();
  prop("@viol two terminals: i=2(o,*) j=2(o,*) i!=j");
  prop("@viol a subscriber is neither told nor served: l=30(3,0) !2(2,*)");
  cover("end");
  concurrent();
  let src: Src = Arc::new(Mutex::new(Vec::new()));
  let o = share(k, &source(&src));
  let h = watch(&o, 1);
  let first: Vec<_> = src.lock().unwrap().clone();
  let t = th(move || first.iter().for_each(|o| o.complete()));
  let h2 = watch(&o, 2);
  t.join().unwrap();
  mark(LIVE, 3, live(&src));
}
