//! C07 bounds (threads): up to 3 threads (thorough 4): two threads that emit an item and a
//! terminal each (into one source, into the two inputs of a combinator, into two subjects
//! whose callbacks emit into each other), against unsubscribing and subscribing threads,
//! over every operator and combinator, the four subjects, publish/ref_count/replay with
//! connects and disconnects; callbacks that unsubscribe their own subscription or complete
//! the source; the 20 operators that start threads, their timers racing with a source and
//! an unsubscribe; chains of two operators (thorough). All interleavings at lock granularity; a
//! run that ends with a thread waiting for a lock is the violation. (The scenarios of C08,
//! C09, C11, C12, C15, C16, C18 and C19 report deadlocks too.)
use std::sync::Mutex;
use vh::multi::*;
use vh::thr::*;
use vh::*;

fn quiet(o: &Observable<'static, i64>) -> Subscription<'static> {
  o.subscribe(|_| {}, |_| {}, || {})
}
fn fin(s: &subjects::Subject<'static, i64>, end: i64) {
  match end {
    1 => s.complete(),
    2 => s.error(rxerr(7)),
    _ => {}
  }
}
/// Another thread: n items, then the terminal.
fn drive(s: &subjects::Subject<'static, i64>, n: i64, end: i64) {
  let s = s.clone();
  th(move || {
    for x in 0..n {
      s.next(10 + x);
    }
    fin(&s, end);
  });
}

/// two emitting threads against an unsubscribe
//@ mode=conc shards=16 cost=6 cover=ops
#[no_mangle]
pub extern "C" fn h_c07t_op() {
  let k = pick(0, NONE_SRC - 1);
  let end = pick(1, 2);
  let late = cfg!(thorough) && pick(0, 1) == 1;
  cover("ops");
  concurrent();
  let s = subjects::Subject::new();
  let o = one(k, &s.observable());
  let h = quiet(&o);
  drive(&s, 1, end);
  // window_with_count and replay with two emitting threads: thorough
  if cfg!(thorough) || k != 29 && k != cat::NOPS + 11 {
    drive(&s, 1, 0);
  }
  if late {
    let o2 = o.clone();
    th(move || quiet(&o2).unsubscribe());
  }
  h.unsubscribe();
}

/// both inputs of a combinator and an unsubscribe
//@ mode=conc shards=16 cost=6 cover=multi
#[no_mangle]
pub extern "C" fn h_c07t_multi() {
  let k = pick(0, NMULTI - 1);
  let end = pick(0, 2);
  let end2 = pick(0, 2);
  assume(end + end2 > 0);
  let leave = pick(0, 1) == 1;
  assume(cfg!(thorough) || k != SEQ_EQ || !leave || end + end2 != 2);
  cover("multi");
  concurrent();
  let (a, b) = (subjects::Subject::new(), subjects::Subject::new());
  let h = quiet(&build(k, &[a.observable(), b.observable()]));
  drive(&a, 1, end);
  if leave {
    drive(&b, 1, end2);
    h.unsubscribe();
  } else {
    b.next(3);
    fin(&b, end2);
  }
}

/// a subject: a thread that emits, one that comes and goes, one that leaves
//@ mode=conc shards=8 cost=6 cover=subject
#[no_mangle]
pub extern "C" fn h_c07t_subject() {
  let k = pick(0, 3);
  let end = pick(0, 2);
  let what = pick(0, 2);
  // the larger histories of the two subjects with more state: thorough
  assume(cfg!(thorough) || !matches!(k, 1 | 2) || what == 1 || end == 0);
  cover("subject");
  concurrent();
  let s = AnySbj::new(k);
  let o = s.observable();
  let h = quiet(&o);
  let s2 = s.clone();
  th(move || {
    s2.send(0, 5);
    if end > 0 {
      s2.send(end, 7);
    }
  });
  match what {
    0 => {
      th(move || quiet(&o).unsubscribe());
      h.unsubscribe();
    }
    1 => {
      let s2 = s.clone();
      th(move || s2.send(1, 0));
      s.send(0, 6);
    }
    _ => {
      quiet(&o).unsubscribe();
      h.unsubscribe();
    }
  }
}

/// shared sources: the source emits while one thread connects or subscribes and another
/// disconnects or leaves
//@ mode=conc shards=12 cost=8 cover=shared
#[no_mangle]
pub extern "C" fn h_c07t_shared() {
  let k = pick(0, 2);
  let end = pick(0, 2);
  let what = pick(0, 2);
  assume(cfg!(thorough) || k == 0 || what == 0 || end == 0);
  // three threads around replay: thorough
  let idle_source = !cfg!(thorough) && k == 2 && what == 1;
  cover("shared");
  concurrent();
  let s = subjects::Subject::new();
  match k {
    0 => {
      let p = s.observable().publish();
      let h = quiet(&p.observable());
      let c = p.connect();
      drive(&s, 1, end);
      match what {
        0 => {
          th(move || c.unsubscribe());
          h.unsubscribe();
        }
        1 => {
          let p2 = p.clone();
          th(move || quiet(&p2.observable()).unsubscribe());
          c.unsubscribe();
        }
        _ => {
          c.unsubscribe();
          p.connect().unsubscribe();
        }
      }
    }
    _ => {
      let o = if k == 1 { s.observable().ref_count().observable() } else { s.observable().replay().observable() };
      let h = quiet(&o);
      if idle_source {
        s.next(1);
      } else {
        drive(&s, 1, end);
      }
      match what {
        0 => h.unsubscribe(),
        1 => {
          th(move || quiet(&o).unsubscribe());
          h.unsubscribe();
        }
        _ => {
          h.unsubscribe();
          quiet(&o).unsubscribe();
        }
      }
    }
  }
}

/// two threads subscribe to a shared source that emits while being subscribed
//@ mode=conc shards=4 cost=5 cover=first
#[no_mangle]
pub extern "C" fn h_c07t_first() {
  let k = pick(0, 2);
  let what = pick(0, 1);
  let src = pick(0, 1);
  assume(cfg!(thorough) || src == 0 && (k < 2 || what == 0) || k == 0 && what == 0);
  cover("first");
  concurrent();
  let s = subjects::BehaviorSubject::new(1i64);
  let o = if src == 0 { s.observable() } else { observables::just(1) };
  let o = match k {
    0 => {
      let p = o.publish();
      let p2 = p.clone();
      th(move || {
        p2.connect();
      });
      p.observable()
    }
    1 => o.ref_count().observable(),
    _ => o.replay().observable(),
  };
  let o2 = o.clone();
  th(move || {
    let h = quiet(&o2);
    if what == 1 {
      h.unsubscribe();
    }
  });
  let h = quiet(&o);
  if what == 1 {
    h.unsubscribe();
  }
}

/// callbacks of two subjects emit into each other, from two threads
//@ mode=conc shards=8 cost=5 cover=cross
#[no_mangle]
pub extern "C" fn h_c07t_cross() {
  let ka = pick(0, 3);
  let kb = pick(0, 3);
  let what = pick(0, 2);
  assume(cfg!(thorough) || (ka == kb && ka != 2) || ka == 0);
  cover("cross");
  concurrent();
  let (a, b) = (AnySbj::new(ka), AnySbj::new(kb));
  let (a2, b2) = (a.clone(), b.clone());
  let (a3, b3) = (a.clone(), b.clone());
  // an item of 20 or more is passed on once
  let h = a.observable().subscribe(
    move |x| {
      if x >= 20 {
        b2.send(0, 3)
      }
    },
    |_| {},
    move || b3.send(1, 0),
  );
  b.observable().subscribe(
    move |x| {
      if x >= 20 {
        a2.send(0, 3)
      }
    },
    |_| {},
    move || {
      if what == 1 {
        a3.send(1, 0)
      }
    },
  );
  let b4 = b.clone();
  th(move || {
    b4.send(0, 21);
    b4.send(1, 0);
  });
  a.send(0, 22);
  if what == 2 {
    h.unsubscribe();
  }
  a.send(1, 0);
}

/// a callback that unsubscribes its own subscription, or completes its source, while others
/// emit and unsubscribe
//@ mode=conc shards=16 cost=6 cover=inside
#[no_mangle]
pub extern "C" fn h_c07t_inside() {
  let k = pick(0, NONE_SRC - 1);
  let what = pick(0, 1);
  let end = if cfg!(thorough) { pick(0, 2) } else { 0 };
  let full = cfg!(thorough) || !matches!(k, 29 | 30);
  cover("inside");
  concurrent();
  let s = subjects::Subject::new();
  let o = one(k, &s.observable());
  let own: Arc<Mutex<Option<Subscription<'static>>>> = Arc::new(Mutex::new(None));
  let (own2, s2) = (own.clone(), s.clone());
  let h = o.subscribe(
    move |_| {
      let h = own2.lock().unwrap().clone();
      match h {
        Some(h) if what == 0 => h.unsubscribe(),
        _ => s2.complete(),
      }
    },
    |_| {},
    || {},
  );
  *own.lock().unwrap() = Some(h.clone());
  drive(&s, 2, end);
  if what == 0 {
    h.unsubscribe();
  } else {
    if full {
      s.next(4);
    }
    s.complete();
  }
}

/// chains of two operators with state
//@ mode=conc tier=thorough tshards=32 cost=6 cover=chain
#[no_mangle]
pub extern "C" fn h_c07t_chain() {
  let k = pick(0, NONE_SRC - 1);
  let k2 = pick(0, 4);
  let end = pick(1, 2);
  cover("chain");
  concurrent();
  let s = subjects::Subject::new();
  let o = one(k, &s.observable());
  let o = match k2 {
    0 => o.take(1),
    1 => o.retry(2),
    2 => o.flat_map(|x| observables::just(x)),
    3 => o.ref_count().observable(),
    _ => o.amb(&[observables::never()]),
  };
  let h = quiet(&o);
  drive(&s, 1, end);
  drive(&s, 1, 0);
  h.unsubscribe();
}

/// operators with timers of their own (time left open): an emitting thread, an unsubscribe,
/// and (inside) a callback that ends the source
//@ mode=conc shards=16 cost=6 cover=timed
#[no_mangle]
pub extern "C" fn h_c07t_timed() {
  use vh::timed::*;
  let k = pick(0, NTOP - 1);
  let end = pick(1, 2);
  let inside = pick(0, 1) == 1;
  assume(cfg!(thorough) || !inside || end == 1);
  let n = if matches!(k, 4 | 7 | 8 | 10 | 11 | 14 | 15) && !cfg!(thorough) { 0 } else { 1 };
  cover("timed");
  concurrent();
  let s = subjects::Subject::new();
  let o = top(k, &s.observable(), 1);
  let h = if inside {
    let s2 = s.clone();
    o.subscribe(move |_| fin(&s2, end), |_| {}, || {})
  } else {
    quiet(&o)
  };
  drive(&s, n, end);
  h.unsubscribe();
}
