//! C05 bounds (sequential part): every catalogue operator, wrapper and combinator (two
//! sources) and every pair of operators over hot sources; scripts of 4 events (thorough
//! 5; pairs 3), unsubscribe at a symbolic position (before the first event, between any
//! two, after the terminal, inside a callback of the subscriber), repeated at a second
//! symbolic position; unsubscribing while a synchronous source is still in subscribe is
//! outside (no handle exists yet). Using guards, clones of the handle, subscribers that
//! share a subject. Operators that start threads: 3 events (thorough 4) with gaps, in
//! virtual time, unsubscribed at a symbolic position (h_c05_timed).
use vh::*;

const L: i64 = if cfg!(thorough) { 5 } else { 4 };

fn truth(r: &Rec, s: &Subscription<'static>, un: bool) {
  check(s.is_subscribed() == (!un && r.d().nterm == 0), "is_subscribed is wrong");
}

fn ap(op: i64, p: i64, o: &Observable<'static, i64>) -> Observable<'static, i64> {
  if op < cat::NOPS {
    cat::apply(op, p, o)
  } else {
    extra(op - cat::NOPS, o)
  }
}

/// Drives `srcs`, unsubscribing at two symbolic positions.
fn drive(o: &Observable<'static, i64>, srcs: &[Raw], l: i64, polite: bool) {
  let r = Rec::new();
  let s = r.sub(o);
  let (p1, p2) = (choose(0, l), choose(0, l));
  assume(p1 <= p2);
  let mut un = false;
  let mut calls = 0;
  truth(&r, &s, un);
  for i in 0..=l {
    if p1 == i || p2 == i {
      s.unsubscribe();
      if !un {
        un = true;
        calls = r.d().calls;
      }
      truth(&r, &s, un);
    }
    if i < l {
      let e = choose(0, srcs.len() as i64 * 3 - 1);
      let v = if e % 3 == 0 { item() } else { 5 };
      if polite {
        srcs[(e / 3) as usize].polite(e % 3, v);
      } else {
        srcs[(e / 3) as usize].ev(e % 3, v);
      }
      truth(&r, &s, un);
      check(!un || r.d().calls == calls, "an event emitted after unsubscribe was delivered");
    }
  }
  check(s.clone().is_subscribed() == false, "a clone of the handle is still subscribed");
  r.logit();
  cover("end");
}

//@ shards=8 tshards=16 cover=end key=2 cost=6
#[no_mangle]
pub extern "C" fn h_c05_op() {
  let op = pick(0, cat::NOPS + NEXTRA - 1);
  let p = if op < cat::NOPS && cat::pmax(op) > 0 { pick(0, 1) } else { 0 };
  let raw = Raw::new();
  drive(&ap(op, p, &raw.observable()), &[raw.clone()], L, false);
}
//@ shards=16 tshards=16 cover=end key=1 cost=7
#[no_mangle]
pub extern "C" fn h_c05_chain() {
  let n = cat::NOPS + NEXTRA;
  let c = pick(0, n * n - 1);
  let f = |op: i64| if op < cat::NOPS && cat::pmax(op) > 0 { 1 } else { 0 };
  let raw = Raw::new();
  drive(&ap(c % n, f(c % n), &ap(c / n, f(c / n), &raw.observable())), &[raw.clone()], 2, true);
}
//@ shards=12 tshards=12 cover=end key=1 cost=6
#[no_mangle]
pub extern "C" fn h_c05_multi() {
  let k = pick(0, NMULTI - 1);
  map_order(pick(0, 1) == 1);
  let (a, b) = (Raw::new(), Raw::new());
  drive(&build(k, &[a.observable(), b.observable()]), &[a.clone(), b.clone()], if cfg!(thorough) { 4 } else { 3 }, false);
}
//@ shards=12 tshards=12 cover=end key=2 cost=6
#[no_mangle]
pub extern "C" fn h_c05_multi_op() {
  let k = pick(0, NMULTI - 1);
  let op = pick(0, cat::NOPS + NEXTRA - 1);
  let p = if op < cat::NOPS && cat::pmax(op) > 0 { 1 } else { 0 };
  let (a, b) = (Raw::new(), Raw::new());
  drive(&ap(op, p, &build(k, &[a.observable(), b.observable()])), &[a.clone(), b.clone()], if cfg!(thorough) { 3 } else { 2 }, true);
}

/// The subscriber unsubscribes itself inside its n-th callback.
//@ shards=8 cover=end,inside key=2 cost=5
#[no_mangle]
pub extern "C" fn h_c05_self() {
  let op = pick(0, cat::NOPS + NEXTRA + NMULTI - 1);
  let p = if op < cat::NOPS && cat::pmax(op) > 0 { pick(0, 1) } else { 0 };
  let raw = Raw::new();
  let o = if op < cat::NOPS + NEXTRA {
    ap(op, p, &raw.observable())
  } else {
    build(op - cat::NOPS - NEXTRA, &[raw.observable(), raw.observable()])
  };
  let at = choose(1, 2);
  let r = Rec::new();
  let h: Sh<Option<Subscription<'static>>> = Sh::new(None);
  let (r1, r2, r3, h1, h2, h3) = (r.clone(), r.clone(), r.clone(), h.clone(), h.clone(), h.clone());
  let un = move |r: &Rec, h: &Sh<Option<Subscription<'static>>>| {
    if r.d().calls == at {
      if let Some(s) = h.m().clone() {
        cover("inside");
        s.unsubscribe();
        check(!s.is_subscribed(), "still subscribed after unsubscribing inside a callback");
      }
    }
  };
  let s = o.subscribe(
    move |x| {
      r1.next(x);
      un(&r1, &h1);
    },
    move |e| {
      r2.error(e);
      un(&r2, &h2);
    },
    move || {
      r3.complete();
      un(&r3, &h3);
    },
  );
  let early = r.d().calls >= at; // before the handle existed
  *h.m() = Some(s.clone());
  for _ in 0..3 {
    let k = choose(0, 2);
    // what a single event already brought may still arrive; later ones may not
    let before = r.d().calls;
    let was = s.is_subscribed();
    raw.ev(k, if k == 0 { item() } else { 5 });
    if !early {
      check(was || r.d().calls == before, "an event emitted after unsubscribe was delivered");
      check(before >= at || r.d().calls < at || !s.is_subscribed(), "still subscribed");
    }
  }
  let x = h.m().take();
  drop(x);
  r.logit();
  cover("end");
}

/// The n-th item of one event is not delivered once the subscriber left in the previous one.
//@ cover=end key=2
#[no_mangle]
pub extern "C" fn h_c05_burst() {
  let k = pick(0, 5);
  let at = choose(1, 3);
  let s = Sbj::new();
  let o = s.observable();
  let o = match k {
    0 => o.take_last(3),
    1 => o.flat_map(|x| observables::from_iter(vec![x, x, x].into_iter())),
    2 => o.concat(&[observables::from_iter(vec![1i64, 2, 3].into_iter())]),
    3 => o.skip(0),
    4 => o.buffer_with_count(3).flat_map(|v| observables::from_iter(v.into_iter())),
    _ => o.on_error_resume_next(|_| observables::from_iter(vec![1i64, 2, 3].into_iter())),
  };
  let r = Rec::new();
  let h: Sh<Option<Subscription<'static>>> = Sh::new(None);
  let (r1, r2, r3, h1) = (r.clone(), r.clone(), r.clone(), h.clone());
  let sub = o.subscribe(
    move |x| {
      r1.next(x);
      if r1.d().items.len() as i64 == at {
        if let Some(s) = h1.m().clone() {
          s.unsubscribe();
        }
      }
    },
    move |e| r2.error(e),
    move || r3.complete(),
  );
  *h.m() = Some(sub.clone());
  for _ in 0..3 {
    s.next(item());
  }
  sfinish(&s, if k == 5 { ERR } else { COMPLETE });
  check(r.d().items.len() as i64 <= at, "an item was emitted to a subscriber that had unsubscribed");
  if r.d().items.len() as i64 == at {
    check(r.d().nterm == 0, "a terminal was emitted to a subscriber that had unsubscribed");
    check(!sub.is_subscribed(), "still subscribed");
  }
  *h.m() = None;
  r.logit();
  cover("end");
}

/// Using guards unsubscribe when dropped.
//@ shards=2 cover=end key=2
#[no_mangle]
pub extern "C" fn h_c05_using() {
  let op = pick(0, cat::NOPS + NEXTRA - 1);
  let p = if op < cat::NOPS && cat::pmax(op) > 0 { 1 } else { 0 };
  let raw = Raw::new();
  let r = Rec::new();
  let s = r.sub(&ap(op, p, &raw.observable()));
  let at = choose(0, 3);
  let mut g = Some(utils::Using::new(s.clone()));
  let mut calls = 0;
  for i in 0..=3 {
    if i == at {
      check(s.is_subscribed() == (r.d().nterm == 0), "is_subscribed is wrong under a guard");
      g = None;
      calls = r.d().calls;
      check(!s.is_subscribed(), "dropping the guard did not unsubscribe");
    }
    let k = choose(0, 2);
    raw.ev(k, if k == 0 { item() } else { 5 });
    check(i < at || r.d().calls == calls, "an event was delivered after the guard was dropped");
  }
  drop(g);
  r.logit();
  cover("end");
}

/// Two subscribers of one subject: leaving concerns one of them only.
//@ shards=2 cover=end key=2
#[no_mangle]
pub extern "C" fn h_c05_shared() {
  let k = pick(0, 3);
  let op = pick(0, cat::NOPS - 1);
  // (what ref_count's source says while being connected reaches the first only)
  assume(!(k == 1 && op == cat::START_WITH));
  let p = if cat::pmax(op) > 0 { 1 } else { 0 };
  map_order(pick(0, 1) == 1);
  let s = Sbj::new();
  let o = cat::apply(op, p, &s.observable());
  let o = match k {
    0 => o,
    1 => o.ref_count().observable(),
    2 => o.replay().observable(),
    _ => o.merge(&[observables::never()]).map(|x| x),
  };
  let (a, b) = (Rec::new(), Rec::new());
  let (sa, sb) = (a.sub(&o), b.sub(&o));
  let who = choose(0, 1);
  let at = choose(0, 3);
  let mut calls = -1;
  let mut q = Sq::empty();
  for i in 0..=3 {
    if i == at {
      if who == 0 {
        sa.unsubscribe()
      } else {
        sb.unsubscribe()
      }
      calls = if who == 0 { a.d().calls } else { b.d().calls };
    }
    let e = choose(0, 2);
    assume(q.end == SILENT);
    let v = if e == 0 { item() } else { 5 };
    match e {
      0 => q.items.push(v),
      1 => q.end = COMPLETE,
      _ => q.end = ERR + v,
    }
    ssend(&s, e, v);
    let (gone, stay, ss) = if who == 0 { (&a, &b, &sb) } else { (&b, &a, &sa) };
    check(calls < 0 || gone.d().calls == calls, "an event was delivered after unsubscribe");
    let w = cat::refop(op, p, &q);
    let w = if k == 3 && w.end == COMPLETE { Sq::new(w.items, SILENT) } else { w };
    stay.expect(&w, "the subscriber that stayed did not receive everything");
    check(ss.is_subscribed() == (w.end == SILENT), "is_subscribed is wrong for the one that stayed");
  }
  a.logit();
  b.logit();
  cover("end");
}

/// Operators that start threads: timers and a source that goes on after the unsubscribe.
//@ shards=8 cover=end key=2 cost=4
#[no_mangle]
pub extern "C" fn h_c05_timed() {
  use vh::timed::*;
  let k = pick(0, DELAY);
  let raw = Raw::new();
  let r = Rec::new();
  let s = r.sub(&top(k, &raw.observable(), 10));
  idle();
  let l = if cfg!(thorough) { 4 } else { 3 };
  let at = choose(0, l - 1);
  truth(&r, &s, false);
  let (mut calls, mut un) = (0, false);
  for i in 0..l {
    match choose(0, 2) {
      0 => {}
      1 => sleep_ns(3),
      _ => sleep_ns(13),
    }
    idle();
    truth(&r, &s, un);
    if i == at {
      s.unsubscribe();
      un = true;
      calls = r.d().calls;
      truth(&r, &s, un);
    }
    // what debounce holds back was emitted before
    raw.ev(choose(0, 2), if un { 100 } else { 1 });
    idle();
    truth(&r, &s, un);
  }
  sleep_ns(25);
  idle();
  if k == 2 {
    check(!r.d().items.contains(&100), "an item emitted after unsubscribe was delivered");
  } else {
    check(r.d().calls == calls, "something was delivered after unsubscribe");
  }
  s.unsubscribe();
  truth(&r, &s, true);
  r.logit();
  cover("end");
}
