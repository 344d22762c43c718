//! C01 bounds: every operator of the catalogue and of the 13 extra wrappers over a
//! source that ignores is_subscribed and plays any script of 4 events (thorough 5) out of
//! next(symbolic)/complete/error, ill-formed ones included; chains of two operators on
//! scripts of 3; every combinator over 2 such sources with every sequence of 4 (thorough
//! 5) events and over 3 sources with 3 (thorough 4), with every catalogue operator behind
//! the two-source ones (2 events, thorough 3); the four subject types with observers
//! joining at any point; windows and groups subscribed directly; sources that emit again
//! from inside the terminal callback; the operators that start threads under ill-formed
//! scripts of 3 (thorough 4) with gaps, in virtual time (h_c01_timed). After every event: at most one terminal, nothing
//! after it.
use vh::*;

const L: i64 = if cfg!(thorough) { 5 } else { 4 };

fn contract(r: &Rec, s: &Subscription<'static>) {
  let d = r.d();
  check(d.nterm <= 1, "more than one terminal was delivered");
  check(d.late == 0, "a callback ran after the terminal");
  check(d.nterm == 0 || !s.is_subscribed(), "is_subscribed after the terminal");
}

fn step(raw: &Raw, k: i64) {
  raw.ev(k, if k == 0 { item() } else { 5 });
}

/// One operator, ill-formed source.
//@ shards=8 tshards=16 cover=end,term key=2 cost=4
#[no_mangle]
pub extern "C" fn h_c01_op() {
  let op = pick(0, cat::NOPS + NEXTRA - 1);
  let raw = Raw::new();
  let o = if op < cat::NOPS {
    let p = pick(0, if cat::pmax(op) > 2 && !cfg!(thorough) { 2 } else { cat::pmax(op) });
    cat::apply(op, p, &raw.observable())
  } else {
    extra(op - cat::NOPS, &raw.observable())
  };
  let r = Rec::new();
  let s = r.sub(&o);
  for _ in 0..L {
    step(&raw, choose(0, 2));
    contract(&r, &s);
  }
  if r.d().nterm == 1 {
    cover("term");
  }
  r.logit();
  cover("end");
}

/// The source emits its whole script while subscribe runs.
//@ shards=4 cover=end key=2 cost=3
#[no_mangle]
pub extern "C" fn h_c01_cold() {
  let op = pick(0, cat::NOPS + NEXTRA - 1);
  let mut ev = Vec::with_capacity(4);
  for _ in 0..3 {
    let k = choose(0, 2);
    ev.push((k, if k == 0 { item() } else { 5 }));
  }
  let src = Observable::create(move |s| {
    for e in ev.iter() {
      send(&s, e.0, e.1);
    }
  });
  let o = if op < cat::NOPS {
    let p = pick(0, if cat::pmax(op) > 2 { 2 } else { cat::pmax(op) });
    cat::apply(op, p, &src)
  } else {
    extra(op - cat::NOPS, &src)
  };
  let r = Rec::new();
  let s = r.sub(&o);
  contract(&r, &s);
  r.logit();
  cover("end");
}

fn ap(op: i64, p: i64, o: &Observable<'static, i64>) -> Observable<'static, i64> {
  if op < cat::NOPS {
    cat::apply(op, p, o)
  } else {
    extra(op - cat::NOPS, o)
  }
}

/// Chains of two operators.
//@ shards=16 tshards=32 cover=end key=1 cost=8
#[no_mangle]
pub extern "C" fn h_c01_chain() {
  let n = cat::NOPS + NEXTRA;
  let c = pick(0, n * n - 1);
  let p = if cfg!(thorough) { pick(0, 2) } else { 1 };
  let raw = Raw::new();
  let pp = |op: i64| if op < cat::NOPS && p > cat::pmax(op) { cat::pmax(op) } else { p };
  let o = ap(c % n, pp(c % n), &ap(c / n, pp(c / n), &raw.observable()));
  let r = Rec::new();
  let s = r.sub(&o);
  for _ in 0..3 {
    step(&raw, choose(0, 2));
    contract(&r, &s);
  }
  r.logit();
  cover("end");
}

fn multi(n: i64, l: i64, down: bool) {
  let k = pick(0, NMULTI - 1);
  assume(n == 2 || !two_only(k));
  let mut raws = Vec::with_capacity(4);
  let mut srcs = Vec::with_capacity(4);
  for _ in 0..n {
    let r = Raw::new();
    srcs.push(r.observable());
    raws.push(r);
  }
  let mut o = build(k, &srcs);
  if down {
    let op = pick(0, cat::NOPS - 1);
    o = cat::apply(op, if cat::pmax(op) > 0 { 1 } else { 0 }, &o);
  } else {
    map_order(pick(0, 1) == 1);
  }
  let r = Rec::new();
  let s = r.sub(&o);
  for _ in 0..l {
    let e = choose(0, n * 3 - 1);
    step(&raws[(e / 3) as usize], e % 3);
    contract(&r, &s);
  }
  r.logit();
  cover("end");
}

/// Combinators over two ill-formed sources.
//@ shards=12 tshards=12 cover=end key=1 cost=7
#[no_mangle]
pub extern "C" fn h_c01_multi2() {
  multi(2, L, false);
}
/// Combinators over three.
//@ shards=8 tshards=12 cover=end key=1 cost=6
#[no_mangle]
pub extern "C" fn h_c01_multi3() {
  multi(3, if cfg!(thorough) { 4 } else { 3 }, false);
}
/// An operator behind a combinator.
//@ shards=12 tshards=12 cover=end key=2 cost=6
#[no_mangle]
pub extern "C" fn h_c01_multi_op() {
  multi(2, if cfg!(thorough) { 3 } else { 2 }, true);
}

/// Subjects driven past their terminal, observers joining at any point.
//@ shards=4 tshards=16 cover=end key=2 cost=4
#[no_mangle]
pub extern "C" fn h_c01_subject() {
  let sb = AnySbj::new(pick(0, 3));
  let through = pick(0, 2);
  map_order(pick(0, 1) == 1);
  let o = match through {
    0 => sb.observable(),
    1 => sb.observable().map(|x| x + 1),
    _ => sb.observable().take(2),
  };
  let (a, b) = (Rec::new(), Rec::new());
  let sa = a.sub(&o);
  let mut second: Option<Subscription<'static>> = None;
  for _ in 0..L {
    let e = choose(0, 3);
    if e == 3 {
      if second.is_none() {
        second = Some(b.sub(&o));
      }
    } else {
      sb.send(e, if e == 0 { item() } else { 5 });
    }
    contract(&a, &sa);
    if let Some(s) = &second {
      contract(&b, s);
    }
  }
  a.logit();
  b.logit();
  cover("end");
}

/// The windows and groups themselves.
//@ shards=2 cover=end key=2 cost=3
#[no_mangle]
pub extern "C" fn h_c01_inner() {
  let k = pick(0, 1);
  let p = pick(0, 2);
  let raw = Raw::new();
  let inner: Sh<Vec<(Rec, Subscription<'static>)>> = Sh::new(vec![]);
  let outer = Rec::new();
  let i2 = inner.clone();
  let on = move |w: Observable<'static, i64>| {
    let r = Rec::new();
    let s = r.sub(&w);
    i2.m().push((r, s));
  };
  let (o1, o2, o3) = (outer.clone(), outer.clone(), outer.clone());
  let s = if k == 0 {
    raw.observable().window_with_count(p as usize + 1).subscribe(
      move |w| {
        o1.next(0);
        on(w)
      },
      move |e| o2.error(e),
      move || o3.complete(),
    )
  } else {
    raw.observable().group_by(move |x| if p == 2 { 0 } else { cat::key(p, x) }).subscribe(
      move |w| {
        o1.next(0);
        on(w)
      },
      move |e| o2.error(e),
      move || o3.complete(),
    )
  };
  for _ in 0..L {
    step(&raw, choose(0, 2));
    contract(&outer, &s);
    for (r, s) in inner.m().iter() {
      contract(r, s);
    }
  }
  outer.logit();
  for (r, _) in inner.m().iter() {
    r.logit();
  }
  inner.m().clear();
  cover("end");
}

/// The subscriber's terminal callback makes the source emit again.
//@ shards=4 cover=end,re key=2 cost=3
#[no_mangle]
pub extern "C" fn h_c01_reentrant() {
  let op = pick(0, cat::NOPS + NEXTRA + NMULTI - 1);
  let again = choose(0, 2);
  let raw = Raw::new();
  let o = if op < cat::NOPS + NEXTRA {
    let p = if op < cat::NOPS && cat::pmax(op) > 0 { pick(0, 1) } else { 0 };
    ap(op, p, &raw.observable())
  } else {
    build(op - cat::NOPS - NEXTRA, &[raw.observable(), raw.observable()])
  };
  let r = Rec::new();
  let depth = Sh::new(0i64);
  let (r1, r2, r3) = (r.clone(), r.clone(), r.clone());
  let (w1, w2) = (raw.clone(), raw.clone());
  let (d1, d2) = (depth.clone(), depth.clone());
  let s = o.subscribe(
    move |x| r1.next(x),
    move |e| {
      r2.error(e);
      if *d1.m() == 0 {
        *d1.m() += 1;
        cover("re");
        w1.ev(again, 6);
      }
    },
    move || {
      r3.complete();
      if *d2.m() == 0 {
        *d2.m() += 1;
        cover("re");
        w2.ev(again, 6);
      }
    },
  );
  for _ in 0..3 {
    step(&raw, choose(0, 2));
    contract(&r, &s);
  }
  r.logit();
  cover("end");
}

/// Operators that start threads: timers race with an ill-formed source in virtual time.
//@ shards=8 cover=end,term key=2 cost=4
#[no_mangle]
pub extern "C" fn h_c01_timed() {
  use vh::timed::*;
  let k = pick(0, DELAY);
  let raw = Raw::new();
  let r = Rec::new();
  let s = r.sub(&top(k, &raw.observable(), 10));
  for _ in 0..if cfg!(thorough) { 4 } else { 3 } {
    match choose(0, 2) {
      0 => idle(),
      1 => sleep_ns(3),
      _ => sleep_ns(13),
    }
    step(&raw, choose(0, 2));
    contract(&r, &s);
  }
  sleep_ns(25);
  idle();
  contract(&r, &s);
  if r.d().nterm == 1 {
    cover("term");
  }
  s.unsubscribe();
  sleep_ns(25);
  contract(&r, &s);
  r.logit();
  cover("end");
}
