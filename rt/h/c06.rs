//! C06 bounds: every catalogue operator, wrapper and combinator (2 and 3 sources), every
//! pair of operators, every operator behind and before every combinator; scripts of 4
//! events (thorough 5; pairs and combinations 3), ending by terminal, early completion or
//! unsubscribe at a symbolic position: right after, every source subscribed on behalf of
//! the subscription reports is_subscribed()==false (amb's losers: after they next try to
//! emit), no source is subscribed later, subjects retain nothing (heap measured over
//! repeated subscriptions), endless synchronous producers stop; an operator that has
//! all it needs releases its source while the rest of the pipeline goes on. Operators that
//! start threads: 3 events (thorough 4) with gaps, in virtual time (h_c06_timed).
use vh::*;

const L: i64 = if cfg!(thorough) { 5 } else { 4 };

fn ap(op: i64, p: i64, o: &Observable<'static, i64>) -> Observable<'static, i64> {
  if op < cat::NOPS {
    cat::apply(op, p, o)
  } else {
    extra(op - cat::NOPS, o)
  }
}
fn par(op: i64) -> i64 {
  if op < cat::NOPS && cat::pmax(op) > 0 {
    1
  } else {
    0
  }
}

/// Drives the sources, unsubscribing at a symbolic position (l+1: never); after the end
/// no source may see itself subscribed. `lazy`: amb losers notice at their next emission.
fn drive(o: &Observable<'static, i64>, srcs: &[Raw], l: i64, lazy: bool) {
  let r = Rec::new();
  let s = r.sub(o);
  let at = choose(0, l);
  for i in 0..l {
    if i == at {
      s.unsubscribe();
    }
    if !s.is_subscribed() {
      let calls = r.d().calls;
      for q in srcs {
        if lazy {
          q.ev(0, 1);
          check(r.d().calls == calls, "an emission after the end was delivered");
        }
        check(q.live() == 0, "a source still sees itself subscribed after the subscription ended");
      }
    }
    let e = choose(0, srcs.len() as i64 * 3 - 1);
    srcs[(e / 3) as usize].polite(e % 3, if e % 3 == 0 { item() } else { 5 });
  }
  if r.d().nterm == 0 {
    s.unsubscribe();
  }
  for q in srcs {
    if lazy {
      q.ev(0, 1);
    }
    check(q.live() == 0, "a source still sees itself subscribed after the subscription ended");
  }
  r.logit();
  cover("end");
}

//@ shards=8 tshards=16 cover=end key=2 cost=5
#[no_mangle]
pub extern "C" fn h_c06_op() {
  let op = pick(0, cat::NOPS + NEXTRA - 1);
  let p = if op < cat::NOPS { pick(0, if cfg!(thorough) || cat::pmax(op) < 2 { cat::pmax(op) } else { 2 }) } else { 0 };
  let raw = Raw::new();
  drive(&ap(op, p, &raw.observable()), &[raw.clone()], L, false);
}
//@ shards=16 tshards=16 cover=end key=1 cost=7
#[no_mangle]
pub extern "C" fn h_c06_chain() {
  let n = cat::NOPS + NEXTRA;
  let c = pick(0, n * n - 1);
  let raw = Raw::new();
  drive(&ap(c % n, par(c % n), &ap(c / n, par(c / n), &raw.observable())), &[raw.clone()], 3, false);
}
//@ shards=12 tshards=12 cover=end key=1 cost=7
#[no_mangle]
pub extern "C" fn h_c06_multi2() {
  let k = pick(0, NMULTI - 1);
  map_order(pick(0, 1) == 1);
  let (a, b) = (Raw::new(), Raw::new());
  drive(&build(k, &[a.observable(), b.observable()]), &[a.clone(), b.clone()], if cfg!(thorough) { 5 } else { 3 }, k == AMB);
}
//@ shards=12 tshards=12 cover=end key=1 cost=6
#[no_mangle]
pub extern "C" fn h_c06_multi3() {
  let k = pick(0, NMULTI - 1);
  assume(!two_only(k));
  let (a, b, c) = (Raw::new(), Raw::new(), Raw::new());
  drive(
    &build(k, &[a.observable(), b.observable(), c.observable()]),
    &[a.clone(), b.clone(), c.clone()],
    if cfg!(thorough) { 4 } else { 3 },
    k == AMB,
  );
}
//@ shards=12 tshards=12 cover=end key=2 cost=7
#[no_mangle]
pub extern "C" fn h_c06_multi_op() {
  let k = pick(0, NMULTI - 1);
  let op = pick(0, cat::NOPS + NEXTRA - 1);
  let (a, b) = (Raw::new(), Raw::new());
  drive(&ap(op, par(op), &build(k, &[a.observable(), b.observable()])), &[a.clone(), b.clone()], if cfg!(thorough) { 3 } else { 2 }, k == AMB);
}
//@ shards=12 tshards=12 cover=end key=2 cost=7
#[no_mangle]
pub extern "C" fn h_c06_op_multi() {
  let k = pick(0, NMULTI - 1);
  let op = pick(0, cat::NOPS - 1);
  let side = pick(0, 1);
  let (a, b) = (Raw::new(), Raw::new());
  let mut s = vec![a.observable(), b.observable()];
  s[side as usize] = cat::apply(op, par(op), &s[side as usize]);
  drive(&build(k, &s), &[a.clone(), b.clone()], if cfg!(thorough) { 3 } else { 2 }, k == AMB);
}
/// Nested combinators.
//@ shards=12 tshards=12 cover=end key=2 cost=7
#[no_mangle]
pub extern "C" fn h_c06_nest() {
  let k = pick(0, NMULTI - 1);
  let j = pick(0, NMULTI - 1);
  let side = pick(0, 1);
  let (a, b, c) = (Raw::new(), Raw::new(), Raw::new());
  let inner = build(j, &[a.observable(), b.observable()]);
  let o = if side == 0 { build(k, &[inner, c.observable()]) } else { build(k, &[c.observable(), inner]) };
  drive(&o, &[a.clone(), b.clone(), c.clone()], if cfg!(thorough) { 3 } else { 2 }, k == AMB || j == AMB);
}

/// An operator that has all it needs releases its source at once, although the pipeline
/// behind it goes on.
//@ shards=8 cover=end,early key=2 cost=4
#[no_mangle]
pub extern "C" fn h_c06_early() {
  let op = pick(0, cat::NOPS - 1);
  let p = pick(0, if cat::pmax(op) > 2 { 2 } else { cat::pmax(op) });
  let how = pick(0, 5);
  let (a, b) = (Raw::new(), Raw::new());
  let u = cat::apply(op, p, &a.observable());
  let o = match how {
    0 => u.merge(&[b.observable()]),
    1 => b.observable().merge(&[u]),
    2 => u.concat(&[b.observable()]),
    3 => b.observable().start_with(0..1).flat_map(move |_| u.clone()),
    4 => b.observable().start_with(0..1).switch_on_next(u),
    _ => u.combine_latest(&[b.observable()], |v| enc(&v)),
  };
  let r = Rec::new();
  let s = r.sub(&o);
  let mut q = Sq::empty();
  for i in 0..3 {
    let w = cat::refop(op, p, &q);
    if w.end == COMPLETE && a.all().len() > 0 {
      cover("early");
      check(a.live() == 0, "an operator that has all it needs keeps its source subscribed");
    }
    let e = choose(0, 2);
    assume(q.end == SILENT);
    let v = if e == 0 { item() } else { 5 };
    match e {
      0 => q.items.push(v),
      1 => q.end = COMPLETE,
      _ => q.end = ERR + v,
    }
    a.polite(e, v);
  }
  let w = cat::refop(op, p, &q);
  check(w.end == SILENT || a.live() == 0, "an operator that has all it needs keeps its source subscribed");
  s.unsubscribe();
  check(a.live() == 0 && b.live() == 0, "a source is still subscribed after unsubscribe");
  r.logit();
  cover("end");
}

/// Endless synchronous producers stop.
//@ shards=4 cover=end key=3 cost=4 budget=400000
#[no_mangle]
pub extern "C" fn h_c06_endless() {
  let src = pick(0, 3);
  let mid = pick(0, 6);
  let ender = pick(0, 8);
  let o: Observable<'static, i64> = match src {
    0 => observables::from_iter(0i64..),
    1 => observables::repeat(3i64),
    2 => observables::range(0, 1 << 60),
    _ => Observable::create(|s: Observer<'static, i64>| {
      while s.is_subscribed() {
        s.next(3);
      }
    }),
  };
  let n = choose(1, 3);
  let o = match mid {
    0 => o,
    1 => o.map(|x| x),
    2 => o.scan(|(_, b)| b).skip(1),
    3 => o.merge(&[observables::never()]),
    4 => o.tap(|_| {}, |_| {}, || {}).filter(|_| true),
    5 => observables::just(0i64).flat_map(move |_| o.clone()),
    _ => o.concat(&[observables::never()]).start_with(3..4),
  };
  let r = Rec::new();
  let o = match ender {
    0 => o.take(n as usize),
    1 => o.first(),
    2 => o.element_at(n as usize),
    3 => {
      let c = Sh::new(0i64);
      o.take_while(move |_| {
        *c.m() += 1;
        *c.m() <= n
      })
    }
    4 => o.contains(3).map(|b| b as i64),
    5 => {
      let c = Sh::new(0i64);
      o.all(move |_| {
        *c.m() += 1;
        *c.m() <= n
      })
      .map(|b| b as i64)
    }
    6 => o.window_with_count(n as usize).flat_map(|w| w.count().map(|x| x as i64)).take(2),
    7 => o.buffer_with_count(n as usize).map(|v| enc(&v)).take(2),
    _ => o.amb(&[observables::never()]).take(n as usize),
  };
  let s = r.sub(&o);
  check(r.end() == COMPLETE && !s.is_subscribed(), "the pipeline did not complete");
  r.logit();
  cover("end");
}

/// Endless producer as the sibling of an input that ends everything.
//@ shards=2 cover=end key=3 cost=2 budget=400000
#[no_mangle]
pub extern "C" fn h_c06_endless_sibling() {
  let k = pick(0, 5);
  let s = Sbj::new();
  let s2 = s.clone();
  let n = choose(1, 3);
  let c = Sh::new(0i64);
  let endless: Observable<'static, i64> = Observable::create(move |o: Observer<'static, i64>| {
    while o.is_subscribed() {
      *c.m() += 1;
      if *c.m() == n {
        s2.error(rxerr(7));
        s2.next(1);
      }
      o.next(1);
    }
  });
  let t = s.observable();
  let o = match k {
    0 => t.merge(&[endless]),
    1 => t.zip(&[endless]).map(|v| enc(&v)),
    2 => t.combine_latest(&[endless], |v| enc(&v)),
    3 => t.on_error_resume_next(|e| observables::error(e)).merge(&[endless]),
    4 => t.sequence_equal(&[endless]).map(|b| b as i64),
    _ => observables::from_iter(vec![0i64, 1].into_iter()).flat_map(move |x| if x == 0 { t.clone() } else { endless.clone() }),
  };
  let r = Rec::new();
  let u = r.sub(&o);
  check(r.end() == ERR + 7 && !u.is_subscribed(), "the error of the sibling did not end the subscription");
  r.logit();
  cover("end");
}

/// Subjects hold nothing of ended subscriptions.
//@ shards=8 cover=end key=3 cost=4
#[no_mangle]
pub extern "C" fn h_c06_subject() {
  let op = pick(0, cat::NOPS + NEXTRA - 1);
  let p = par(op);
  let how = pick(0, 2);
  assume(op != cat::NOPS + 11 && op != cat::NOPS + 10);
  let s = Sbj::new();
  let keep = s.observable().subscribe(|_| {}, |_| {}, || {});
  let v = item();
  let mut heap = [0i64; 6];
  for i in 0..6 {
    let o = ap(op, p, &s.observable());
    let o = if how == 1 { o.take(1) } else { o };
    let r = Rec::new();
    let u = r.sub(&o);
    s.next(v);
    s.next(v + 1);
    if how == 2 {
      let o2 = ap(op, p, &s.observable()).take_until(s.observable());
      let u2 = o2.subscribe(|_| {}, |_| {}, || {});
      s.next(v);
      u2.unsubscribe();
    }
    u.unsubscribe();
    drop(u);
    drop(r);
    drop(o);
    heap[i] = live_heap();
  }
  check(heap[2] == heap[3] && heap[3] == heap[4] && heap[4] == heap[5], "a subject keeps something of every ended subscription");
  log("heap", heap[5] - heap[2]);
  drop(keep);
  cover("end");
}

/// The four subject types drop their observers at a terminal and at unsubscribe.
//@ shards=4 cover=end key=2 cost=2
#[no_mangle]
pub extern "C" fn h_c06_subject_end() {
  let k = pick(0, 3);
  let how = pick(0, 2);
  let n = choose(1, 3);
  let t = Arc::new(0i64);
  let mut subs = Vec::with_capacity(4);
  macro_rules! go {
    ($s:expr) => {{
      let s = $s;
      for _ in 0..n {
        let (a, b, c) = (t.clone(), t.clone(), t.clone());
        subs.push(s.observable().subscribe(
          move |_| {
            let _ = &a;
          },
          move |_| {
            let _ = &b;
          },
          move || {
            let _ = &c;
          },
        ));
      }
      s.next(item());
      check(Arc::strong_count(&t) == 1 + 3 * n as usize, "setup");
      match how {
        0 => s.complete(),
        1 => s.error(rxerr(3)),
        _ => {
          for u in subs.iter() {
            u.unsubscribe()
          }
        }
      }
      check(Arc::strong_count(&t) == 1, "a subject still holds an observer that has ended");
      s.next(1);
    }};
  }
  match k {
    0 => go!(subjects::Subject::<'static, i64>::new()),
    1 => go!(subjects::BehaviorSubject::<'static, i64>::new(1)),
    2 => go!(subjects::ReplaySubject::<'static, i64>::new()),
    _ => go!(subjects::AsyncSubject::<'static, i64>::new()),
  }
  cover("end");
}

/// Operators that start threads: ended by a timer, a terminal or an unsubscribe.
//@ shards=8 cover=end key=2 cost=4
#[no_mangle]
pub extern "C" fn h_c06_timed() {
  use vh::timed::*;
  let k = pick(0, DELAY);
  let raw = Raw::new();
  let r = Rec::new();
  let end = pick(0, 2);
  let o = top(k, &raw.observable(), 10);
  let s = r.sub(&match end {
    0 => o,
    1 => o.take(1),
    _ => o.map(|x| x).take_while(|x| x == 1),
  });
  let lazy = matches!(k, 8 | 9);
  let l = if cfg!(thorough) { 4 } else { 3 };
  let at = choose(0, l);
  for i in 0..=l {
    match choose(0, 2) {
      0 => {}
      1 => sleep_ns(3),
      _ => sleep_ns(13),
    }
    if i == at {
      s.unsubscribe();
    }
    idle();
    if !s.is_subscribed() || i == l {
      break;
    }
    raw.polite(choose(0, 2), 1);
    idle();
  }
  if r.d().nterm == 0 {
    s.unsubscribe();
  }
  let calls = r.d().calls;
  if lazy {
    raw.ev(0, 1);
  }
  idle();
  check(r.d().calls == calls, "an emission after the end was delivered");
  check(raw.live() == 0, "a source still sees itself subscribed after the subscription ended");
  sleep_ns(25);
  check(raw.live() == 0, "a source was subscribed after the subscription ended");
  r.logit();
  cover("end");
}
