//! C14 bounds: every catalogue operator with parameters 0..2, every pair of operators and
//! every combinator (with every operator behind): subscribed 2..3 times one after
//! another over cold sources (scripts of 0..2 symbolic items, any ending, same or a
//! different script per subscription), nested (inside a callback of the first), and
//! interleaved over a source whose subscriptions are driven separately (4 events over
//! both, every order) or a shared hot source joined mid-stream (3 events before and
//! after); every operator and pair under retry with up to 3 different attempts; tap's side
//! effects counted per subscription. Operators that start threads: alone and beside another
//! subscriber, compared event by event with its instant (2 events, thorough 3; h_c14_timed).
//! ref_count, replay and publish share by definition.
use vh::*;

fn par(op: i64) -> i64 {
  if cat::pmax(op) > 0 {
    1
  } else {
    0
  }
}
/// operators whose user closures in the catalogue keep no state: all of them
fn seqs(n: usize, l: i64, same: bool) -> Vec<Sq> {
  let mut v: Vec<Sq> = Vec::with_capacity(n);
  for i in 0..n {
    if same && i > 0 {
      let q = v[0].clone();
      v.push(q);
    } else {
      v.push(script(l, 2));
    }
  }
  v
}
/// Cold source whose k-th subscription plays the k-th script.
fn nth(v: &Vec<Sq>, subs: &Sh<usize>) -> Observable<'static, i64> {
  let (v, subs) = (v.clone(), subs.clone());
  Observable::create(move |s| {
    let k = *subs.m();
    *subs.m() += 1;
    feed(&s, &v[if k < v.len() { k } else { v.len() - 1 }]);
  })
}

/// One after another.
//@ shards=8 tshards=16 cover=end key=2 cost=6
#[no_mangle]
pub extern "C" fn h_c14_seq() {
  let op = pick(0, cat::NOPS - 1);
  let p = pick(0, if cat::pmax(op) > 2 { 2 } else { cat::pmax(op) });
  let same = pick(0, 1) == 1;
  let v = seqs(if same { 3 } else { 2 }, if same { 3 } else { 2 }, same);
  let o = cat::apply(op, p, &nth(&v, &Sh::new(0)));
  for q in v.iter() {
    let r = Rec::new();
    let s = r.sub(&o);
    r.expect(&cat::refop(op, p, q), "a later subscription received something else");
    if pick(0, 1) == 1 {
      s.unsubscribe();
    }
    r.logit();
  }
  cover("end");
}

/// Two operators.
//@ shards=16 tshards=16 cover=end key=1 cost=8
#[no_mangle]
pub extern "C" fn h_c14_chain() {
  let c = pick(0, cat::NOPS * cat::NOPS - 1);
  let (o1, o2) = (c / cat::NOPS, c % cat::NOPS);
  let (p1, p2) = (par(o1), par(o2));
  let v = seqs(2, if cfg!(thorough) { 2 } else { 1 }, false);
  let o = cat::apply(o2, p2, &cat::apply(o1, p1, &nth(&v, &Sh::new(0))));
  for q in v.iter() {
    let r = Rec::new();
    r.sub(&o);
    r.expect(&cat::refop(o2, p2, &cat::refop(o1, p1, q)), "a later subscription of a chain received something else");
    r.logit();
  }
  cover("end");
}

/// Two subscriptions, driven separately, interleaved.
//@ shards=8 tshards=16 cover=end key=2 cost=7
#[no_mangle]
pub extern "C" fn h_c14_interleaved() {
  let op = pick(0, cat::NOPS - 1);
  let p = pick(0, if cat::pmax(op) > 2 { 2 } else { cat::pmax(op) });
  let raw = Raw::new();
  let o = cat::apply(op, p, &raw.observable());
  let rs = [Rec::new(), Rec::new()];
  let mut q = [Sq::empty(), Sq::empty()];
  let mut subs = 1;
  let _a = rs[0].sub(&o);
  let mut _b = None;
  for _ in 0..(if cfg!(thorough) { 5 } else { 4 }) {
    let e = choose(0, 6);
    if e == 6 {
      assume(subs == 1);
      subs = 2;
      _b = Some(rs[1].sub(&o));
    } else {
      let (i, kind) = ((e / 3) as usize, e % 3);
      assume(i < subs && q[i].end == SILENT);
      let v = if kind == 0 { item() } else { 5 };
      match kind {
        0 => q[i].items.push(v),
        1 => q[i].end = COMPLETE,
        _ => q[i].end = ERR + v,
      }
      let all = raw.all();
      assume(i < all.len());
      send(&all[i], kind, v);
    }
    for i in 0..subs {
      rs[i].expect(&cat::refop(op, p, &q[i]), "interleaved subscriptions disturb each other");
    }
  }
  rs[0].logit();
  rs[1].logit();
  cover("end");
}

/// A shared hot source joined mid-stream.
//@ shards=12 tshards=12 cover=end key=1 cost=6
#[no_mangle]
pub extern "C" fn h_c14_multi_join() {
  let k = pick(0, NMULTI - 1);
  assume(k != SWITCH);
  map_order(pick(0, 1) == 1);
  let (a, b) = (Sbj::new(), Sbj::new());
  let o = build(k, &[a.observable(), b.observable()]);
  let rs = [Rec::new(), Rec::new()];
  let mut ts = vec![Trace::new()];
  let _a = rs[0].sub(&o);
  let mut _b = None;
  let l = if cfg!(thorough) { 5 } else { 4 };
  let at = choose(1, l - 1);
  for i in 0..l {
    if i == at {
      ts.push(Trace::new());
      _b = Some(rs[1].sub(&o));
    }
    let e = choose(0, 5);
    let (src, kind) = ((e / 3) as usize, e % 3);
    assume(!ts[0].ended(src));
    assume(!(matches!(k, TAKE_UNTIL | SKIP_UNTIL | SAMPLE) && src == 1 && kind == 2));
    let v = if kind == 0 { item() } else { 3 };
    for t in ts.iter() {
      t.push(src, kind, v);
    }
    ssend(if src == 0 { &a } else { &b }, kind, v);
    for (t, r) in ts.iter().zip(rs.iter()) {
      // a source that ended before the second one joined never tells it
      check(any_of(r, &wants(k, 2, t.evs())), "a subscriber that joined mid-stream, or the first one, received something else");
    }
  }
  rs[0].logit();
  rs[1].logit();
  cover("end");
}

/// Combinators over cold sources, an operator behind, subscribed twice.
//@ shards=12 tshards=12 cover=end key=2 cost=7
#[no_mangle]
pub extern "C" fn h_c14_multi() {
  let k = pick(0, NMULTI - 1);
  assume(k != SWITCH);
  let op = pick(-1, cat::NOPS - 1);
  let p = if op >= 0 { par(op) } else { 0 };
  let n = if op < 0 && !two_only(k) { pick(2, 3) } else { 2 };
  let t = Trace::new();
  let mut srcs = Vec::with_capacity(4);
  for i in 0..n {
    let q = script(if op < 0 { 2 - (n == 3) as i64 } else { 1 }, 1);
    assume(!(matches!(k, TAKE_UNTIL | SKIP_UNTIL | SAMPLE) && i == 1 && q.end >= ERR));
    srcs.push(traced(&t, i as usize, &q, true));
  }
  let m = build(k, &srcs);
  let o = if op < 0 { m } else { cat::apply(op, p, &m) };
  for _ in 0..2 {
    t.0.m().clear();
    let r = Rec::new();
    let _s = r.sub(&o);
    let ws = wants(k, n as usize, t.evs());
    let mut ok = false;
    for w in ws.iter() {
      // (an operator that has enough stops the trace early: its result is the same)
      ok |= r.is(&if op < 0 { w.clone() } else { cat::refop(op, p, w) });
    }
    check(ok, "a later subscription of a combinator received something else");
    r.logit();
  }
  cover("end");
}

/// The second subscription starts inside a callback of the first.
//@ shards=8 cover=end key=2 cost=5
#[no_mangle]
pub extern "C" fn h_c14_nested() {
  let op = pick(0, cat::NOPS - 1);
  let p = pick(0, if cat::pmax(op) > 2 { 2 } else { cat::pmax(op) });
  let at = choose(1, 3); // callback number
  let q = script(3, 2);
  let o = cat::apply(op, p, &cold(&q));
  let (a, b) = (Rec::new(), Rec::new());
  let go = {
    let (a, b, o) = (a.clone(), b.clone(), o.clone());
    move || {
      if a.d().calls == at {
        b.sub(&o);
      }
    }
  };
  let (g1, g2, g3) = (go.clone(), go.clone(), go.clone());
  let (a1, a2, a3) = (a.clone(), a.clone(), a.clone());
  let _s = o.subscribe(
    move |x| {
      a1.next(x);
      g1();
    },
    move |e| {
      a2.error(e);
      g2();
    },
    move || {
      a3.complete();
      g3();
    },
  );
  let w = cat::refop(op, p, &q);
  a.expect(&w, "a nested subscription disturbs the outer one");
  if a.d().calls >= at {
    b.expect(&w, "a nested subscription received something else");
  }
  a.logit();
  cover("end");
}

/// Under retry every attempt starts afresh.
//@ shards=8 tshards=16 cover=end key=2 cost=7
#[no_mangle]
pub extern "C" fn h_c14_retry() {
  let op = pick(0, cat::NOPS - 1);
  assume(op != cat::CONTAINS);
  let op2 = pick(-1, cat::NOPS - 1);
  assume(op2 != cat::CONTAINS);
  let p = par(op);
  let p2 = if op2 >= 0 { par(op2) } else { 0 };
  let n = if op2 < 0 { 3 } else { 2 };
  let mut v: Vec<Sq> = Vec::with_capacity(4);
  for _ in 0..n {
    let q = script(if op2 < 0 { 2 } else { 1 }, 2);
    let more = q.end >= ERR;
    v.push(q);
    if !more {
      break;
    }
  }
  let subs = Sh::new(0usize);
  let mut o = cat::apply(op, p, &nth(&v, &subs));
  if op2 >= 0 {
    o = cat::apply(op2, p2, &o);
  }
  let r = Rec::new();
  let _s = r.sub(&o.retry(n));
  let mut want = Sq::empty();
  for q in v.iter() {
    let mut w = cat::refop(op, p, q);
    if op2 >= 0 {
      w = cat::refop(op2, p2, &w);
    }
    for x in w.items.iter() {
      want.items.push(*x);
    }
    want.end = w.end;
    if w.end < ERR {
      break;
    }
  }
  r.expect(&want, "an operator carried state from one attempt to the next");
  r.logit();
  cover("end");
}

/// retry inside: resubscribing operators subscribed twice.
//@ shards=4 cover=end key=2 cost=4
#[no_mangle]
pub extern "C" fn h_c14_recover() {
  let k = pick(0, 4);
  let n = pick(1, 3) as usize;
  let q = script(1, 2);
  let subs = Sh::new(0usize);
  let src = nth(&vec![q.clone()], &subs);
  let o = match k {
    0 => src.retry(n),
    1 => src.retry(n).map(|x| x),
    2 => src.on_error_resume_next(|e| observables::just(errcode(&e))),
    3 => src.retry(n).on_error_resume_next(|e| observables::just(errcode(&e))),
    _ => src.on_error_resume_next(|e| observables::error(e)).retry(n),
  };
  let mut want = Sq::empty();
  let m = if k == 2 || q.end < ERR { 1 } else { n };
  for _ in 0..m {
    for x in q.items.iter() {
      want.items.push(*x)
    }
  }
  want.end = q.end;
  if (k == 2 || k == 3) && q.end >= ERR {
    want.items.push(q.end - ERR);
    want.end = COMPLETE;
  }
  for i in 0..3 {
    let r = Rec::new();
    let s = r.sub(&o);
    r.expect(&want, "a later subscription of a recovering pipeline received something else");
    check(*subs.m() == m * (i + 1), "a later subscription had another number of attempts");
    s.unsubscribe();
    r.logit();
  }
  cover("end");
}

/// tap, scan, ... user closures run for every subscription.
//@ cover=end key=1
#[no_mangle]
pub extern "C" fn h_c14_tap() {
  let n = pick(1, 3);
  let way = pick(0, 2);
  let q = script(2, 2);
  let c = Sh::new([0i64; 5]);
  let (c1, c2, c3, c4, c5) = (c.clone(), c.clone(), c.clone(), c.clone(), c.clone());
  let src = cold(&q);
  let o = observables::defer(move || {
    c5.m()[4] += 1;
    src.clone()
  });
  let o = utils::ready_set_go(move || c4.m()[3] += 1, o);
  let o = o.tap(
    move |x| {
      c1.m()[0] += 1;
    },
    move |_| c2.m()[1] += 1,
    move || c3.m()[2] += 1,
  );
  match way {
    0 => {
      for _ in 0..n {
        let r = Rec::new();
        r.sub(&o);
        r.expect(&q, "tap changed the events of a later subscription");
      }
    }
    1 => {
      let mut v = Vec::with_capacity(4);
      for _ in 1..n {
        v.push(o.clone());
      }
      let r = Rec::new();
      let _s = r.sub(&o.on_error_resume_next(|_| observables::empty()).concat(
        &v.iter().map(|x| x.on_error_resume_next(|_| observables::empty())).collect::<Vec<_>>(),
      ));
      assume(q.end != SILENT);
    }
    _ => {
      assume(q.end >= ERR);
      let r = Rec::new();
      r.sub(&o.retry(n as usize));
    }
  }
  let c = c.m();
  check(c[0] == n * q.items.len() as i64, "tap did not see every item of every subscription");
  check(c[1] == n * (q.end >= ERR) as i64, "tap did not see every error");
  check(c[2] == n * (q.end == COMPLETE) as i64, "tap did not see every completion");
  check(c[3] == n && c[4] == n, "defer or ready_set_go did not act for every subscription");
  cover("end");
}

/// Inner observables of windows and groups, subscribed twice while they are open.
//@ cover=end key=2
#[no_mangle]
pub extern "C" fn h_c14_inner() {
  let k = pick(0, 1);
  let raw = Raw::new();
  let got: Sh<Vec<(Rec, Rec)>> = Sh::new(vec![]);
  let g = got.clone();
  let f = move |w: Observable<'static, i64>| {
    let (a, b) = (Rec::new(), Rec::new());
    a.sub(&w);
    b.sub(&w);
    g.m().push((a, b));
  };
  let s1 = if k == 0 {
    raw.observable().window_with_count(2).subscribe(f, |_| {}, || {})
  } else {
    raw.observable().group_by(|x| x & 1).subscribe(f, |_| {}, || {})
  };
  for _ in 0..3 {
    raw.polite(choose(0, 2), item());
    for (a, b) in got.m().iter() {
      check(a.is(&Sq::new(b.d().items.clone(), b.end())), "two subscribers of one window or group differ");
    }
  }
  got.m().clear();
  drop(s1);
  cover("end");
}

// what a subscriber got, and when
struct Film(Sh<Vec<(i64, i64, i64)>>);
impl Film {
  fn sub(o: &Observable<'static, i64>) -> (Film, Subscription<'static>) {
    let v = Sh::new(Vec::with_capacity(16));
    let (a, b, c) = (v.clone(), v.clone(), v.clone());
    let t0 = now();
    let s = o.subscribe(
      move |x| a.m().push((now() - t0, 0, x)),
      move |e| b.m().push((now() - t0, 2, errcode(&e))),
      move || c.m().push((now() - t0, 1, 0)),
    );
    (Film(v), s)
  }
}

/// Operators that start threads or look at the clock: a subscriber gets the same, at the same times, alone and
/// beside another one that its source serves differently.
//@ shards=8 cover=end key=2 cost=5
#[no_mangle]
pub extern "C" fn h_c14_timed() {
  use vh::timed::*;
  let ks = [
    0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, DELAY, TINT, 100, 102, 103, 104, 105, 106, 107, 108, 109, 112,
  ];
  let k = ks[pick(0, ks.len() as i64 - 1) as usize];
  let src = Owned::new();
  let o = top(k, &src.observable(), 10);
  let l = if cfg!(thorough) { 3 } else { 2 };
  let mut script = Vec::with_capacity(3);
  for _ in 0..l {
    script.push((if choose(0, 1) == 0 { 3 } else { 13 }, choose(0, 2), choose(0, 3)));
  }
  let first = choose(0, 1) == 0;
  let alone = {
    let (f, s) = Film::sub(&o);
    idle();
    for (g, e, _) in script.iter() {
      sleep_ns(*g);
      src.ev(0, *e, *g);
      idle();
    }
    sleep_ns(25);
    s.unsubscribe();
    sleep_ns(60);
    f
  };
  let (mut f, mut s) = (None, None);
  for i in 0..2 {
    if (i == 0) == first {
      src.owner(1);
      let x = Film::sub(&o);
      idle();
      (f, s) = (Some(x.0), Some(x.1));
    } else {
      src.owner(2);
      std::mem::forget(Film::sub(&o));
      idle();
    }
  }
  for (g, e, other) in script.iter() {
    sleep_ns(*g);
    if *other < 3 && k != DELAY && k != 105 {
      src.ev(2, *other, 90);
      idle();
    }
    src.ev(1, *e, *g);
    idle();
  }
  sleep_ns(25);
  s.unwrap().unsubscribe();
  sleep_ns(60);
  let (a, b) = (alone.0.m(), f.unwrap());
  check(a.len() == b.0.m().len(), "beside another subscriber it got more or less");
  for (x, y) in a.iter().zip(b.0.m().iter()) {
    check(x.1 == y.1 && x.2 == y.2, "beside another subscriber it got something else");
    check(x.0 == y.0, "beside another subscriber it got it at another time");
  }
  log("events", a.len() as i64);
  cover("end");
}
