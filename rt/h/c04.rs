//! C04 bounds: an error with a symbolic payload (0..=999) at every position of scripts
//! of 0..3 items (thorough 0..4) through every catalogue operator and wrapper and
//! through every pair of them (scripts 0..1), through every combinator over 2..3 sources
//! (3 events, thorough 4) with every operator behind; a payload whose identity (shared
//! token) is checked; retry budgets 0..4 and four retry_when predicates over sources
//! whose attempts are up to 5 different scripts of 0..1 items with symbolic endings,
//! cold and hot, alone and with an operator on either side; four resume functions;
//! materialize/dematerialize inverse on all scripts and on ill-formed material.
//! Operators that start threads: the error before any timer, after 0..2 items
//! (h_c04_timed). `contains` turns an error into false (pinned by the crate's tests) and
//! is outside.
use vh::*;

const N: i64 = if cfg!(thorough) { 4 } else { 3 };

fn ap(op: i64, p: i64, o: &Observable<'static, i64>) -> Observable<'static, i64> {
  cat::apply(op, p, o)
}

/// A script of up to n items ending in an error with a symbolic payload.
fn failing(n: i64) -> Sq {
  let n = choose(0, n);
  let mut items = Vec::with_capacity(4);
  for _ in 0..n {
    items.push(item());
  }
  Sq::new(items, ERR + sym(0, 999))
}

/// Through every operator; hot and cold sources.
//@ shards=8 cover=end key=2 cost=5
#[no_mangle]
pub extern "C" fn h_c04_op() {
  let op = pick(0, cat::NOPS - 1);
  let p = pick(0, cat::pmax(op));
  assume(op != cat::CONTAINS);
  let hot = pick(0, 1) == 1;
  let q = failing(N);
  let r = Rec::new();
  if hot {
    let s = Sbj::new();
    let _u = r.sub(&ap(op, p, &s.observable()));
    for x in q.items.iter() {
      s.next(*x);
    }
    sfinish(&s, q.end);
    sfinish(&s, q.end);
  } else {
    r.sub(&ap(op, p, &cold(&q)));
  }
  r.expect(&cat::refop(op, p, &q), "the error or the items before it did not arrive unchanged");
  r.logit();
  cover("end");
}

/// Through wrappers that pass everything on.
//@ shards=2 cover=end key=2 cost=2
#[no_mangle]
pub extern "C" fn h_c04_extra() {
  let k = pick(3, 12);
  assume(k != 9);
  let op = pick(0, cat::NOPS - 1);
  assume(op != cat::CONTAINS);
  let p = if cat::pmax(op) > 0 { 1 } else { 0 };
  let q = failing(2);
  let r = Rec::new();
  let _s = r.sub(&ap(op, p, &extra(k, &cold(&q))));
  if k == 4 {
    // time_interval: items are intervals
    check(r.d().nterm <= 1 && r.d().late == 0, "an error was delivered twice");
  } else {
    r.expect(&cat::refop(op, p, &q), "the error or the items before it did not pass a wrapper unchanged");
  }
  r.logit();
  cover("end");
}

/// Through two operators.
//@ shards=8 tshards=16 cover=end key=1 cost=6
#[no_mangle]
pub extern "C" fn h_c04_chain() {
  let c = pick(0, cat::NOPS * cat::NOPS - 1);
  let (o1, o2) = (c / cat::NOPS, c % cat::NOPS);
  assume(o1 != cat::CONTAINS && o2 != cat::CONTAINS);
  let f = |op: i64| if cat::pmax(op) > 0 { 1 } else { 0 };
  let q = failing(if cfg!(thorough) { 3 } else { 2 });
  let r = Rec::new();
  r.sub(&ap(o2, f(o2), &ap(o1, f(o1), &cold(&q))));
  r.expect(
    &cat::refop(o2, f(o2), &cat::refop(o1, f(o1), &q)),
    "the error or the items before it did not pass two operators unchanged",
  );
  r.logit();
  cover("end");
}

/// Through combinators, an operator behind.
//@ shards=10 cover=end key=2 cost=7
#[no_mangle]
pub extern "C" fn h_c04_multi() {
  let k = pick(0, RESUME);
  assume(k != SWITCH && k != RESUME);
  let op = pick(-1, cat::NOPS - 1);
  assume(op != cat::CONTAINS);
  let p = if op >= 0 && cat::pmax(op) > 0 { 1 } else { 0 };
  let n = if op < 0 && !two_only(k) { pick(2, 3) } else { 2 };
  let t = Trace::new();
  let (mut sbs, mut srcs) = (Vec::with_capacity(4), Vec::with_capacity(4));
  for _ in 0..n {
    let s = Sbj::new();
    srcs.push(s.observable());
    sbs.push(s);
  }
  let m = build(k, &srcs);
  let r = Rec::new();
  let _s = r.sub(&if op < 0 { m } else { ap(op, p, &m) });
  let tri = matches!(k, TAKE_UNTIL | SKIP_UNTIL | SAMPLE);
  for i in 0..(if cfg!(thorough) { 4 } else { 3 }) {
    let e = choose(0, n * 2 - 1);
    let (src, kind) = ((e / 2) as usize, (e % 2) * 2);
    assume(!t.ended(src) && !(tri && src == 1 && kind == 2));
    let v = if kind == 0 { item() } else { sym(0, 999) };
    t.push(src, kind, v);
    ssend(&sbs[src], kind, v);
    let ws = wants(k, n as usize, t.evs());
    let mut ok = false;
    for w in ws.iter() {
      ok |= r.is(&if op < 0 { w.clone() } else { cat::refop(op, p, w) });
    }
    check(ok, "the error of an input or the items before it did not arrive unchanged");
  }
  r.logit();
  cover("end");
}

#[derive(Debug)]
struct Token(Arc<i64>);

/// The payload arrives as the same object, under its own type only.
//@ shards=2 cover=end key=2
#[no_mangle]
pub extern "C" fn h_c04_payload() {
  let op = pick(0, cat::NOPS + 13 - 1);
  assume(op != cat::CONTAINS && op != cat::MATERIALIZE && op != cat::NOPS + 2);
  let p = if op < cat::NOPS && cat::pmax(op) > 0 { 2 } else { 0 };
  assume(op != cat::TAKE || p > 0);
  let t = Arc::new(sym(0, 9));
  let t2 = t.clone();
  let src = Observable::create(move |s| s.error(RxError::from_error(Token(t2.clone()))));
  let o = if op < cat::NOPS { ap(op, p, &src) } else { extra(op - cat::NOPS, &src) };
  let seen = Sh::new(0i64);
  let s2 = seen.clone();
  let s = o.subscribe(
    |_| {},
    move |e| {
      let same = match e.downcast_ref::<Token>() {
        Some(x) => Arc::ptr_eq(&x.0, &t),
        None => false,
      };
      check(same, "the payload is not the one the source raised");
      check(e.downcast_ref::<Payload>().is_none(), "the payload downcasts to another type");
      *s2.m() += 1;
    },
    || check(false, "an error arrived as a completion"),
  );
  check(*seen.m() == 1, "the error did not arrive exactly once");
  check(!s.is_subscribed(), "still subscribed after the error");
  cover("end");
}

/// A cold source whose k-th subscription plays the k-th script (the last repeats).
fn attempts(a: &Vec<Sq>, subs: &Sh<i64>, live: &Sh<i64>) -> Observable<'static, i64> {
  let (a, subs) = (a.clone(), subs.clone());
  Observable::create(move |s| {
    let k = *subs.m() as usize;
    *subs.m() += 1;
    let i = if k < a.len() { k } else { a.len() - 1 };
    feed(&s, &a[i]);
  })
}
fn scripts(n: usize, unbounded: bool) -> Vec<Sq> {
  let mut a: Vec<Sq> = Vec::with_capacity(n);
  for i in 0..n {
    let l = choose(0, 1);
    let end = if unbounded && i + 1 == n { choose(0, 1) } else { choose(0, 2) };
    let mut items = Vec::with_capacity(2);
    for _ in 0..l {
      items.push(sym(0, 9));
    }
    a.push(Sq::new(items, if end == 2 { ERR + sym(0, 99) } else { end }));
    if end != 2 {
      break; // later attempts are never made
    }
  }
  a
}

/// retry on cold sources.
//@ shards=5 cover=end key=2 cost=4
#[no_mangle]
pub extern "C" fn h_c04_retry() {
  let n = pick(0, 4);
  let side = pick(0, 2);
  let op = if side > 0 { pick(0, cat::NOPS - 1) } else { 0 };
  assume(op != cat::CONTAINS && !(side == 2 && (op == cat::MATERIALIZE || op == cat::TAKE)));
  let p = if cat::pmax(op) > 0 { 1 } else { 0 };
  let a = scripts(if side == 0 { 5 } else { 3 }, n == 0);
  let (subs, live) = (Sh::new(0i64), Sh::new(0i64));
  let src = attempts(&a, &subs, &live);
  let o = match side {
    0 => src.retry(n as usize),
    1 => ap(op, p, &src.retry(n as usize)),
    _ => ap(op, p, &src).retry(n as usize),
  };
  let r = Rec::new();
  let _s = r.sub(&o);
  // the definition
  let mut want = Sq::empty();
  let mut made = 0;
  let one = |q: &Sq| if side == 2 { cat::refop(op, p, q) } else { q.clone() };
  loop {
    let q = one(&a[if made < a.len() { made } else { a.len() - 1 }]);
    made += 1;
    for x in q.items.iter() {
      want.items.push(*x);
    }
    if q.end >= ERR && (n == 0 || (made as i64) < n) {
      continue;
    }
    want.end = q.end;
    break;
  }
  if side == 1 {
    want = cat::refop(op, p, &want);
    // an operator that has all it needs stops the attempts
    check(*subs.m() <= made as i64, "retry subscribed more often than its budget allows");
  } else {
    check(*subs.m() == made as i64, "retry subscribed to the source a wrong number of times");
  }
  r.expect(&want, "retry did not forward the items of every attempt and the last terminal");
  r.logit();
  cover("end");
}

/// retry and retry_when on a hot source: one live subscription at a time.
//@ shards=5 cover=end key=2 cost=4
#[no_mangle]
pub extern "C" fn h_c04_retry_hot() {
  let n = pick(0, 5);
  let raw = Raw::new();
  let o = if n < 5 { raw.observable().retry(n as usize) } else { raw.observable().retry_when(|e| errcode(&e) < 5) };
  let r = Rec::new();
  let s = r.sub(&o);
  let mut want = Sq::empty();
  let mut made = 1;
  for _ in 0..5 {
    let kind = choose(0, 2);
    let v = sym(0, 9);
    assume(want.end == SILENT);
    match kind {
      0 => want.items.push(v),
      1 => want.end = COMPLETE,
      _ => {
        if if n == 5 { v < 5 } else { n == 0 || made < n } {
          made += 1
        } else {
          want.end = ERR + v
        }
      }
    }
    raw.polite(kind, v);
    check(*raw.subs.m() == made, "wrong number of subscriptions");
    check(raw.live() == (want.end == SILENT) as i64, "a failed attempt is still subscribed");
    r.expect(&want, "retry over a hot source delivered something else");
  }
  r.logit();
  cover("end");
}

/// retry_when: the predicate sees every error and decides.
//@ shards=4 cover=end key=2 cost=4
#[no_mangle]
pub extern "C" fn h_c04_retry_when() {
  let k = pick(0, 3);
  let a = scripts(4, true);
  let (subs, live) = (Sh::new(0i64), Sh::new(0i64));
  let seen: Sh<Vec<i64>> = Sh::new(vec![]);
  let s2 = seen.clone();
  let limit = sym(0, 99);
  let f = move |e: i64, nth: i64| match k {
    0 => true,
    1 => false,
    2 => e < limit,
    _ => nth < 2,
  };
  let o = attempts(&a, &subs, &live).retry_when(move |e| {
    let c = errcode(&e);
    s2.m().push(c);
    f(c, s2.m().len() as i64)
  });
  let r = Rec::new();
  let _s = r.sub(&o);
  let mut want = Sq::empty();
  let mut errs = 0usize;
  let mut made = 0usize;
  loop {
    let q = &a[made];
    made += 1;
    for x in q.items.iter() {
      want.items.push(*x);
    }
    if q.end >= ERR {
      errs += 1;
      check(seen.m().len() >= errs && seen.m()[errs - 1] == q.end - ERR, "the predicate was not given the error");
      if f(q.end - ERR, errs as i64) {
        continue;
      }
    }
    want.end = q.end;
    break;
  }
  check(seen.m().len() == errs, "the predicate was called too often");
  check(*subs.m() == made as i64, "retry_when subscribed a wrong number of times");
  r.expect(&want, "retry_when did not forward the items of every attempt and the last terminal");
  r.logit();
  cover("end");
}

/// on_error_resume_next.
//@ shards=4 cover=end key=2 cost=3
#[no_mangle]
pub extern "C" fn h_c04_resume() {
  let k = pick(0, 4);
  let hot = pick(0, 1) == 1;
  let twice = pick(0, 1) == 1;
  let q = script(N, 2);
  let q = if q.end >= ERR { Sq::new(q.items, ERR + sym(0, 99)) } else { q };
  let calls = Sh::new(0i64);
  let c2 = calls.clone();
  let f = move |e: RxError| -> Observable<'static, i64> {
    let c = errcode(&e);
    *c2.m() += 1;
    match k {
      0 => observables::just(c + 100),
      1 => observables::error(rxerr(c + 1)),
      2 => observables::empty(),
      3 => observables::never(),
      _ => observables::from_iter(vec![c, c + 1].into_iter()).concat(&[observables::error(rxerr(c + 2))]),
    }
  };
  let s = Sbj::new();
  let src = if hot { s.observable() } else { cold(&q) };
  let mut o = src.on_error_resume_next(f);
  if twice {
    o = o.on_error_resume_next(|e| observables::just(errcode(&e) + 200));
  }
  let r = Rec::new();
  let _u = r.sub(&o);
  if hot {
    for x in q.items.iter() {
      s.next(*x);
    }
    sfinish(&s, q.end);
  }
  let mut want = q.clone();
  if q.end >= ERR {
    let c = q.end - ERR;
    match k {
      0 => {
        want.items.push(c + 100);
        want.end = COMPLETE
      }
      1 => want.end = ERR + c + 1,
      2 => want.end = COMPLETE,
      3 => want.end = SILENT,
      _ => {
        want.items.push(c);
        want.items.push(c + 1);
        want.end = ERR + c + 2
      }
    }
    check(*calls.m() == 1, "the resume function was not called exactly once");
  } else {
    check(*calls.m() == 0, "the resume function was called without an error");
  }
  if twice && (k == 1 || k == 4) && q.end >= ERR {
    want.items.push(want.end - ERR + 200);
    want.end = COMPLETE;
  }
  r.expect(&want, "on_error_resume_next did not continue with the observable of its function");
  r.logit();
  cover("end");
}

/// materialize turns every event into a value, dematerialize inverts it.
//@ shards=4 cover=end key=2 cost=3
#[no_mangle]
pub extern "C" fn h_c04_material() {
  let mid = pick(0, 3);
  let hot = pick(0, 1) == 1;
  let q = script(N, 2);
  let q = if q.end >= ERR { Sq::new(q.items, ERR + sym(0, 99)) } else { q };
  let s = Sbj::new();
  let src = if hot { s.observable() } else { cold(&q) };
  let r = Rec::new();
  let m = src.materialize();
  let m = match mid {
    0 => m,
    1 => m.materialize().dematerialize(),
    2 => m.filter(|_| true),
    _ => m.merge(&[observables::empty()]),
  };
  let _u = r.sub(&m.dematerialize());
  let seen = Rec::new();
  let _w = seen.sub(&m.map(|x| cat::matcode(&x)));
  if hot {
    for x in q.items.iter() {
      s.next(*x);
    }
    sfinish(&s, q.end);
  }
  r.expect(&q, "dematerialize does not invert materialize");
  seen.expect(&cat::refop(cat::MATERIALIZE, 0, &q), "materialize did not turn the events into values");
  r.logit();
  cover("end");
}

/// Arbitrary material through dematerialize.
//@ shards=2 cover=end key=1
#[no_mangle]
pub extern "C" fn h_c04_demat() {
  let s = subjects::Subject::<'static, Material<i64>>::new();
  let r = Rec::new();
  let _u = r.sub(&s.observable().dematerialize());
  let mut want = Sq::empty();
  for _ in 0..4 {
    let k = choose(0, 4);
    let v = sym(0, 9);
    match k {
      0 => s.next(Material::Next(v)),
      1 => s.next(Material::Complete),
      2 => s.next(Material::Error(rxerr(v))),
      3 => s.complete(),
      _ => s.error(rxerr(v)),
    }
    if want.end == SILENT {
      match k {
        0 => want.items.push(v),
        1 | 3 => want.end = COMPLETE,
        _ => want.end = ERR + v,
      }
    }
    r.expect(&want, "dematerialize delivered something else");
  }
  r.logit();
  cover("end");
}

/// Operators that start threads: the error goes through them, before any of their timers.
//@ shards=4 cover=end key=2 cost=3
#[no_mangle]
pub extern "C" fn h_c04_timed() {
  use vh::timed::*;
  let k = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 18, 19, DELAY][pick(0, 17) as usize];
  let raw = Raw::new();
  let r = Rec::new();
  let c = sym(0, 999);
  let s = r.sub(&top(k, &raw.observable(), 1000));
  idle();
  let n = choose(0, if cfg!(thorough) { 3 } else { 2 });
  let mut want = Vec::with_capacity(4);
  for _ in 0..n {
    sleep_ns(sym(1, 9));
    let x = item();
    want.push(x);
    raw.ev(0, x);
    idle();
  }
  if choose(0, 1) == 0 {
    sleep_ns(sym(1, 9));
  }
  raw.ev(2, c);
  if k == DELAY {
    sleep_ns(2000);
  }
  idle();
  check(r.d().nterm == 1, "the error did not arrive exactly once");
  check(r.end() == ERR + c, "the error is not the one the source raised");
  if matches!(k, 0 | 1 | 3 | 5 | 7 | 8 | 9 | 12 | 18 | 19 | DELAY) {
    check(r.is(&Sq::new(want, ERR + c)), "an item emitted before the error was not delivered first");
  } else if k != 15 {
    check(r.len() == 0, "an item from nowhere");
  }
  s.unsubscribe();
  sleep_ns(2500);
  r.logit();
  cover("end");
}
