//! C02 bounds: every operator of the catalogue with every parameter of its range
//! (counts 0..5, six predicates); scripts of 0..4 items (thorough 0..6) over a symbolic
//! alphabet 0..2, endings complete/error/silence; hot sources compared after every
//! event, cold sources at the end; chains of two operators (thorough: three) on scripts
//! of 0..3 items (parameters 0..2); creation functions with symbolic arguments.
//! Outside: longer scripts and chains, other item types, element_at(0).
use vh::*;

const N1: i64 = if cfg!(thorough) { 6 } else { 4 };
const N2: i64 = if cfg!(thorough) { 3 } else { 2 };

/// One operator, hot source: output compared after every step.
//@ shards=4 tshards=16 cover=end key=2 cost=3
#[no_mangle]
pub extern "C" fn h_c02_one_hot() {
  let op = pick(0, cat::NOPS - 1);
  let p = pick(0, cat::pmax(op));
  let q = script(N1, 2);
  let s = Sbj::new();
  let r = Rec::new();
  let o = cat::apply(op, p, &s.observable());
  let _sub = r.sub(&o);
  let mut seen = Sq::empty();
  r.expect(&cat::refop(op, p, &seen), "output after subscribing differs from the definition");
  for x in q.items.iter() {
    s.next(*x);
    seen.items.push(*x);
    r.expect(&cat::refop(op, p, &seen), "output after an item differs from the definition");
  }
  seen.end = q.end;
  sfinish(&s, q.end);
  r.expect(&cat::refop(op, p, &seen), "output after the terminal differs from the definition");
  r.logit();
  cover("end");
}

/// One operator, cold sources of three kinds.
//@ shards=4 tshards=16 cover=end key=2 cost=3
#[no_mangle]
pub extern "C" fn h_c02_one_cold() {
  let op = pick(0, cat::NOPS - 1);
  let p = pick(0, cat::pmax(op));
  let kind = pick(0, 2);
  let q = script(N1, 2);
  let src = match kind {
    0 => cold(&q),
    1 => cold_polite(&q),
    _ => {
      assume(q.end == COMPLETE);
      observables::from_iter(q.items.clone().into_iter())
    }
  };
  let o = cat::apply(op, p, &src);
  let r = Rec::new();
  r.sub(&o);
  r.expect(&cat::refop(op, p, &q), "output on a cold source differs from the definition");
  r.logit();
  cover("end");
}

fn pm(op: i64) -> i64 {
  let p = cat::pmax(op);
  if p > 2 {
    2
  } else {
    p
  }
}

/// Chains of two operators.
//@ shards=16 tshards=16 cover=end key=1 cost=8
#[no_mangle]
pub extern "C" fn h_c02_chain2() {
  let c = pick(0, cat::NOPS * cat::NOPS - 1);
  let (o1, o2) = (c / cat::NOPS, c % cat::NOPS);
  let p1 = pick(0, pm(o1));
  let p2 = pick(0, pm(o2));
  let hot = pick(0, 1) == 1;
  let q = script(N2, 2);
  let r = Rec::new();
  if hot {
    let s = Sbj::new();
    let o = cat::apply(o2, p2, &cat::apply(o1, p1, &s.observable()));
    let _sub = r.sub(&o);
    let mut seen = Sq::empty();
    for x in q.items.iter() {
      s.next(*x);
      seen.items.push(*x);
      r.expect(
        &cat::refop(o2, p2, &cat::refop(o1, p1, &seen)),
        "output of a chain after an item differs from the composed definition",
      );
    }
    sfinish(&s, q.end);
  } else {
    let o = cat::apply(o2, p2, &cat::apply(o1, p1, &cold(&q)));
    r.sub(&o);
  }
  r.expect(
    &cat::refop(o2, p2, &cat::refop(o1, p1, &q)),
    "output of a chain differs from the composed definition",
  );
  r.logit();
  cover("end");
}

/// Chains of three operators (one parameter each).
//@ tier=thorough shards=64 cover=end key=1 cost=9
#[no_mangle]
pub extern "C" fn h_c02_chain3() {
  let n = cat::NOPS;
  let c = pick(0, n * n * n - 1);
  let (o1, o2, o3) = (c / (n * n), c / n % n, c % n);
  let (p1, p2, p3) = (pm(o1), pm(o2), pm(o3));
  let q = script(2, 2);
  let r = Rec::new();
  let s = Sbj::new();
  let o = cat::apply(o3, p3, &cat::apply(o2, p2, &cat::apply(o1, p1, &s.observable())));
  let _sub = r.sub(&o);
  let mut seen = Sq::empty();
  let rf = |q: &Sq| cat::refop(o3, p3, &cat::refop(o2, p2, &cat::refop(o1, p1, q)));
  for x in q.items.iter() {
    s.next(*x);
    seen.items.push(*x);
    r.expect(&rf(&seen), "output of a chain of three after an item differs");
  }
  sfinish(&s, q.end);
  r.expect(&rf(&q), "output of a chain of three differs from the composed definition");
  r.logit();
  cover("end");
}

/// Creation functions.
//@ cover=just,iter,range,empty,never,error,defer,start,ok,err,repeat key=1
#[no_mangle]
pub extern "C" fn h_c02_create() {
  let k = pick(0, 10);
  let r = Rec::new();
  let a = sym(0, 9);
  let o: Observable<'static, i64>;
  let want: Sq;
  match k {
    0 => {
      o = observables::just(a);
      want = Sq::new(vec![a], COMPLETE);
      cover("just");
    }
    1 => {
      let n = pick(0, 4);
      let mut v = vec![];
      for _ in 0..n {
        v.push(sym(0, 9));
      }
      o = observables::from_iter(v.clone().into_iter());
      want = Sq::new(v, COMPLETE);
      cover("iter");
    }
    2 => {
      let n = pick(0, 4);
      o = observables::range(a, n);
      let mut v = vec![];
      for i in 0..n {
        v.push(a + i);
      }
      want = Sq::new(v, COMPLETE);
      cover("range");
    }
    3 => {
      o = observables::empty();
      want = Sq::new(vec![], COMPLETE);
      cover("empty");
    }
    4 => {
      o = observables::never();
      want = Sq::empty();
      cover("never");
    }
    5 => {
      o = observables::error(rxerr(a));
      want = Sq::new(vec![], ERR + a);
      cover("error");
    }
    6 => {
      let n = Sh::new(0i64);
      let m = n.clone();
      o = observables::defer(move || {
        *m.m() += 1;
        observables::from_iter(vec![a, *m.m()].into_iter())
      });
      check(*n.m() == 0, "defer ran its factory before subscribe");
      want = Sq::new(vec![a, 1], COMPLETE);
      cover("defer");
    }
    7 => {
      let n = Sh::new(0i64);
      let m = n.clone();
      o = observables::start(move || {
        *m.m() += 1;
        a
      });
      check(*n.m() == 0, "start ran its function before subscribe");
      want = Sq::new(vec![a], COMPLETE);
      cover("start");
    }
    8 => {
      o = observables::from_result::<i64, Payload>(Ok(a));
      want = Sq::new(vec![a], COMPLETE);
      cover("ok");
    }
    9 => {
      o = observables::from_result::<i64, Payload>(Err(Payload(a)));
      want = Sq::new(vec![], ERR + a);
      cover("err");
    }
    _ => {
      let n = pick(0, 4);
      o = observables::repeat(a).take(n as usize);
      let mut v = vec![];
      for _ in 0..n {
        v.push(a);
      }
      want = Sq::new(v, COMPLETE);
      cover("repeat");
    }
  }
  r.sub(&o);
  r.expect(&want, "creation function does not deliver what it is defined to");
  r.logit();
}

/// window_with_count and group_by: every inner observable on its own.
//@ cover=window,group shards=4 key=2
#[no_mangle]
pub extern "C" fn h_c02_inner() {
  let k = pick(0, 7);
  let which = k & 1;
  let p = k / 2;
  let q = script(if cfg!(thorough) { 6 } else { 5 }, 2);
  let s = Sbj::new();
  let inner: Sh<Vec<Rec>> = Sh::new(vec![]);
  let outer = Rec::new();
  let o = if which == 0 {
    s.observable().window_with_count(p as usize + 1)
  } else {
    s.observable().group_by(move |x| cat::key(p & 1, x))
  };
  let (i2, o1, o2, o3) = (inner.clone(), outer.clone(), outer.clone(), outer.clone());
  let _sub = o.subscribe(
    move |w| {
      let r = Rec::new();
      r.sub(&w);
      i2.m().push(r);
      o1.next(0);
    },
    move |e| o2.error(e),
    move || o3.complete(),
  );
  let mut want: Vec<(i64, Sq)> = vec![];
  for i in 0..=q.items.len() {
    if i < q.items.len() {
      let x = q.items[i];
      s.next(x);
      if which == 0 {
        let c = p as usize + 1;
        if i % c == 0 {
          want.push((0, Sq::empty()));
        }
        let l = want.len() - 1;
        want[l].1.items.push(x);
        if (i + 1) % c == 0 {
          want[l].1.end = COMPLETE;
        }
      } else {
        let k = cat::key(p & 1, x);
        let mut at = want.len();
        for j in 0..want.len() {
          if want[j].0 == k {
            at = j;
            break;
          }
        }
        if at == want.len() {
          want.push((k, Sq::empty()));
        }
        want[at].1.items.push(x);
      }
    } else {
      sfinish(&s, q.end);
      for w in want.iter_mut() {
        if w.1.end == SILENT {
          w.1.end = q.end;
        }
      }
      check(outer.end() == q.end && outer.d().late == 0, "outer terminal of window/group differs");
    }
    check(inner.m().len() == want.len(), "number of windows/groups differs from the definition");
    for j in 0..want.len() {
      inner.m()[j].expect(&want[j].1, "content of a window/group differs from the definition");
    }
  }
  if which == 0 {
    cover("window")
  } else {
    cover("group")
  }
}

/// tap sees exactly the events that pass.
//@ cover=end
#[no_mangle]
pub extern "C" fn h_c02_tap() {
  let q = script(N1, 2);
  let t = Rec::new();
  let (t1, t2, t3) = (t.clone(), t.clone(), t.clone());
  let s = Sbj::new();
  let o = s.observable().tap(move |x| t1.next(x), move |e| t2.error(e), move || t3.complete());
  let r = Rec::new();
  let _sub = r.sub(&o);
  for x in q.items.iter() {
    s.next(*x);
    check(t.len() == r.len(), "tap missed an item");
  }
  sfinish(&s, q.end);
  r.expect(&q, "tap changed the stream");
  t.expect(&q, "tap's side effects differ from the stream");
  cover("end");
}
