//! C17 bounds: reference-counted tokens in the three subscriber callbacks, in every
//! closure given to an operator and in every item; every operator of the crate (one
//! source) and every pair of them, every combinator alone, behind and before every
//! operator, over cold sources and over a subject that stays alive; scripts of 0..2 items
//! (thorough 3), ended by completion, error, early completion or unsubscribe at a symbolic
//! position; the scheduler-based operators in virtual time (workers given one period to
//! exit). After the handles are dropped every token count must be back to the harness's
//! own.
use vh::*;

#[derive(Clone, Debug)]
pub struct Tok(pub i64, pub Arc<i64>);
impl PartialEq for Tok {
  fn eq(&self, o: &Tok) -> bool {
    self.0 == o.0
  }
}
impl PartialOrd for Tok {
  fn partial_cmp(&self, o: &Tok) -> Option<std::cmp::Ordering> {
    self.0.partial_cmp(&o.0)
  }
}
impl std::ops::Add for Tok {
  type Output = Tok;
  fn add(self, o: Tok) -> Tok {
    Tok(self.0 + o.0, self.1)
  }
}
type Ob = Observable<'static, Tok>;

/// Tokens: closures and items.
#[derive(Clone)]
struct T {
  c: Arc<i64>,
  i: Arc<i64>,
}
impl T {
  fn tok(&self, v: i64) -> Tok {
    Tok(v, self.i.clone())
  }
  fn free(&self, m: &'static str) {
    check(Arc::strong_count(&self.c) == 1, m);
    check(Arc::strong_count(&self.i) == 1, "an emitted item is still owned after the end");
  }
}

const NT: i64 = 45;
fn apply(op: i64, p: i64, o: &Ob, t: &T) -> Ob {
  let n = p as usize;
  let c = t.c.clone();
  let ti = t.clone();
  match op {
    0 => o.map(move |x| {
      let _ = &c;
      x
    }),
    1 => o.filter(move |x| {
      let _ = &c;
      p == 0 || x.0 >= 1
    }),
    2 => o.take(n + 1),
    3 => o.take_last(n + 1),
    4 => o.take_while(move |x| {
      let _ = &c;
      x.0 < 1 + p
    }),
    5 => o.skip(n),
    6 => o.skip_last(n + 1),
    7 => o.skip_while(move |x| {
      let _ = &c;
      x.0 < 1
    }),
    8 => o.first(),
    9 => o.last(),
    10 => o.element_at(n + 1),
    11 => o.distinct_until_changed(),
    12 => o.scan(move |(a, b)| {
      let _ = &c;
      a + b
    }),
    13 => o.reduce(move |(a, b)| {
      let _ = &c;
      a + b
    }),
    14 => o.count().map(move |x| ti.tok(x as i64)),
    15 => o.sum(),
    16 => o.sum_and_count().map(|x| x.0),
    17 => o.min(),
    18 => o.max(),
    19 => o
      .all(move |x| {
        let _ = &c;
        x.0 >= p
      })
      .map(move |b| ti.tok(b as i64)),
    20 => {
      let k = ti.tok(p);
      o.contains(k).map(move |b| ti.tok(b as i64))
    }
    21 => o.default_if_empty(t.tok(7)),
    22 => o.ignore_elements(),
    23 => o.start_with(vec![t.tok(8)].into_iter()),
    24 => o.buffer_with_count(n + 1).map(|v| v[0].clone()),
    25 => o.materialize().dematerialize(),
    26 => {
      let (c2, c3) = (c.clone(), c.clone());
      o.tap(
        move |_| {
          let _ = &c;
        },
        move |_| {
          let _ = &c2;
        },
        move || {
          let _ = &c3;
        },
      )
    }
    27 => o.map_to_any().map(|a| a.downcast_ref::<Tok>().unwrap().clone()),
    28 => o.window_with_count(n + 1).flat_map(move |w| {
      let _ = &c;
      w.last()
    }),
    29 => o
      .group_by(move |x| {
        let _ = &c;
        x.0 & 1
      })
      .flat_map(|g| g.take(2)),
    30 => o.retry(n + 1),
    31 => {
      let k = Sh::new(0i64);
      o.retry_when(move |_| {
        let _ = &c;
        *k.m() += 1;
        *k.m() <= p
      })
    }
    32 => o.on_error_resume_next(move |_| {
      let _ = &c;
      observables::just(ti.tok(5))
    }),
    33 => o.timestamp().map(|x| x.1),
    34 => o.time_interval().map(move |_| ti.tok(1)),
    35 => o.observe_on(schedulers::default_scheduler()),
    36 => o.subscribe_on(schedulers::default_scheduler()),
    37 => utils::ready_set_go(
      move || {
        let _ = &c;
      },
      o.clone(),
    ),
    38 => o.flat_map(move |x| {
      let _ = &c;
      observables::from_iter(vec![x.clone(), x].into_iter())
    }),
    39 => o.ref_count().observable(),
    40 => o.replay().observable(),
    41 => {
      let o = o.clone();
      observables::defer(move || {
        let _ = &c;
        o.clone()
      })
    }
    42 => o.materialize().take(n + 1).dematerialize(),
    43 => o.group_by(|x| x.0 & 1).flat_map(move |g| {
      let _ = &c;
      g
    }),
    _ => o.window_with_count(2).flat_map(move |w| {
      let _ = &c;
      w
    }),
  }
}

fn join(k: i64, a: &Ob, b: &Ob, t: &T) -> Ob {
  let c = t.c.clone();
  let ti = t.clone();
  match k {
    MERGE => a.merge(&[b.clone()]),
    ZIP => a.zip(&[b.clone()]).map(|v| v[0].clone()),
    LATEST => a.combine_latest(&[b.clone()], move |v| {
      let _ = &c;
      v[0].clone()
    }),
    AMB => a.amb(&[b.clone()]),
    CONCAT => a.concat(&[b.clone()]),
    TAKE_UNTIL => a.take_until(b.clone()),
    SKIP_UNTIL => a.skip_until(b.clone()),
    SAMPLE => a.sample(b.clone()),
    SEQ_EQ => a.sequence_equal(&[b.clone()]).map(move |x| ti.tok(x as i64)),
    FLAT_MAP => {
      let b = b.clone();
      a.flat_map(move |_| {
        let _ = &c;
        b.clone()
      })
    }
    SWITCH => a.switch_on_next(b.clone()),
    _ => {
      let b = b.clone();
      a.on_error_resume_next(move |_| {
        let _ = &c;
        b.clone()
      })
    }
  }
}

fn cold_tok(t: &T, q: &Sq) -> Ob {
  let (t, q) = (t.clone(), q.clone());
  Observable::create(move |s| {
    for x in q.items.iter() {
      s.next(t.tok(*x));
    }
    if q.end == COMPLETE {
      s.complete()
    } else if q.end >= ERR {
      s.error(rxerr(q.end - ERR))
    }
  })
}
fn listen(o: &Ob, t: &T) -> (Sh<i64>, Subscription<'static>) {
  let n = Sh::new(0i64);
  let (a, b, c) = (t.c.clone(), t.c.clone(), t.c.clone());
  let (n1, n2) = (n.clone(), n.clone());
  let last: Sh<Option<Tok>> = Sh::new(None);
  let s = o.subscribe(
    move |x| {
      let _ = &a;
      *last.m() = Some(x);
    },
    move |_| {
      let _ = &b;
      *n1.m() += 1;
    },
    move || {
      let _ = &c;
      *n2.m() += 1;
    },
  );
  (n, s)
}
fn toks() -> T {
  T { c: Arc::new(0), i: Arc::new(0) }
}
const M: &str = "a callback or operator closure is still owned after the end";
const N: i64 = if cfg!(thorough) { 3 } else { 2 };

/// Cold sources.
//@ shards=8 cover=end key=2 cost=4
#[no_mangle]
pub extern "C" fn h_c17_cold() {
  let op = pick(0, NT - 1);
  let p = pick(0, 1);
  let q = script(N, 2);
  let un = pick(0, 1) == 1;
  let t = toks();
  {
    let o = apply(op, p, &cold_tok(&t, &q), &t);
    let (n, s) = listen(&o, &t);
    if un || *n.m() == 0 {
      s.unsubscribe();
    }
  }
  t.free(M);
  cover("end");
}

/// A subject that stays alive.
//@ shards=8 cover=end key=2 cost=5
#[no_mangle]
pub extern "C" fn h_c17_hot() {
  let op = pick(0, NT - 1);
  let p = pick(0, 1);
  let t = toks();
  let sbj = subjects::Subject::<'static, Tok>::new();
  let at = choose(0, N + 1);
  {
    let o = apply(op, p, &sbj.observable(), &t);
    let (n, s) = listen(&o, &t);
    for i in 0..=N {
      if i == at {
        s.unsubscribe();
      }
      match choose(0, 2) {
        0 => sbj.next(t.tok(item())),
        1 => sbj.complete(),
        _ => sbj.error(rxerr(3)),
      }
    }
    if *n.m() == 0 {
      s.unsubscribe();
    }
  }
  t.free(M);
  drop(sbj);
  cover("end");
}

/// Pairs of operators.
//@ shards=16 cover=end key=1 cost=8
#[no_mangle]
pub extern "C" fn h_c17_chain() {
  let c = pick(0, NT * NT - 1);
  let kind = pick(0, 1);
  let t = toks();
  let sbj = subjects::Subject::<'static, Tok>::new();
  {
    if kind == 0 {
      let q = script(1, 2);
      let o = apply(c % NT, 1, &apply(c / NT, 1, &cold_tok(&t, &q), &t), &t);
      let (n, s) = listen(&o, &t);
      if *n.m() == 0 {
        s.unsubscribe();
      }
    } else {
      let o = apply(c % NT, 1, &apply(c / NT, 1, &sbj.observable(), &t), &t);
      let (n, s) = listen(&o, &t);
      for _ in 0..2 {
        match choose(0, 2) {
          0 => sbj.next(t.tok(item())),
          1 => sbj.complete(),
          _ => sbj.error(rxerr(3)),
        }
      }
      if *n.m() == 0 {
        s.unsubscribe();
      }
    }
  }
  t.free(M);
  drop(sbj);
  cover("end");
}

fn two(o: impl Fn(&Ob, &Ob, &T) -> Ob, hot: i64, l: i64) {
  let t = toks();
  let sb = [subjects::Subject::<'static, Tok>::new(), subjects::Subject::<'static, Tok>::new()];
  {
    let mut v: Vec<Ob> = Vec::with_capacity(2);
    for i in 0..2 {
      if hot >> i & 1 == 1 {
        v.push(sb[i].observable());
      } else {
        v.push(cold_tok(&t, &script(1, 2)));
      }
    }
    let o = o(&v[0], &v[1], &t);
    let (n, s) = listen(&o, &t);
    if hot > 0 {
      for _ in 0..l {
        let e = choose(0, 5);
        assume(hot >> (e / 3) & 1 == 1);
        match e % 3 {
          0 => sb[(e / 3) as usize].next(t.tok(item())),
          1 => sb[(e / 3) as usize].complete(),
          _ => sb[(e / 3) as usize].error(rxerr(3)),
        }
      }
    }
    if *n.m() == 0 {
      s.unsubscribe();
    }
  }
  t.free(M);
  drop(sb);
  cover("end");
}

/// Combinators.
//@ shards=12 cover=end key=2 cost=6
#[no_mangle]
pub extern "C" fn h_c17_multi() {
  let k = pick(0, NMULTI - 1);
  map_order(pick(0, 1) == 1);
  two(|a, b, t| join(k, a, b, t), pick(0, 3), 3);
}
//@ shards=12 cover=end key=2 cost=7
#[no_mangle]
pub extern "C" fn h_c17_multi_op() {
  let k = pick(0, NMULTI - 1);
  let op = pick(0, NT - 1);
  two(|a, b, t| apply(op, 1, &join(k, a, b, t), t), pick(0, 1) * 3, 2);
}
//@ shards=12 cover=end key=2 cost=7
#[no_mangle]
pub extern "C" fn h_c17_op_multi() {
  let k = pick(0, NMULTI - 1);
  let op = pick(0, NT - 1);
  let side = pick(0, 1);
  two(
    |a, b, t| if side == 0 { join(k, &apply(op, 1, a, t), b, t) } else { join(k, a, &apply(op, 1, b, t), t) },
    pick(0, 1) * 3,
    2,
  );
}

/// Subjects: the observers of each type.
//@ shards=4 cover=end key=2 cost=2
#[no_mangle]
pub extern "C" fn h_c17_subjects() {
  let k = pick(0, 3);
  let t = toks();
  macro_rules! go {
    ($new:expr) => {{
      let s = $new;
      let (n, u) = listen(&s.observable(), &t);
      let (n2, u2) = listen(&s.observable(), &t);
      for _ in 0..3 {
        match choose(0, 3) {
          0 => s.next(t.tok(item())),
          1 => s.complete(),
          2 => s.error(rxerr(1)),
          _ => u.unsubscribe(),
        }
      }
      u.unsubscribe();
      u2.unsubscribe();
      check(Arc::strong_count(&t.c) == 1, M);
    }};
  }
  match k {
    0 => go!(subjects::Subject::<'static, Tok>::new()),
    1 => go!(subjects::BehaviorSubject::<'static, Tok>::new(t.tok(0))),
    2 => go!(subjects::ReplaySubject::<'static, Tok>::new()),
    _ => go!(subjects::AsyncSubject::<'static, Tok>::new()),
  }
  t.free(M);
  cover("end");
}

/// publish: subscriber and connection.
//@ cover=end key=2
#[no_mangle]
pub extern "C" fn h_c17_publish() {
  let op = pick(0, NT - 1);
  let t = toks();
  let sbj = subjects::Subject::<'static, Tok>::new();
  {
    let p = apply(op, 1, &sbj.observable(), &t).publish();
    let (n, s) = listen(&p.observable(), &t);
    let (n2, s2) = listen(&p.observable(), &t);
    let con = p.connect();
    for _ in 0..2 {
      match choose(0, 3) {
        0 => sbj.next(t.tok(item())),
        1 => sbj.complete(),
        2 => sbj.error(rxerr(3)),
        _ => s.unsubscribe(),
      }
    }
    s.unsubscribe();
    s2.unsubscribe();
    con.unsubscribe();
  }
  t.free(M);
  drop(sbj);
  cover("end");
}

/// Creation functions.
//@ cover=end key=1
#[no_mangle]
pub extern "C" fn h_c17_create() {
  let k = pick(0, 7);
  let take = pick(0, 1) == 1;
  let t = toks();
  {
    let (c, ti) = (t.c.clone(), t.clone());
    let o: Ob = match k {
      0 => observables::just(t.tok(1)),
      1 => observables::from_iter(vec![t.tok(1), t.tok(2)].into_iter()),
      2 => observables::repeat(t.tok(1)).take(2),
      3 => observables::start(move || {
        let _ = &c;
        ti.tok(2)
      }),
      4 => observables::defer(move || observables::just(ti.tok(3))),
      5 => observables::error(rxerr(1)),
      6 => observables::from_result::<_, Payload>(Ok(t.tok(4))),
      _ => observables::empty(),
    };
    let o = if take { o.take(1) } else { o };
    let (n, s) = listen(&o, &t);
    check(*n.m() == 1, "setup");
  }
  t.free(M);
  cover("end");
}

/// Scheduler-based operators, in virtual time.
//@ shards=8 cover=end key=2 cost=5
#[no_mangle]
pub extern "C" fn h_c17_sched() {
  let k = pick(0, 9);
  let p = pick(0, 1);
  let behind = pick(0, 2);
  let t = toks();
  let sbj = subjects::Subject::<'static, Tok>::new();
  {
    let src = sbj.observable();
    let nt = || schedulers::new_thread_scheduler();
    let ti = t.clone();
    let o: Ob = match k {
      0 => src.observe_on(nt()),
      1 => src.subscribe_on(nt()),
      2 => src.delay(dur(10)),
      3 => src.debounce(dur(10), nt()),
      4 => src.timeout(dur(10), nt()),
      5 => src.observe_on(nt()).observe_on(nt()),
      6 => src.take_until(observables::timer(dur(25), nt())),
      7 => src.merge(&[observables::interval(dur(10), nt()).map(move |x| ti.tok(x as i64))]),
      8 => src.sample(observables::interval(dur(10), nt())),
      _ => src.subscribe_on(nt()).retry(2),
    };
    let o = match behind {
      0 => o,
      1 => o.take(1),
      _ => apply(12, 0, &o, &t),
    };
    let (n, s) = listen(&o, &t);
    idle();
    let at = choose(0, 3);
    for i in 0..3 {
      if i == at {
        s.unsubscribe();
      }
      match choose(0, 2) {
        0 => sbj.next(t.tok(item())),
        1 => sbj.complete(),
        _ => sbj.error(rxerr(3)),
      }
      if p == 1 {
        sleep_ns(7);
      }
    }
    idle();
    if *n.m() == 0 {
      s.unsubscribe();
    }
  }
  sleep_ns(100);
  idle();
  check(threads_live() == 0, "a worker thread outlives its subscription");
  t.free(M);
  drop(sbj);
  cover("end");
}
