//! C07 bounds (one thread): a subscriber whose callbacks (item, error, complete; also the
//! closures given to operators) call back into the library at a symbolic call: unsubscribe, emit an
//! item / complete / error into the subject it is called from, subscribe again to the same
//! observable or subject, unsubscribe another, connect and disconnect; over every operator,
//! every combinator, the four subjects, publish/ref_count/replay, to depth 2; scripts of 2
//! events (thorough 3); endless synchronous producers behind everything that can end
//! early; schedulers called from their own tasks. A lock taken twice or an endless loop is
//! the violation. (The scripts of C01-C06, C10 and C13 are covered by those checks, which
//! report every deadlock and livelock they meet.)
use schedulers::IScheduler;
use vh::multi::*;
use vh::thr::*;
use vh::*;

const S: i64 = if cfg!(thorough) { 3 } else { 2 };

/// What the callbacks do: on call number `at`, action `a`; again on the next call if `twice`.
#[derive(Clone)]
struct Re {
  o: Observable<'static, i64>,
  src: [AnySbj; 2],
  h: Sh<Vec<Subscription<'static>>>,
  calls: Sh<i64>,
  depth: Sh<i64>,
  at: i64,
  a: i64,
  kept: Sh<Vec<Subscription<'static>>>,
}
const NACT: i64 = 10;
impl Re {
  fn new(o: &Observable<'static, i64>, a: &AnySbj, b: &AnySbj, at: i64, act: i64) -> Re {
    Re {
      o: o.clone(),
      src: [a.clone(), b.clone()],
      h: Sh::new(vec![]),
      calls: Sh::new(0),
      depth: Sh::new(0),
      at,
      a: act,
      kept: Sh::new(vec![]),
    }
  }
  fn hit(&self) {
    *self.calls.m() += 1;
    if *self.calls.m() != self.at || *self.depth.m() > 1 {
      return;
    }
    *self.depth.m() += 1;
    cover("inside");
    match self.a {
      0 => {
        for h in self.h.m().clone() {
          h.unsubscribe();
        }
      }
      1 => self.src[0].send(0, 5),
      2 => self.src[0].send(1, 0),
      3 => self.src[0].send(2, 5),
      4 => self.again(&self.o.clone()),
      5 => self.again(&self.src[0].observable()),
      6 => self.src[1].send(0, 6),
      7 => self.src[1].send(1, 0),
      8 => {
        for h in self.h.m().clone() {
          h.unsubscribe();
        }
        self.src[0].send(0, 5);
        self.again(&self.o.clone());
      }
      _ => {
        // a subscriber that leaves at once
        let c = self.o.subscribe(|_| {}, |_| {}, || {});
        c.unsubscribe();
        self.src[0].send(0, 5);
      }
    }
    *self.depth.m() -= 1;
  }
  /// Subscribes the same reacting callbacks.
  fn again(&self, o: &Observable<'static, i64>) {
    let (a, b, c) = (self.clone(), self.clone(), self.clone());
    let s = o.subscribe(move |_| a.hit(), move |_| b.hit(), move || c.hit());
    self.kept.m().push(s);
  }
  fn start(&self) {
    let (a, b, c) = (self.clone(), self.clone(), self.clone());
    let s = self.o.subscribe(move |_| a.hit(), move |_| b.hit(), move || c.hit());
    self.h.m().push(s);
  }
  /// Events into both subjects, then everything is unsubscribed.
  fn run(&self, l: i64, two: bool) {
    self.start();
    for _ in 0..l {
      let e = choose(0, if two { 5 } else { 2 });
      self.src[(e / 3) as usize].send(e % 3, 3);
    }
    for h in self.h.m().clone() {
      h.unsubscribe();
    }
    for h in self.kept.m().clone() {
      h.unsubscribe();
    }
    cover("end");
  }
}
fn sbj(k: i64) -> AnySbj {
  AnySbj::new(k)
}

//@ shards=16 cost=6 key=2 cover=inside,end
#[no_mangle]
pub extern "C" fn h_c07_op() {
  let k = pick(0, NONE_SRC - 1);
  let act = pick(0, NACT - 1);
  let (a, b) = (sbj(0), sbj(0));
  let at = choose(1, S);
  let re = Re::new(&one(k, &a.observable()), &a, &b, at, act);
  re.run(S, false);
}

//@ shards=16 cost=6 key=2 cover=inside,end
#[no_mangle]
pub extern "C" fn h_c07_multi() {
  let k = pick(0, NMULTI - 1);
  let act = pick(0, NACT - 1);
  let (a, b) = (sbj(0), sbj(0));
  let at = choose(1, S);
  let swap = pick(0, 1) == 1; // the other input is the subject called from
  let o = build(k, &[a.observable(), b.observable()]);
  let re = if swap { Re::new(&o, &b, &a, at, act) } else { Re::new(&o, &a, &b, at, act) };
  re.run(S, true);
}

/// both inputs are one subject
//@ shards=8 cost=4 key=2 cover=inside,end
#[no_mangle]
pub extern "C" fn h_c07_same() {
  let k = pick(0, NMULTI - 1);
  let act = pick(0, NACT - 1);
  let a = sbj(pick(0, 3));
  let at = choose(1, S);
  let re = Re::new(&build(k, &[a.observable(), a.observable()]), &a, &a, at, act);
  re.run(S, false);
}

//@ shards=8 cost=4 key=3 cover=inside,end
#[no_mangle]
pub extern "C" fn h_c07_subject() {
  let k = pick(0, 3);
  let act = pick(0, NACT - 1);
  let wrap = pick(0, 2); // itself, behind an operator, two subscribers that react
  let (a, b) = (sbj(k), sbj(0));
  let at = choose(1, S + 1);
  let o = if wrap == 1 { a.observable().map(|x| x).take(3) } else { a.observable() };
  let re = Re::new(&o, &a, &b, at, act);
  if wrap == 2 {
    re.start();
  }
  re.run(S + 1, false);
}

/// two reacting subscribers of a shared source; also connecting from inside
//@ shards=8 cost=4 key=3 cover=inside,end
#[no_mangle]
pub extern "C" fn h_c07_shared() {
  let k = pick(0, 3);
  let act = pick(0, NACT + 2);
  let src = pick(0, 1) * 2; // a subject, a subject that replays while subscribing
  let (a, b) = (sbj(src), sbj(0));
  if src == 2 {
    a.send(0, 1);
  }
  let at = choose(1, S + 1);
  let p = a.observable().publish();
  let rc = a.observable().ref_count();
  let rp = a.observable().replay();
  let o = match k {
    0 => p.observable(),
    1 => rc.observable(),
    2 => rp.observable(),
    _ => a.observable().publish().observable(),
  };
  let conn: Sh<Option<Subscription<'static>>> = Sh::new(None);
  let (p2, c2, calls) = (p.clone(), conn.clone(), Sh::new(0i64));
  let o = o.map(move |x| {
    *calls.m() += 1;
    if *calls.m() == 1 && act >= NACT {
      match act - NACT {
        0 => {
          if let Some(c) = c2.m().clone() {
            c.unsubscribe();
          }
        }
        1 => {
          if let Some(c) = c2.m().take() {
            c.unsubscribe();
            *c2.m() = Some(p2.connect());
          }
        }
        _ => {
          let c = p2.observable().subscribe(|_| {}, |_| {}, || {});
          c.unsubscribe();
        }
      }
    }
    x
  });
  let re = Re::new(&o, &a, &b, at, if act < NACT { act } else { 1 });
  re.start();
  if k == 0 {
    let c = p.connect();
    *conn.m() = Some(c);
  }
  re.run(S, false);
  if let Some(c) = conn.m().take() {
    c.unsubscribe();
  }
}

/// a closure given to an operator calls back
//@ shards=8 cost=4 key=2 cover=inside,end
#[no_mangle]
pub extern "C" fn h_c07_closure() {
  let k = pick(0, 16);
  let act = pick(0, NACT - 1);
  let (a, b) = (sbj(0), sbj(0));
  let at = choose(1, S);
  let cell: Sh<Option<Re>> = Sh::new(None);
  let c = cell.clone();
  let hit = move || {
    if let Some(r) = c.m().clone() {
      r.hit()
    }
  };
  let o = a.observable();
  let o = match k {
    0 => o.map(move |x| {
      hit();
      x
    }),
    1 => o.filter(move |_| {
      hit();
      true
    }),
    2 => o.scan(move |(x, y)| {
      hit();
      x + y
    }),
    3 => o.reduce(move |(x, y)| {
      hit();
      x + y
    }),
    4 => o.take_while(move |_| {
      hit();
      true
    }),
    5 => o.skip_while(move |_| {
      hit();
      true
    }),
    6 => o.all(move |_| {
      hit();
      true
    })
    .map(|x| x as i64),
    7 => {
      let (h2, h3) = (hit.clone(), hit.clone());
      o.tap(move |_| hit(), move |_| h2(), move || h3())
    }
    8 => o.flat_map(move |_| {
      hit();
      observables::just(1)
    }),
    9 => o.combine_latest(&[b.observable()], move |v| {
      hit();
      v[0]
    }),
    10 => o.retry_when(move |_| {
      hit();
      false
    }),
    11 => o.on_error_resume_next(move |_| {
      hit();
      observables::just(1)
    }),
    12 => {
      let o2 = o.clone();
      observables::defer(move || {
        hit();
        o2.clone()
      })
    }
    13 => Observable::create(move |s: Observer<'static, i64>| {
      hit();
      s.next(1);
      hit();
      s.complete();
    }),
    14 => observables::start(move || {
      hit();
      1
    }),
    15 => utils::ready_set_go(move || hit(), o.clone()),
    _ => {
      let h2 = hit.clone();
      o.group_by(move |x| {
        hit();
        x & 1
      })
      .flat_map(move |g| {
        h2();
        g
      })
    }
  };
  let re = Re::new(&o, &a, &b, at, act);
  *cell.m() = Some(re.clone());
  re.run(S, true);
}

/// closures do not hold up each other: groups and windows
//@ shards=4 cost=3 key=2 cover=end
#[no_mangle]
pub extern "C" fn h_c07_inner() {
  let k = pick(0, 1);
  let act = pick(0, NACT - 1);
  let (a, b) = (sbj(0), sbj(0));
  let at = choose(1, S + 1);
  let cell: Sh<Option<Re>> = Sh::new(None);
  let c = cell.clone();
  let enter = move |o: &Observable<'static, i64>| {
    let r = c.m().clone();
    if let Some(r) = r {
      r.hit();
      r.again(o);
    }
  };
  let o = match k {
    0 => a.observable().group_by(|x| x % 2).map(move |g| {
      enter(&g);
      1
    }),
    _ => a.observable().window_with_count(1).map(move |w| {
      enter(&w);
      1
    }),
  };
  let re = Re::new(&o, &a, &b, at, act);
  *cell.m() = Some(re.clone());
  re.run(S + 1, false);
}

/// endless producers stop when what they feed has ended
//@ shards=8 cost=3 key=2 cover=end
#[no_mangle]
pub extern "C" fn h_c07_endless() {
  let k = pick(0, NONE_SRC - 1);
  let end = pick(0, 6);
  let endless = Observable::create(|s: Observer<'static, i64>| {
    let mut n = 0;
    while s.is_subscribed() {
      s.next(n % 4);
      n += 1;
    }
  });
  let stop = AnySbj::new(1); // a BehaviorSubject: emits while being subscribed
  // operators that need the whole source never end
  assume(!matches!(k, cat::LAST | cat::COUNT | cat::SUM | cat::SUM_COUNT | cat::MIN | cat::MAX | cat::REDUCE | cat::TAKE_LAST | cat::IGNORE | cat::ALL));
  // a publish connected before it has subscribers: nobody can end the connection
  assume(!matches!(k, cat::DISTINCT) && k != cat::NOPS + 5 && k != cat::NOPS + 12);
  let r = Rec::new();
  let o = one(k, &endless);
  let o = match end {
    0 => o.take(1),
    1 => o.take(2),
    2 => o.first(),
    3 => o.take_while(|_| false),
    4 => o.element_at(1),
    5 => stop.observable().amb(&[o]).take(1),
    _ => o.take_until(stop.observable()),
  };
  let _ = r.sub(&o);
  cover("end");
}

/// schedulers called from their tasks, dropped tasks that call the scheduler
struct Bomb(schedulers::NewThreadScheduler<'static>);
impl Drop for Bomb {
  fn drop(&mut self) {
    self.0.abort();
  }
}
//@ cost=1 cover=end
#[no_mangle]
pub extern "C" fn h_c07_sched() {
  let k = pick(0, 5);
  let s = schedulers::new_thread_scheduler()();
  let s2 = s.clone();
  match k {
    0 => s.post(move || s2.post(|| {})),
    1 => s.post(move || s2.abort()),
    2 => s.post(move || {
      s2.post(|| {});
      s2.abort();
      s2.abort();
      s2.post(|| {});
    }),
    3 => {
      let b = Arc::new(Bomb(s2));
      s.post(move || {
        let _ = &b;
      });
    }
    4 => {
      let b = Arc::new(Bomb(s2));
      s.abort();
      s.post(move || {
        let _ = &b;
      });
    }
    _ => {
      let d = schedulers::default_scheduler()();
      let d2 = d.clone();
      d.post(move || {
        d2.post(|| {});
        d2.abort();
      });
    }
  }
  s.abort();
  s.abort();
  idle();
  check(threads_live() == 0, "a worker does not end");
  cover("end");
}

/// items whose destructors call the library
#[derive(Clone)]
struct Live(i64, Arc<Fuse>);
struct Fuse(Subscription<'static>);
impl Drop for Fuse {
  fn drop(&mut self) {
    self.0.unsubscribe();
  }
}
//@ shards=4 cost=2 key=1 cover=end
#[no_mangle]
pub extern "C" fn h_c07_drop() {
  let k = pick(0, 11);
  let how = pick(0, 2);
  let s = subjects::Subject::<Live>::new();
  let o = s.observable();
  let o = match k {
    0 => o.take_last(1),
    1 => o.skip_last(1),
    2 => o.buffer_with_count(2).map(|v| v[0].clone()),
    3 => o.last(),
    4 => o.zip(&[observables::never()]).map(|v| v[0].clone()),
    5 => o.replay().observable(),
    6 => o.sample(observables::never::<i64>()),
    7 => o.observe_on(schedulers::new_thread_scheduler()),
    8 => o.publish().observable(),
    9 => o.map(|x| x),
    10 => o.ref_count().observable(),
    _ => o.debounce(dur(5), schedulers::new_thread_scheduler()),
  };
  let h = o.subscribe(|_| {}, |_| {}, || {});
  for i in 0..3 {
    s.next(Live(i, Arc::new(Fuse(h.clone()))));
  }
  match how {
    0 => s.complete(),
    1 => s.error(rxerr(1)),
    _ => h.unsubscribe(),
  }
  idle();
  cover("end");
}
