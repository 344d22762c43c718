//! C16 bounds: (virtual time) all periods, gaps and unsubscribe times are symbolic 64-bit
//! values in 1..=60 (no two events at one instant is assumed, as the property does):
//! interval with up to 4 ticks (thorough 6), one or two subscriptions, unsubscribed at a symbolic
//! time; timer; delay with up to 3 items (4) from one or two threads; timeout with up to 3 items (4)
//! then complete, error, silence or unsubscribe; sample and debounce with up to 4 items (5)
//! and 3 triggers; time_interval and timestamp. (threads, time left open: a sleep may end
//! at any moment) sample and debounce under all interleavings at lock granularity.
use std::time::Duration;
use vh::thr::*;
use vh::*;

/// Events with the virtual time of their arrival.
#[derive(Clone)]
struct Log {
  at: Sh<Vec<(i64, i64)>>, // (value, time)
  end: Sh<(i64, i64)>,     // (terminal, time)
}
impl Log {
  fn new() -> Log {
    Log { at: Sh::new(vec![]), end: Sh::new((0, 0)) }
  }
  fn sub(&self, o: &Observable<'static, i64>) -> Subscription<'static> {
    let (a, e, c) = (self.clone(), self.clone(), self.clone());
    o.subscribe(
      move |x| a.at.m().push((x, now())),
      move |x| {
        check(e.end.m().0 == 0, "a second terminal");
        let timed = x.downcast_ref::<std::io::Error>().map(|x| x.kind() == std::io::ErrorKind::TimedOut).unwrap_or(false);
        *e.end.m() = (if timed { 77 } else { ERR }, now())
      },
      move || {
        check(c.end.m().0 == 0, "a second terminal");
        *c.end.m() = (COMPLETE, now())
      },
    )
  }
  fn n(&self) -> usize {
    self.at.m().len()
  }
  fn is(&self, want: &[(i64, i64)], end: (i64, i64), m: &'static str) {
    check(self.n() == want.len(), m);
    for i in 0..want.len() {
      check(self.at.m()[i].0 == want[i].0, m);
      check(self.at.m()[i].1 == want[i].1, m);
    }
    check(self.end.m().0 == end.0, m);
    check(end.0 == 0 || self.end.m().1 == end.1, m);
  }
}
fn span() -> i64 {
  sym(1, 60)
}
fn differs_from_ticks(t: i64, d: i64, n: i64) {
  for k in 1..=n {
    assume(t != k * d);
  }
}
const MORE: i64 = if cfg!(thorough) { 2 } else { 0 };

//@ shards=2 cover=end cost=3
#[no_mangle]
pub extern "C" fn h_c16_interval() {
  let n = pick(0, 4 + MORE); // ticks before the end
  let op = pick(0, 1);
  let d = span();
  let t = sym(1, 420);
  assume(t > n * d && t < (n + 1) * d);
  let off = sym(0, 60); // the subscription need not be made at time 0
  sleep_ns(off);
  let o = observables::interval(dur(d), schedulers::new_thread_scheduler()).map(|x| x as i64);
  let o = if op == 1 { o.filter(|_| true).skip(0) } else { o };
  check(threads_live() == 0, "a thread runs before anybody has subscribed");
  let l = Log::new();
  let s = l.sub(&o);
  sleep_ns(t);
  s.unsubscribe();
  let want: Vec<(i64, i64)> = (0..n).map(|k| (k, off + (k + 1) * d)).collect();
  l.is(&want, (0, 0), "interval does not follow the clock");
  sleep_ns(400);
  l.is(&want, (0, 0), "interval goes on after unsubscribe");
  cover("end");
}

/// two subscriptions of one interval, made at different times
//@ shards=2 cover=end cost=3
#[no_mangle]
pub extern "C" fn h_c16_interval_two() {
  let d = span();
  let n = pick(1, 2 + MORE);
  let o = observables::interval(dur(d), schedulers::new_thread_scheduler()).map(|x| x as i64);
  let (a, b) = (Log::new(), Log::new());
  let off = sym(1, 60);
  assume(off < d);
  let s1 = a.sub(&o);
  sleep_ns(off);
  let s2 = b.sub(&o);
  // both have had n ticks
  sleep_ns(n * d);
  let x = span();
  assume(x < d && off + x != d && off + x < d);
  sleep_ns(x);
  s1.unsubscribe();
  s2.unsubscribe();
  a.is(&(0..n).map(|k| (k, (k + 1) * d)).collect::<Vec<_>>(), (0, 0), "the first of two intervals does not follow the clock");
  b.is(&(0..n).map(|k| (k, off + (k + 1) * d)).collect::<Vec<_>>(), (0, 0), "the second of two intervals does not follow the clock");
  cover("end");
}

/// the default scheduler runs the interval inside subscribe, until take ends it
//@ cover=end cost=1
#[no_mangle]
pub extern "C" fn h_c16_interval_take() {
  let d = span();
  let n = pick(1, 4 + MORE);
  let l = Log::new();
  let new = pick(0, 1) == 1;
  let want: Vec<(i64, i64)> = (0..n).map(|k| (k, (k + 1) * d)).collect();
  if new {
    l.sub(&observables::interval(dur(d), schedulers::new_thread_scheduler()).map(|x| x as i64).take(n as usize));
    sleep_ns(600);
  } else {
    l.sub(&observables::interval(dur(d), schedulers::default_scheduler()).map(|x| x as i64).take(n as usize));
  }
  l.is(&want, (COMPLETE, n * d), "interval with take does not follow the clock");
  cover("end");
}

//@ cover=end cost=1
#[no_mangle]
pub extern "C" fn h_c16_timer() {
  let d = span();
  let k = pick(0, 2);
  let l = Log::new();
  let off = sym(0, 60);
  sleep_ns(off);
  match k {
    0 => {
      l.sub(&observables::timer(dur(d), schedulers::default_scheduler()).map(|_| 1));
      l.is(&[(1, off + d)], (COMPLETE, off + d), "timer does not follow the clock");
    }
    1 => {
      let o = observables::timer(dur(d), schedulers::new_thread_scheduler()).map(|_| 1);
      let l2 = Log::new();
      l.sub(&o);
      let x = span();
      assume(x != d);
      sleep_ns(x);
      l2.sub(&o);
      sleep_ns(600);
      l.is(&[(1, off + d)], (COMPLETE, off + d), "timer does not follow the clock");
      l2.is(&[(1, off + x + d)], (COMPLETE, off + x + d), "the second timer does not follow the clock");
    }
    _ => {
      let s = l.sub(&observables::timer(dur(d), schedulers::new_thread_scheduler()).map(|_| 1));
      let x = span();
      assume(x != d);
      sleep_ns(x);
      s.unsubscribe();
      sleep_ns(600);
      if x < d {
        l.is(&[], (0, 0), "an unsubscribed timer fires");
      } else {
        l.is(&[(1, off + d)], (COMPLETE, off + d), "timer does not follow the clock");
      }
    }
  }
  cover("end");
}

//@ shards=2 cover=end cost=2
#[no_mangle]
pub extern "C" fn h_c16_delay() {
  let d = span();
  let n = pick(0, if cfg!(thorough) { 4 } else { 3 });
  let end = pick(0, 2);
  let op = pick(0, 1);
  let s = subjects::Subject::new();
  let o = s.observable();
  let o = if op == 1 { o.map(|x| x).delay(dur(d)).filter(|_| true) } else { o.delay(dur(d)) };
  let l = Log::new();
  l.sub(&o);
  let mut want = vec![];
  for _ in 0..n {
    sleep_ns(sym(0, 60));
    let v = item();
    want.push((v, now() + d));
    s.next(v);
  }
  sleep_ns(sym(0, 60));
  match end {
    1 => s.complete(),
    2 => s.error(rxerr(3)),
    _ => {}
  }
  sleep_ns(400);
  l.is(&want, (end_of(end), l.end.m().1), "delay does not follow the clock");
  cover("end");
}
fn end_of(e: i64) -> i64 {
  match e {
    0 => 0,
    1 => COMPLETE,
    _ => ERR,
  }
}

/// items that arrive on two threads
//@ shards=2 cover=end cost=2
#[no_mangle]
pub extern "C" fn h_c16_delay_two() {
  let d = span();
  let (a, b) = (subjects::Subject::new(), subjects::Subject::new());
  let l = Log::new();
  l.sub(&a.observable().merge(&[b.observable()]).delay(dur(d)));
  let (x, y) = (span(), span());
  assume(x != y);
  let (a2, b2) = (a.clone(), b.clone());
  th(move || {
    sleep_ns(x);
    a2.next(1);
  });
  th(move || {
    sleep_ns(y);
    b2.next(2);
  });
  sleep_ns(400);
  let w = if x < y { [(1, x + d), (2, y + d)] } else { [(2, y + d), (1, x + d)] };
  l.is(&w, (0, 0), "delay does not follow the clock for two sources");
  cover("end");
}

//@ shards=4 key=3 cover=end,timedout cost=5
#[no_mangle]
pub extern "C" fn h_c16_timeout() {
  let n = pick(0, if cfg!(thorough) { 4 } else { 3 });
  let end = pick(0, 3); // 3 unsubscribe
  let how = pick(0, 1); // items are emitted by this thread or another
  let d = span();
  let s = subjects::Subject::new();
  let l = Log::new();
  let h = l.sub(&s.observable().timeout(dur(d), schedulers::new_thread_scheduler()));
  let mut want: Vec<(i64, i64)> = vec![];
  let mut dead: Option<i64> = None; // when it timed out
  let mut t = 0; // now
  let mut script = vec![]; // (gap, value)
  for k in 0..=n {
    let g = sym(1, 150);
    t = t + g;
    if let Some(x) = want.last() {
      if dead.is_none() {
        assume(t != x.1 + d);
        if t > x.1 + d {
          dead = Some(x.1 + d);
        }
      }
    }
    script.push((g, 10 + k));
    if k < n && dead.is_none() {
      want.push((10 + k, t));
    }
  }
  let run = move |s: &subjects::Subject<'static, i64>| {
    for k in 0..script.len() {
      sleep_ns(script[k].0);
      if k < script.len() - 1 {
        s.next(script[k].1);
      } else {
        match end {
          1 => s.complete(),
          2 => s.error(rxerr(3)),
          3 => h.unsubscribe(),
          _ => {}
        }
      }
    }
  };
  if how == 0 {
    run(&s);
  } else {
    let s2 = s.clone();
    th(move || run(&s2));
    sleep_ns(1200);
  }
  sleep_ns(400);
  match (dead, end) {
    (Some(x), _) => {
      cover("timedout");
      l.is(&want, (77, x), "timeout does not fail when it should")
    }
    (None, 0) if n > 0 => l.is(&want, (77, want[want.len() - 1].1 + d), "timeout does not fail after the last item"),
    (None, 3) => l.is(&want, (0, 0), "timeout fires after unsubscribe"),
    _ => l.is(&want, (end_of(end), t), "timeout disturbs a source in time"),
  }
  cover("end");
}

fn subsequence(l: &Log, times: &[i64], m: &'static str) {
  let mut last = 0;
  for i in 0..l.n() {
    let (v, t) = l.at.m()[i];
    check(v > last && v <= times.len() as i64, m);
    last = v;
    check(t >= times[v as usize - 1], m);
  }
}

//@ shards=4 key=3 cover=end,some cost=4
#[no_mangle]
pub extern "C" fn h_c16_sample() {
  let n = pick(1, if cfg!(thorough) { 5 } else { 4 });
  let end = pick(0, 2);
  let by = pick(0, 1); // the trigger is an interval or a subject
  let d = sym(18, 60);
  let s = subjects::Subject::new();
  let t = subjects::Subject::new();
  let l = Log::new();
  let h = if by == 0 {
    l.sub(&s.observable().sample(observables::interval(dur(d), schedulers::new_thread_scheduler())))
  } else {
    l.sub(&s.observable().sample(t.observable()))
  };
  let mut times = vec![];
  let mut fed = 0;
  for k in 1..=n {
    let g = sym(1, 42);
    sleep_ns(g);
    if by == 0 {
      differs_from_ticks(now(), d, 10);
    }
    times.push(now());
    s.next(k);
    if by == 1 && fed < 3 && choose(0, 1) == 1 {
      fed += 1;
      t.next(0);
    }
  }
  if l.n() > 0 {
    cover("some");
  }
  sleep_ns(1);
  let x = sym(1, 42);
  sleep_ns(x);
  match end {
    0 => {}
    1 => s.complete(),
    _ => s.error(rxerr(2)),
  }
  if end == 0 {
    h.unsubscribe();
  }
  let seen = l.n();
  sleep_ns(300);
  check(l.n() == seen, "sample delivers after the end");
  subsequence(&l, &times, "sample delivered something else than the items of the source in their order");
  cover("end");
}

//@ shards=4 key=2 cover=end,some cost=4
#[no_mangle]
pub extern "C" fn h_c16_debounce() {
  let n = pick(1, if cfg!(thorough) { 5 } else { 4 });
  let end = pick(0, 2);
  let d = sym(18, 60);
  let s = subjects::Subject::new();
  let l = Log::new();
  let h = l.sub(&s.observable().debounce(dur(d), schedulers::new_thread_scheduler()));
  let mut times = vec![];
  for k in 1..=n {
    let g = sym(1, 42);
    sleep_ns(g);
    differs_from_ticks(now(), d, 10);
    times.push(now());
    s.next(k);
  }
  let x = sym(1, 90);
  sleep_ns(x);
  differs_from_ticks(now(), d, 15);
  match end {
    0 => h.unsubscribe(),
    1 => s.complete(),
    _ => s.error(rxerr(2)),
  }
  let seen = l.n();
  if seen > 0 {
    cover("some");
  }
  sleep_ns(300);
  check(l.n() == seen, "debounce delivers after the end");
  subsequence(&l, &times, "debounce delivered something else than the items of the source in their order");
  cover("end");
}

//@ cover=end cost=1
#[no_mangle]
pub extern "C" fn h_c16_stamps() {
  let k = pick(0, 1);
  let n = pick(1, 4 + MORE);
  let s = subjects::Subject::new();
  let l = Log::new();
  let ns = |d: Duration| d.as_nanos() as i64;
  if k == 0 {
    l.sub(&s.observable().time_interval().map(move |x| ns(x)));
  } else {
    let first: Sh<Option<std::time::SystemTime>> = Sh::new(None);
    l.sub(&s.observable().timestamp().map(move |x| {
      let f = *first.m().get_or_insert(x.0);
      check(x.1 >= 100, "timestamp changed an item");
      ns(x.0.duration_since(f).unwrap())
    }));
  }
  let mut want = vec![];
  let mut sum = 0;
  for i in 0..n {
    let g = sym(0, 60);
    sleep_ns(g);
    if i > 0 {
      sum = sum + g;
    }
    s.next(100 + i);
    if k == 1 || i > 0 {
      want.push((if k == 0 { g } else { sum }, now()));
    }
  }
  l.is(&want, (0, 0), "time stamps do not follow the clock");
  cover("end");
}

// ---- threads, time left open ---------------------------------------------------------
const ALIEN: &str = "@viol delivered something the source had not emitted: i=1(1,v) !4(1,v)<i";
const TWICE: &str = "@viol delivered an item twice: i=1(1,v) j=1(1,v) i!=j";
const ORDER: &str = "@viol delivered out of order: e=4(1,v) f=4(1,w) i=1(1,v) j=1(1,w) e<f j<i";

//@ mode=conc shards=8 cost=5 cover=conc
#[no_mangle]
pub extern "C" fn h_c16_conc() {
  let k = pick(0, 3);
  let n = pick(2, 3);
  let end = pick(0, 2);
  prop(ALIEN);
  prop(TWICE);
  prop(ORDER);
  cover("conc");
  concurrent();
  let s = subjects::Subject::new();
  let t = subjects::Subject::new();
  let o = s.observable();
  let h = match k {
    0 => watch(&o.sample(t.observable()), 1),
    1 => watch(&o.sample(observables::interval(dur(1), schedulers::new_thread_scheduler())), 1),
    2 => watch(&o.debounce(dur(1), schedulers::new_thread_scheduler()), 1),
    _ => watch(&o.delay(dur(1)), 1),
  };
  if k == 0 {
    th(move || {
      t.next(0);
      t.next(0);
    });
  }
  emits(&s, 1, n, end);
  if end == 0 {
    h.unsubscribe();
  }
}
