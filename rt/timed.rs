//! Operators that start threads or sleep, and the sources they run on.
use crate::*;

pub fn nts() -> fn() -> schedulers::NewThreadScheduler<'static> {
  schedulers::new_thread_scheduler()
}
pub fn every(d: i64) -> Observable<'static, i64> {
  observables::interval(dur(d), nts()).map(|x| x as i64)
}
pub fn after(d: i64) -> Observable<'static, i64> {
  observables::timer(dur(d), nts()).map(|_| 1)
}
pub fn fails() -> Observable<'static, i64> {
  Observable::create(|s: Observer<'static, i64>| {
    s.next(1);
    s.error(rxerr(4));
  })
}

/// (20: delay, which sleeps in the emitting thread, starts none.)
pub const NTOP: i64 = 20;
pub const DELAY: i64 = 20;
pub const TINT: i64 = 21;
/// Operators that start threads, with period p.
pub fn top(k: i64, o: &Observable<'static, i64>, p: i64) -> Observable<'static, i64> {
  match k {
    0 => o.observe_on(nts()),
    1 => o.subscribe_on(nts()),
    2 => o.debounce(dur(p), nts()),
    3 => o.timeout(dur(p), nts()),
    4 => o.sample(every(p)),
    5 => o.take_until(after(p)),
    6 => o.skip_until(after(p)),
    7 => o.merge(&[every(p)]),
    8 => o.amb(&[every(p)]),
    9 => o.amb(&[after(p)]),
    10 => o.zip(&[every(p)]).map(|v| v[0]),
    11 => o.combine_latest(&[every(p)], |v| v[0]),
    12 => o.concat(&[after(p)]),
    13 => o.flat_map(move |_| after(p)),
    14 => o.flat_map(move |_| every(p)).take(3),
    15 => o.switch_on_next(every(p)),
    16 => o.on_error_resume_next(move |_| after(p)),
    17 => o.retry(2),
    18 => o.ref_count().observable(),
    19 => o.replay().observable(),
    20 => o.delay(dur(p)),
    21 => o.time_interval().map(|d| d.as_nanos() as i64),
    _ => extra(k - 100, o),
  }
}

/// A source whose subscriptions belong to owners: what is subscribed while `owner` is w is
/// driven by `ev(w, ..)`.
#[derive(Clone)]
pub struct Owned {
  cur: Sh<usize>,
  subs: Sh<Vec<(usize, Observer<'static, i64>)>>,
}
impl Owned {
  pub fn new() -> Owned {
    Owned { cur: Sh::new(0), subs: Sh::new(Vec::with_capacity(8)) }
  }
  pub fn owner(&self, w: usize) {
    *self.cur.m() = w;
  }
  pub fn observable(&self) -> Observable<'static, i64> {
    let me = self.clone();
    Observable::create(move |s| me.subs.m().push((*me.cur.m(), s)))
  }
  pub fn ev(&self, w: usize, kind: i64, v: i64) {
    self.owner(w);
    let all: Vec<_> = self.subs.m().iter().filter(|x| x.0 == w && x.1.is_subscribed()).map(|x| x.1.clone()).collect();
    for o in all.iter() {
      multi::send(o, kind, v);
    }
  }
}
