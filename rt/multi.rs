//! Sources under harness control, multi-source pipelines and their reference semantics.
use super::*;

/// A hot source that hands its observers to the harness: events are pushed with
/// no regard to is_subscribed (it can misbehave), and it can be probed.
#[derive(Clone)]
pub struct Raw {
  pub obs: Sh<Vec<Observer<'static, i64>>>,
  pub subs: Sh<i64>, // subscriptions ever made
  pub born_dead: Sh<i64>,
}
impl Raw {
  pub fn new() -> Raw {
    Raw { obs: Sh::new(vec![]), subs: Sh::new(0), born_dead: Sh::new(0) }
  }
  pub fn observable(&self) -> Observable<'static, i64> {
    let me = self.clone();
    Observable::create(move |s| {
      *me.subs.m() += 1;
      me.obs.m().push(s);
    })
  }
  /// Every observer handed out so far, oldest first (a snapshot).
  pub fn all(&self) -> Vec<Observer<'static, i64>> {
    self.obs.m().clone()
  }
  /// How many of them are still subscribed.
  pub fn live(&self) -> i64 {
    let mut n = 0;
    for o in self.all().iter() {
      n += o.is_subscribed() as i64;
    }
    n
  }
  /// kind 0: next(v), 1: complete, 2: error(v)
  pub fn ev(&self, kind: i64, v: i64) {
    for o in self.all().iter() {
      send(o, kind, v);
    }
  }
  /// As ev, but only to observers that are still subscribed.
  pub fn polite(&self, kind: i64, v: i64) {
    for o in self.all().iter() {
      if o.is_subscribed() {
        send(o, kind, v);
      }
    }
  }
  /// Drops the observers handed out.
  pub fn forget(&self) {
    let v = std::mem::take(self.obs.m());
    drop(v);
  }
}
pub fn send(o: &Observer<'static, i64>, kind: i64, v: i64) {
  match kind {
    0 => o.next(v),
    1 => o.complete(),
    _ => o.error(rxerr(v)),
  }
}
pub fn ssend(s: &Sbj, kind: i64, v: i64) {
  match kind {
    0 => s.next(v),
    1 => s.complete(),
    _ => s.error(rxerr(v)),
  }
}

pub const MERGE: i64 = 0;
pub const ZIP: i64 = 1;
pub const LATEST: i64 = 2;
pub const AMB: i64 = 3;
pub const CONCAT: i64 = 4;
pub const TAKE_UNTIL: i64 = 5;
pub const SKIP_UNTIL: i64 = 6;
pub const SAMPLE: i64 = 7;
pub const SEQ_EQ: i64 = 8;
pub const FLAT_MAP: i64 = 9;
pub const SWITCH: i64 = 10;
pub const RESUME: i64 = 11;
pub const NMULTI: i64 = 12;

/// Two-source only?
pub fn two_only(k: i64) -> bool {
  matches!(k, TAKE_UNTIL | SKIP_UNTIL | SAMPLE | SWITCH | RESUME)
}

/// The real combinator; s[0] is the observable it is called on.
pub fn build(k: i64, s: &[Observable<'static, i64>]) -> Observable<'static, i64> {
  let rest = &s[1..];
  match k {
    MERGE => s[0].merge(rest),
    ZIP => s[0].zip(rest).map(|v| enc(&v)),
    LATEST => s[0].combine_latest(rest, |v| enc(&v)),
    AMB => s[0].amb(rest),
    CONCAT => s[0].concat(rest),
    TAKE_UNTIL => s[0].take_until(s[1].clone()),
    SKIP_UNTIL => s[0].skip_until(s[1].clone()),
    SAMPLE => s[0].sample(s[1].clone()),
    SEQ_EQ => s[0].sequence_equal(rest).map(|b| b as i64),
    FLAT_MAP => {
      let rest: Vec<_> = rest.to_vec();
      s[0].flat_map(move |x| rest[if rest.len() > 1 { (x & 1) as usize } else { 0 }].clone())
    }
    SWITCH => s[0].switch_on_next(s[1].clone()),
    _ => {
      let o = s[1].clone();
      s[0].on_error_resume_next(move |_| o.clone())
    }
  }
}

/// One event of source `src`.
#[derive(Clone, Copy)]
pub struct Ev {
  pub src: usize,
  pub kind: i64, // 0 next, 1 complete, 2 error
  pub v: i64,
  pub one: bool, // concerns one subscription of the source (a cold one), not all
}

/// Reference: what may have been seen after the events so far. `end` is the
/// required terminal; `alt` another acceptable one (or -1).
pub struct Want {
  pub items: Vec<i64>,
  pub end: i64,
  pub alt: i64,
}
impl Want {
  pub fn ok(&self, r: &Rec) -> bool {
    let d = r.d();
    if d.items.len() != self.items.len() || d.late != 0 || d.nterm > 1 {
      return false;
    }
    let mut ok = d.end == self.end || (self.alt >= 0 && d.end == self.alt);
    for i in 0..self.items.len() {
      ok &= d.items[i] == self.items[i];
    }
    ok
  }
}

pub fn reference(k: i64, n: usize, evs: &[Ev]) -> Want {
  let mut w = Want { items: Vec::with_capacity(evs.len() * 2 + 2), end: SILENT, alt: -1 };
  let mut done = vec![false; n]; // completed
  let mut q: Vec<Vec<i64>> = Vec::with_capacity(n); // items per source
  for _ in 0..n {
    q.push(Vec::with_capacity(evs.len()));
  }
  let mut subs = vec![0i64; n]; // flat_map: subscriptions per inner
  let mut winner: i64 = -1; // amb
  let mut cur = 0usize; // concat
  let mut open = false; // skip_until / sample pending / resume switched
  let mut pending = 0i64;
  let mut decided = false;
  for e in evs {
    if w.end != SILENT {
      break;
    }
    let s = e.src;
    match k {
      MERGE => match e.kind {
        0 => w.items.push(e.v),
        1 => {
          done[s] = true;
          if done.iter().all(|x| *x) {
            w.end = COMPLETE;
          }
        }
        _ => w.end = ERR + e.v,
      },
      ZIP => match e.kind {
        0 => {
          q[s].push(e.v);
          let t = w.items.len();
          let mut tup = Vec::with_capacity(n);
          for qq in q.iter() {
            if qq.len() > t {
              tup.push(qq[t]);
            }
          }
          if tup.len() == n {
            w.items.push(enc(&tup));
          }
        }
        1 => done[s] = true,
        _ => w.end = ERR + e.v,
      },
      LATEST => match e.kind {
        0 => {
          q[s].push(e.v);
          let mut tup = Vec::with_capacity(n);
          for qq in q.iter() {
            if qq.len() > 0 {
              tup.push(qq[qq.len() - 1]);
            }
          }
          if tup.len() == n {
            w.items.push(enc(&tup));
          }
        }
        1 => done[s] = true,
        _ => w.end = ERR + e.v,
      },
      AMB => {
        if winner < 0 {
          winner = s as i64;
        }
        if winner == s as i64 {
          match e.kind {
            0 => w.items.push(e.v),
            1 => w.end = COMPLETE,
            _ => w.end = ERR + e.v,
          }
        }
      }
      CONCAT => {
        if s == cur {
          match e.kind {
            0 => w.items.push(e.v),
            1 => {
              cur += 1;
              if cur == n {
                w.end = COMPLETE;
              }
            }
            _ => w.end = ERR + e.v,
          }
        }
      }
      TAKE_UNTIL | SKIP_UNTIL | SAMPLE => {
        if s == 0 {
          match e.kind {
            0 => {
              if k == TAKE_UNTIL || (k == SKIP_UNTIL && open) {
                w.items.push(e.v)
              } else if k == SAMPLE {
                open = true;
                pending = e.v;
              }
            }
            1 => w.end = COMPLETE,
            _ => w.end = ERR + e.v,
          }
        } else if e.kind == 0 {
          if k == TAKE_UNTIL {
            w.end = COMPLETE;
          } else if k == SKIP_UNTIL {
            open = true;
          } else if open {
            w.items.push(pending);
            open = false;
          }
        }
      }
      SEQ_EQ => match e.kind {
        0 => q[s].push(e.v),
        1 => done[s] = true,
        _ => w.end = ERR + e.v,
      },
      FLAT_MAP => {
        if s == 0 {
          match e.kind {
            0 => {
              let i = if n > 2 { 1 + (e.v & 1) as usize } else { 1 };
              subs[i] += 1;
            }
            1 => done[0] = true,
            _ => w.end = ERR + e.v,
          }
        } else if subs[s] > 0 {
          match e.kind {
            0 => {
              for _ in 0..if e.one { 1 } else { subs[s] } {
                w.items.push(e.v);
              }
            }
            1 => subs[s] = if e.one { subs[s] - 1 } else { 0 },
            _ => w.end = ERR + e.v,
          }
        }
        if w.end == SILENT && done[0] && subs.iter().all(|x| *x == 0) {
          w.end = COMPLETE;
        }
      }
      _ => {
        // on_error_resume_next
        if s == cur {
          match e.kind {
            0 => w.items.push(e.v),
            1 => w.end = COMPLETE,
            _ => {
              if s == 0 {
                cur = 1
              } else {
                w.end = ERR + e.v
              }
            }
          }
        }
      }
    }
    let all = done.iter().all(|x| *x);
    if k == ZIP || k == LATEST {
      // an input that can contribute nothing any more may complete the output early
      let mut early = false;
      for i in 0..n {
        early |= done[i] && if k == ZIP { q[i].len() <= w.items.len() } else { q[i].len() == 0 };
      }
      if all && w.end == SILENT {
        w.end = COMPLETE;
        w.alt = -1;
      } else if early {
        w.alt = COMPLETE;
      }
    }
    if k == SEQ_EQ && w.end == SILENT {
      // a difference between two inputs is certain
      for i in 0..n {
        for j in 0..n {
          for t in 0..q[i].len() {
            if t < q[j].len() && q[i][t] != q[j][t] {
              decided = true;
            }
            if t >= q[j].len() && done[j] {
              decided = true;
            }
          }
        }
      }
      if all {
        w.items.push(if decided { 0 } else { 1 });
        w.end = COMPLETE;
      }
    }
  }
  if k == SEQ_EQ && decided && w.end != COMPLETE {
    w.alt = -2; // `false` may have been emitted already
  }
  w
}

/// Compares a recorder with the reference of combinator k.
pub fn agrees(k: i64, w: &Want, r: &Rec) -> bool {
  if k == SEQ_EQ && w.alt == -2 {
    let d = r.d();
    if d.late != 0 || d.nterm > 1 {
      return false;
    }
    if d.items.len() == 1 {
      return d.items[0] == 0 && d.end == COMPLETE;
    }
    return d.items.len() == 0 && d.end == w.end;
  }
  w.ok(r)
}

/// Operators and wrappers outside the catalogue, one source.
pub const NEXTRA: i64 = 13;
pub fn extra(k: i64, o: &Observable<'static, i64>) -> Observable<'static, i64> {
  match k {
    0 => o.retry(2),
    1 => {
      let n = Sh::new(0i64);
      o.retry_when(move |_| {
        *n.m() += 1;
        *n.m() < 3
      })
    }
    2 => o.on_error_resume_next(|_| observables::from_iter(vec![70i64, 71].into_iter())),
    3 => o.timestamp().map(|x| x.1),
    4 => o.time_interval().map(|_| 4),
    5 => o.delay(dur(1)),
    6 => o.observe_on(schedulers::default_scheduler()),
    7 => o.subscribe_on(schedulers::default_scheduler()),
    8 => utils::ready_set_go(|| {}, o.clone()),
    9 => o.flat_map(|x| observables::from_iter(vec![x, x + 1].into_iter())),
    10 => o.ref_count().observable(),
    11 => o.replay().observable(),
    _ => {
      let o = o.clone();
      observables::defer(move || o.clone())
    }
  }
}

/// Every outcome the definition of combinator k allows for these events.
pub fn wants(k: i64, n: usize, evs: &[Ev]) -> Vec<Sq> {
  let w = reference(k, n, evs);
  let mut v = Vec::with_capacity(2);
  v.push(Sq::new(w.items.clone(), w.end));
  if w.alt == -2 {
    v.push(Sq::new(vec![0], COMPLETE));
  } else if w.alt >= 0 {
    v.push(Sq::new(w.items, w.alt));
  }
  v
}
pub fn any_of(r: &Rec, v: &[Sq]) -> bool {
  let mut ok = false;
  for q in v {
    ok |= r.is(q);
  }
  ok
}

/// What the source events said so far, in order, and per source.
#[derive(Clone)]
pub struct Trace(pub Sh<Vec<Ev>>);
impl Trace {
  pub fn new() -> Trace {
    Trace(Sh::new(Vec::with_capacity(32)))
  }
  pub fn push(&self, src: usize, kind: i64, v: i64) {
    self.0.m().push(Ev { src, kind, v, one: false });
  }
  pub fn push1(&self, src: usize, kind: i64, v: i64) {
    self.0.m().push(Ev { src, kind, v, one: true });
  }
  pub fn evs(&self) -> &[Ev] {
    &self.0.m()[..]
  }
  pub fn ended(&self, src: usize) -> bool {
    self.evs().iter().any(|e| e.src == src && e.kind != 0)
  }
}

/// A cold source playing q, each event traced just before it is sent.
pub fn traced(t: &Trace, src: usize, q: &Sq, polite: bool) -> Observable<'static, i64> {
  let (t, q) = (t.clone(), q.clone());
  Observable::create(move |s| {
    for x in q.items.iter() {
      if polite && !s.is_subscribed() {
        return;
      }
      t.push1(src, 0, *x);
      s.next(*x);
    }
    if polite && !s.is_subscribed() {
      return;
    }
    if q.end == COMPLETE {
      t.push1(src, 1, 0);
    } else if q.end >= ERR {
      t.push1(src, 2, q.end - ERR);
    }
    finish(&s, q.end);
  })
}

/// Any of the four subject types.
#[derive(Clone)]
pub enum AnySbj {
  S(subjects::Subject<'static, i64>),
  B(subjects::BehaviorSubject<'static, i64>),
  R(subjects::ReplaySubject<'static, i64>),
  A(subjects::AsyncSubject<'static, i64>),
}
impl AnySbj {
  pub fn new(k: i64) -> AnySbj {
    match k {
      0 => AnySbj::S(subjects::Subject::new()),
      1 => AnySbj::B(subjects::BehaviorSubject::new(9)),
      2 => AnySbj::R(subjects::ReplaySubject::new()),
      _ => AnySbj::A(subjects::AsyncSubject::new()),
    }
  }
  pub fn observable(&self) -> Observable<'static, i64> {
    match self {
      AnySbj::S(s) => s.observable(),
      AnySbj::B(s) => s.observable(),
      AnySbj::R(s) => s.observable(),
      AnySbj::A(s) => s.observable(),
    }
  }
  pub fn send(&self, k: i64, v: i64) {
    macro_rules! go {
      ($s:expr) => {
        match k {
          0 => $s.next(v),
          1 => $s.complete(),
          _ => $s.error(rxerr(v)),
        }
      };
    }
    match self {
      AnySbj::S(s) => go!(s),
      AnySbj::B(s) => go!(s),
      AnySbj::R(s) => go!(s),
      AnySbj::A(s) => go!(s),
    }
  }
}

