//! Vocabulary of the concurrent harnesses. After `concurrent()` the program only talks
//! through marks; properties over marks are stated before it (see engine/src/conc.rs).
use crate::*;

pub const ITEM: i64 = 1; // (observer, value)
pub const TERM: i64 = 2; // (observer, terminal) when the callback starts
pub const RET: i64 = 3; // (observer, terminal) when the terminal callback returns
pub const EMIT: i64 = 4; // (source, value) before the source emits; terminals as value 1000+end
pub const EMITTED: i64 = 5;
pub const UNSUBD: i64 = 6; // (observer, 0) unsubscribe returned
pub const UNSUB: i64 = 7;
pub const SUBD: i64 = 8; // (observer, 0) subscribe returned
pub const SUB: i64 = 9;
pub const POST: i64 = 10; // (task, poster)
pub const POSTED: i64 = 11;
pub const RUN: i64 = 12; // (task, 0) task starts
pub const RAN: i64 = 13;
pub const ABORT: i64 = 14;
pub const ABORTED: i64 = 15;
pub const IRET: i64 = 16; // (observer, value) next callback returns

/// A property over marks: "@viol NAME: atoms", "@exit", "@strict".
pub fn prop(s: &'static str) {
  log(s, 0)
}

pub fn watch(o: &Observable<'static, i64>, id: i64) -> Subscription<'static> {
  o.subscribe(
    move |x| mark(ITEM, id, x),
    move |e| {
      mark(TERM, id, ERR);
      mark(RET, id, ERR);
    },
    move || {
      mark(TERM, id, COMPLETE);
      mark(RET, id, COMPLETE);
    },
  )
}
/// Like watch, with a mark at the return of the item callback too.
pub fn watch2(o: &Observable<'static, i64>, id: i64) -> Subscription<'static> {
  o.subscribe(
    move |x| {
      mark(ITEM, id, x);
      mark(IRET, id, x);
    },
    move |e| {
      mark(TERM, id, ERR);
      mark(RET, id, ERR);
    },
    move || {
      mark(TERM, id, COMPLETE);
      mark(RET, id, COMPLETE);
    },
  )
}
/// Runs f on a new thread.
pub fn th<F: FnOnce() + Send + 'static>(f: F) -> std::thread::JoinHandle<()> {
  std::thread::spawn(f)
}

/// A hot source: raw observers kept by a subject, driven from one thread.
pub fn emits(s: &subjects::Subject<'static, i64>, p: i64, n: i64, end: i64) {
  for k in 1..=n {
    mark(EMIT, p, 10 * p + k);
    s.next(10 * p + k);
  }
  finish_s(s, p, end);
}
pub fn finish_s(s: &subjects::Subject<'static, i64>, p: i64, end: i64) {
  if end > 0 {
    mark(EMIT, p, 1000 + end);
    match end {
      1 => s.complete(),
      _ => s.error(rxerr(7)),
    }
  }
}
/// As emits, on a new thread.
pub fn driver(s: &subjects::Subject<'static, i64>, p: i64, n: i64, end: i64) -> std::thread::JoinHandle<()> {
  let s = s.clone();
  th(move || emits(&s, p, n, end))
}

/// Operators with one source beyond the catalogue, without state of their own outside locks.
pub const NMORE: i64 = 16;
pub fn more(k: i64, o: &Observable<'static, i64>) -> Observable<'static, i64> {
  match k {
    0 => o.retry(2),
    1 => o.retry_when(|_| false),
    2 => o.on_error_resume_next(|_| observables::from_iter(vec![70i64, 71].into_iter())),
    3 => o.timestamp().map(|x| x.1),
    4 => o.time_interval().map(|_| 4),
    5 => o.delay(dur(1)),
    6 => o.observe_on(schedulers::default_scheduler()),
    7 => o.subscribe_on(schedulers::default_scheduler()),
    8 => utils::ready_set_go(|| {}, o.clone()),
    9 => o.flat_map(|x| observables::from_iter(vec![x, x + 1].into_iter())),
    10 => o.ref_count().observable(),
    11 => o.replay().observable(),
    12 => {
      let p = o.publish();
      let c = p.connect();
      std::mem::forget(c);
      p.observable()
    }
    13 => o.map(|x| x).filter(|_| true).tap(|_| {}, |_| {}, || {}),
    14 => o.take(2).skip(0).distinct_until_changed(),
    _ => {
      let o = o.clone();
      observables::defer(move || o.clone())
    }
  }
}
/// Every operator with one source: the catalogue with a fixed parameter, then `more`.
pub const NONE_SRC: i64 = cat::NOPS + NMORE;
pub fn one(k: i64, o: &Observable<'static, i64>) -> Observable<'static, i64> {
  if k < cat::NOPS {
    let p = match k {
      cat::FILTER | cat::TAKE_WHILE | cat::SKIP_WHILE | cat::ALL => 0,
      cat::TAKE | cat::TAKE_LAST | cat::SKIP | cat::SKIP_LAST | cat::BUFFER | cat::WINDOW => 1,
      _ => 0,
    };
    cat::apply(k, p, o)
  } else {
    more(k - cat::NOPS, o)
  }
}
