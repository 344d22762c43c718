//! C18 bounds: (seq) scripts of up to 4 symbolic items (thorough 5) and an ending over a
//! subject or a cold source, the future polled at every combination of positions, wakers that change, wakers that poll
//! inside wake(); (threads) the script emitted on another thread (1-3 items) while a
//! block_on loop with a Mutex/Condvar or a park-like flag polls, spuriously too, the future moved
//! to a thread of its own; through operators with threads of their own. All interleavings
//! at lock granularity; a lost wake-up shows as the polling thread waiting for ever.
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Condvar, Mutex, RwLock};
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
use vh::thr::*;
use vh::*;

type Fut = operators::ToVec<'static, i64>;

// ---- wakers -------------------------------------------------------------------------
/// What a waker does; kept alive for ever.
struct Wk {
  f: Box<dyn Fn() + Send + Sync>,
}
unsafe fn wclone(p: *const ()) -> RawWaker {
  RawWaker::new(p, &VT)
}
unsafe fn wwake(p: *const ()) {
  ((*(p as *const Wk)).f)();
}
unsafe fn wdrop(_p: *const ()) {}
static VT: RawWakerVTable = RawWakerVTable::new(wclone, wwake, wwake, wdrop);

fn waker<F: Fn() + Send + Sync + 'static>(f: F) -> Waker {
  let b = Box::leak(Box::new(Wk { f: Box::new(f) }));
  unsafe { Waker::from_raw(RawWaker::new(b as *const Wk as *const (), &VT)) }
}
fn poll(f: &mut Fut, w: &Waker) -> Poll<Result<Arc<RwLock<Vec<i64>>>, RxError>> {
  Pin::new(f).poll(&mut Context::from_waker(w))
}
fn future(o: Observable<'static, i64>) -> Fut {
  let o: &'static Observable<'static, i64> = Box::leak(Box::new(o));
  o.to_vec()
}

// ---- one thread ---------------------------------------------------------------------
fn judge(p: Poll<Result<Arc<RwLock<Vec<i64>>>, RxError>>, got: &[i64], end: i64) {
  match p {
    Poll::Pending => check(end == 0, "pending though the source has terminated"),
    Poll::Ready(Ok(v)) => {
      check(end == COMPLETE, "resolved with Ok though the source has not completed");
      let v = v.read().unwrap();
      check(v.len() == got.len(), "resolved with a different number of items");
      for i in 0..got.len() {
        check(v[i] == got[i], "resolved with different items");
      }
      cover("ok");
    }
    Poll::Ready(Err(e)) => {
      check(end >= ERR && errcode(&e) == end - ERR, "resolved with an error the source did not raise");
      cover("err");
    }
  }
}

//@ shards=4 cover=ok,err,end key=2 cost=3
#[no_mangle]
pub extern "C" fn h_c18_seq() {
  let n = pick(0, if cfg!(thorough) { 5 } else { 4 });
  let end = pick(0, 2);
  let s = subjects::Subject::new();
  let mut f = future(s.observable());
  let woken = Sh::new([0i64; 2]);
  let (w0, w1) = (woken.clone(), woken.clone());
  let ws = [waker(move || w0.m()[0] += 1), waker(move || w1.m()[1] += 1)];
  let mut got = vec![];
  let mut last = 2; // the waker of the last poll
  for i in 0..=n {
    let p = choose(0, 2);
    if p > 0 {
      judge(poll(&mut f, &ws[p as usize - 1]), &got, 0);
      last = p as usize - 1;
    }
    if i < n {
      let v = item();
      s.next(v);
      got.push(v);
    }
  }
  check(woken.m()[0] == 0 || last < 2, "woken though nobody has polled");
  let before = *woken.m();
  match end {
    0 => {}
    1 => s.complete(),
    _ => s.error(rxerr(7)),
  }
  if end > 0 && last < 2 {
    check(woken.m()[last] > before[last], "the waker of the last poll was not woken");
  }
  // a terminated source says nothing more
  if end > 0 {
    s.next(77);
    s.complete();
    s.error(rxerr(3));
  }
  judge(poll(&mut f, &ws[0]), &got, if end == 2 { ERR + 7 } else { end });
  cover("end");
}

//@ cover=ok,err,end cost=1
#[no_mangle]
pub extern "C" fn h_c18_cold() {
  let q = script(if cfg!(thorough) { 5 } else { 4 }, 9);
  let k = pick(0, 3);
  let o = match k {
    0 => cold(&q),
    1 => cold(&q).map(|x| x),
    2 => cold(&q).merge(&[cold(&Sq::new(vec![], COMPLETE))]),
    _ => cold(&q).concat(&[cold(&Sq::new(vec![], COMPLETE))]),
  };
  let mut f = future(o);
  let w = waker(|| check(false, "woken after having resolved"));
  judge(poll(&mut f, &w), &q.items, q.end);
  cover("end");
}

/// an executor that polls inside wake()
//@ cover=end,ok,err cost=1
#[no_mangle]
pub extern "C" fn h_c18_inline() {
  let n = pick(0, 2);
  let end = pick(1, 2);
  let s = subjects::Subject::new();
  let f = Sh::new(future(s.observable()));
  let idle_w = waker(|| {});
  let got = Sh::new(vec![]);
  let (f2, g2) = (f.clone(), got.clone());
  let w = waker(move || {
    judge(poll(f2.m(), &idle_w), g2.m(), if end == 2 { ERR + 7 } else { end });
    cover("end");
  });
  judge(poll(f.m(), &w), got.m(), 0);
  for _ in 0..n {
    let v = item();
    got.m().push(v);
    s.next(v);
  }
  if end == 1 {
    s.complete()
  } else {
    s.error(rxerr(7))
  }
}

// ---- threads ------------------------------------------------------------------------
const READY: i64 = 30; // (how, items encoded)
const EARLY: &str = "@viol resolved before the source had terminated: r=30(*,*) !4(1,1000)<r";
const WRONG: &str = "@viol resolved with the wrong items: r=31(*,0)";
const NEVER: &str = "@viol never resolved: e=5(1,1000) !30(*,*)";

fn props() {
  prop("@strict");
  prop(EARLY);
  prop(WRONG);
  prop(NEVER);
}
fn ready(r: Result<Arc<RwLock<Vec<i64>>>, RxError>, n: i64, end: i64) {
  mark(READY, end, 0);
  let ok = match r {
    Ok(v) => {
      let v = v.read().unwrap();
      let mut ok = end == 1 && v.len() as i64 == n;
      for i in 0..v.len() {
        ok = ok && v[i] == 11 + i as i64;
      }
      ok
    }
    Err(e) => end == 2 && errcode(&e) == 7,
  };
  mark(31, end, ok as i64);
}
/// how: 0 one waker, 1 a new waker for every poll, 2 polls once more without being woken
fn block_on(mut f: Fut, how: i64, n: i64, end: i64) {
  let sig = Arc::new((Mutex::new(0i64), Condvar::new()));
  let mk = |k: i64| {
    let sig = sig.clone();
    waker(move || {
      let mut g = sig.0.lock().unwrap();
      // only the waker of the last poll counts
      if *g == k {
        *g = -1;
        sig.1.notify_all();
      }
    })
  };
  let mut k = 0;
  let mut w = mk(0);
  loop {
    if let Poll::Ready(r) = poll(&mut f, &w) {
      ready(r, n, end);
      return;
    }
    if how > 0 && k < 1 {
      k += 1;
      if how == 1 {
        *sig.0.lock().unwrap() = k;
        w = mk(k);
      }
      continue;
    }
    let mut g = sig.0.lock().unwrap();
    while *g != -1 {
      g = sig.1.wait(g).unwrap();
    }
    *g = k;
    if how != 1 {
      *g = 0;
    }
  }
}
fn emitter(s: &subjects::Subject<'static, i64>, n: i64, end: i64) {
  for x in 1..=n {
    mark(EMIT, 1, 10 + x);
    s.next(10 + x);
  }
  mark(EMIT, 1, 1000);
  match end {
    1 => s.complete(),
    _ => s.error(rxerr(7)),
  }
  mark(EMITTED, 1, 1000);
}

//@ mode=conc shards=8 cost=5 cover=conc
#[no_mangle]
pub extern "C" fn h_c18_conc() {
  let n = pick(0, if cfg!(thorough) { 4 } else { 3 });
  let end = pick(1, 2);
  let how = pick(0, 2);
  props();
  cover("conc");
  concurrent();
  let s = subjects::Subject::new();
  let f = future(s.observable());
  th(move || emitter(&s, n, end));
  block_on(f, how, n, end);
}

/// the source starts its thread on subscription, which to_vec() makes; operators between
//@ mode=conc shards=8 cost=5 cover=cold
#[no_mangle]
pub extern "C" fn h_c18_thread() {
  let k = pick(0, 7);
  let n = pick(0, if cfg!(thorough) { 3 } else { 2 });
  let end = pick(1, 2);
  props();
  cover("cold");
  concurrent();
  let o = Observable::create(move |s: Observer<'static, i64>| {
    th(move || {
      for x in 1..=n {
        mark(EMIT, 1, 10 + x);
        s.next(10 + x);
      }
      mark(EMIT, 1, 1000);
      if end == 1 {
        s.complete()
      } else {
        s.error(rxerr(7))
      }
      mark(EMITTED, 1, 1000);
    });
  });
  let o = match k {
    0 => o,
    1 => o.map(|x| x),
    2 => o.observe_on(schedulers::default_scheduler()),
    3 => o.subscribe_on(schedulers::default_scheduler()),
    4 => o.merge(&[observables::empty()]),
    5 => o.ref_count().observable(),
    6 => o.replay().observable(),
    _ => o.buffer_with_count(1).map(|v| v[0]),
  };
  block_on(future(o), 0, n, end);
}

/// the future is moved to a thread that polls it; the main thread emits
//@ mode=conc shards=4 cost=3 cover=moved
#[no_mangle]
pub extern "C" fn h_c18_moved() {
  let n = pick(0, 2);
  let end = pick(1, 2);
  let early = pick(0, 1) == 1; // polled once before it is moved
  props();
  cover("moved");
  concurrent();
  let s = subjects::Subject::new();
  let mut f = future(s.observable());
  if early {
    let w = waker(|| {});
    if let Poll::Ready(_) = poll(&mut f, &w) {
      mark(31, 9, 0);
    }
  }
  th(move || block_on(f, 0, n, end));
  emitter(&s, n, end);
}
