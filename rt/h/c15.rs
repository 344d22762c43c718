//! C15 bounds: (virtual time, symbolic periods and gaps) source (subject, cold, interval,
//! timer) x one or two of 19 operators that start threads or end early x the end (complete,
//! error, unsubscribe at a symbolic time, take(1), first, take_until, amb, retry below), then
//! one period later no thread may be left; 2-3 subscriptions one after the other (h_c15_*).
//! (threads, time left open) the same operators with source, subscriber and timers on
//! threads of their own: every thread ends, and none begins two sleeps after the end of the
//! subscription (h_c15c_*). All interleavings at lock granularity.
use vh::thr::*;
use vh::timed::*;
use vh::*;

/// Ends that come from below.
const NLOW: i64 = 6;
fn low(k: i64, o: &Observable<'static, i64>, stop: &subjects::Subject<'static, i64>) -> Observable<'static, i64> {
  match k {
    0 => o.clone(),
    1 => o.take(1),
    2 => o.first(),
    3 => o.take_until(stop.observable()),
    4 => o.amb(&[stop.observable()]),
    _ => o.map(|x| x).take(2).retry(2),
  }
}
fn source(k: i64, s: &subjects::Subject<'static, i64>, d: i64) -> Observable<'static, i64> {
  match k {
    0 => s.observable(),
    1 => cold(&Sq::new(vec![1, 2], COMPLETE)),
    2 => fails(),
    3 => every(d),
    4 => after(d),
    _ => {
      let s = s.clone();
      // a cold source on the subject's items
      observables::defer(move || s.observable())
    }
  }
}

/// Subscribes, lets things happen, ends the subscription, waits a period and counts threads.
fn life(o: &Observable<'static, i64>, s: &subjects::Subject<'static, i64>, stop: &subjects::Subject<'static, i64>, hot: bool, stops: bool, d: i64, p: i64, steps: i64) {
  let r = Rec::new();
  let h = r.sub(o);
  for _ in 0..steps {
    let g = sym(1, 25);
    sleep_ns(g);
    let e = choose(0, 1 + 2 * hot as i64 + stops as i64);
    match e {
      0 => {}
      1 => h.unsubscribe(),
      2 if hot => s.next(6),
      3 if hot => {
        if choose(0, 1) == 0 {
          s.complete()
        } else {
          s.error(rxerr(3))
        }
      }
      _ => stop.next(9),
    }
    // ended: nothing else needs to happen
    if r.d().nterm > 0 || !h.is_subscribed() {
      break;
    }
  }
  if r.d().nterm == 0 {
    h.unsubscribe();
    cover("unsubscribed");
  } else {
    cover("terminal");
  }
  let m = if d > p { d } else { p };
  sleep_ns(m + 1);
  idle();
  check(threads_live() == 0, "a worker thread outlives its subscription");
  cover("end");
}

//@ shards=16 cost=6 key=3 cover=end,terminal,unsubscribed
#[no_mangle]
pub extern "C" fn h_c15_one() {
  let k = pick(0, NTOP - 1);
  let src = pick(0, 4);
  let end = pick(0, NLOW - 1);
  let (d, p) = (sym(20, 30), sym(20, 30));
  let (s, stop) = (subjects::Subject::new(), subjects::Subject::new());
  let o = low(end, &top(k, &source(src, &s, d), p), &stop);
  life(&o, &s, &stop, src == 0, end == 3 || end == 4, d, p, if cfg!(thorough) { 3 } else { 2 });
}

//@ shards=16 tshards=16 cost=7 key=2 cover=end,terminal,unsubscribed
#[no_mangle]
pub extern "C" fn h_c15_two() {
  let c = pick(0, NTOP * NTOP - 1);
  let (k1, k2) = (c % NTOP, c / NTOP);
  let src = if cfg!(thorough) { pick(0, 4) } else { pick(0, 1) * 3 };
  let end = if cfg!(thorough) { pick(0, 4) } else { pick(0, 1) };
  let (d, p) = (sym(20, 30), sym(20, 30));
  let (s, stop) = (subjects::Subject::new(), subjects::Subject::new());
  let o = low(end, &top(k2, &top(k1, &source(src, &s, d), p), p), &stop);
  life(&o, &s, &stop, src == 0, end == 3 || end == 4, d, p, if cfg!(thorough) { 2 } else { 1 });
}

/// subscriptions one after the other do not pile up threads
//@ shards=4 cost=3 key=2 cover=end
#[no_mangle]
pub extern "C" fn h_c15_again() {
  let k = pick(0, NTOP - 1);
  let src = pick(0, 4);
  let n = if cfg!(thorough) { 4 } else { 3 };
  let (d, p) = (10, 7);
  for i in 0..n {
    let (s, stop) = (subjects::Subject::new(), subjects::Subject::new());
    let o = top(k, &source(src, &s, d), p);
    life(&o, &s, &stop, src == 0, false, d, p, 1);
    log("round", i);
  }
}

// ---- threads, time left open ---------------------------------------------------------
// once everybody else has ended or sleeps for good, a worker begins no second sleep
const NAP: &str = "@viol a worker sleeps on and on after its subscription has ended: e=41(*,*) y=40(*,*) z=40(*,*) e<y y<z y~z ^y";
const NAPT: &str = "@viol a worker sleeps on and on after the terminal: e=3(1,*) y=40(*,*) z=40(*,*) e<y y<z y~z ^y";
const END: i64 = 41;

fn props() {
  prop("@exit-awake");
  prop(NAP);
  prop(NAPT);
  std::thread::__mark_sleeps();
}

//@ mode=conc shards=16 cost=6 cover=timers
#[no_mangle]
pub extern "C" fn h_c15c_timers() {
  let k = pick(0, 11);
  props();
  cover("timers");
  concurrent();
  let o = match k {
    0 => every(1),
    1 => every(1).take(1),
    2 => every(1).take(2),
    3 => after(1),
    4 => every(1).take_until(after(1)),
    5 => every(1).amb(&[after(1)]),
    6 => every(1).merge(&[after(1)]).first(),
    7 => after(1).timeout(dur(1), nts()),
    8 => every(1).first().observe_on(nts()),
    9 => after(1).flat_map(|_| every(1)).take(1),
    10 => after(1).concat(&[after(1)]),
    _ => every(1).sample(after(1)).take(1),
  };
  let h = watch(&o, 1);
  // those that never end by themselves
  if k == 0 || k == 11 {
    h.unsubscribe();
    mark(END, 0, 0);
  }
}

//@ mode=conc shards=16 cost=6 cover=driven
#[no_mangle]
pub extern "C" fn h_c15c_driven() {
  let k = pick(0, NTOP - 1);
  let end = pick(0, 2); // by unsubscribe, complete, error
  let n = if matches!(k, 4 | 7 | 8 | 10 | 11 | 14 | 15) && !cfg!(thorough) { 0 } else { 1 };
  props();
  cover("driven");
  concurrent();
  let s = subjects::Subject::new();
  let h = watch(&top(k, &s.observable(), 1), 1);
  if end == 0 {
    driver(&s, 1, n, 0);
    h.unsubscribe();
    mark(END, 0, 0);
  } else {
    emits(&s, 1, n, end);
    if k == 0 || k == 2 || k == 3 || k > 16 {
      mark(END, 1, 0);
    }
    // what completion of one input does not end
    if matches!(k, 1 | 4 | 5 | 6 | 7 | 8 | 9 | 10 | 11 | 12 | 13 | 14 | 15 | 16 | 17 | 18) {
      h.unsubscribe();
      mark(END, 0, 0);
    }
  }
}

/// a cold source behind two thread-starting operators, ended from below
//@ mode=conc shards=16 cost=6 cover=cold
#[no_mangle]
pub extern "C" fn h_c15c_cold() {
  let k = pick(0, 9);
  let how = pick(0, 2);
  props();
  cover("cold");
  concurrent();
  let c = cold(&Sq::new(vec![1, 2], COMPLETE));
  let o = match k {
    0 => c.subscribe_on(nts()),
    1 => c.observe_on(nts()),
    2 => c.subscribe_on(nts()).observe_on(nts()),
    3 => c.observe_on(nts()).observe_on(nts()),
    4 => c.subscribe_on(nts()).subscribe_on(nts()),
    5 => fails().observe_on(nts()).retry(2),
    6 => fails().subscribe_on(nts()).retry(2),
    7 => c.timeout(dur(1), nts()),
    8 => c.debounce(dur(1), nts()),
    _ => c.observe_on(nts()).concat(&[cold(&Sq::new(vec![3], COMPLETE)).subscribe_on(nts())]),
  };
  let how = if matches!(k, 2 | 3) && how == 2 && !cfg!(thorough) { 0 } else { how };
  let o = match how {
    0 => o,
    1 => o.take(1),
    _ => o,
  };
  let h = watch(&o, 1);
  if how == 2 {
    h.unsubscribe();
    mark(END, 0, 0);
  }
}
