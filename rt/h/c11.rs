//! merge, flat_map, zip, concat, amb and take behind merge over 2 inputs (thorough 3) that
//! each emit 1-2 items and complete on a thread of their own (a cold source that starts a
//! thread on subscription, or subjects driven by producer threads), in every combination of
//! item counts; also inputs of which one fails (only: at most one terminal) and inputs that
//! go through observe_on (h_c11_sched). All interleavings at lock granularity.
use vh::multi::*;
use vh::thr::*;
use vh::*;

const LOST: &str = "@viol an item was lost: e=4(*,v) !1(1,v)";
const DUP: &str = "@viol an item arrived twice: i=1(1,v) j=1(1,v) i!=j";
const ORDER: &str = "@viol items of one input were reordered: e=4(p,v) f=4(p,w) i=1(1,v) j=1(1,w) e<f j<i";
const ALIEN: &str = "@viol an item that no input emitted: i=1(1,v) !4(*,v)<i";
const TDUP: &str = "@viol two terminals: i=2(1,*) j=2(1,*) i!=j";
const TFIRST: &str = "@viol an item after the terminal: i=2(1,*) j=1(1,*) i<j";
const TLOST: &str = "@viol all inputs completed but the subscriber got no complete: e=10(0,0) !2(1,1)";
const TERR: &str = "@viol an error nobody raised: i=2(1,2)";
const EARLY: &str = "@viol complete before an input had completed: t=2(1,1) e=10(p,7) t<e";

fn emit(p: i64, n: i64, end: i64, next: &dyn Fn(i64), fin: &dyn Fn(i64)) {
  for k in 1..=n {
    mark(EMIT, p, 10 * p + k);
    next(10 * p + k);
  }
  if end > 0 {
    mark(POST, p, 7);
    fin(end);
  }
}
/// Emits on a new thread per subscription.
fn threaded(p: i64, n: i64, end: i64) -> Observable<'static, i64> {
  Observable::create(move |s: Observer<'static, i64>| {
    th(move || emit(p, n, end, &|x| s.next(x), &|e| finish(&s, e)));
  })
}
fn driven(s: &subjects::Subject<'static, i64>, p: i64, n: i64, end: i64) {
  let s = s.clone();
  th(move || {
    emit(p, n, end, &|x| s.next(x), &|e| match e {
      1 => s.complete(),
      _ => s.error(rxerr(7)),
    })
  });
}
fn conserve() {
  prop(LOST);
  prop(DUP);
  prop(ORDER);
  prop(ALIEN);
  once();
  prop(TLOST);
  prop(TERR);
  prop(EARLY);
}
fn once() {
  prop(TDUP);
  prop(TFIRST);
}
/// Where an item may be under way while somebody else ends the subscription.
fn once_lenient() {
  prop(TDUP);
  prop("@viol an item emitted after the terminal callback had returned was delivered: t=3(1,*) e=4(*,v) i=1(1,v) t<e");
}

/// merge, flat_map, concat of inputs with threads of their own
//@ mode=conc shards=8 cost=5 cover=conserve
#[no_mangle]
pub extern "C" fn h_c11_conserve() {
  let k = [MERGE, FLAT_MAP, CONCAT][pick(0, 2) as usize];
  let m = pick(2, 3);
  let (n1, n2) = (pick(0, 2), pick(0, 2));
  let n3 = if m == 3 { pick(0, 1) } else { 0 };
  assume(n1 + n2 + n3 <= if cfg!(thorough) { 4 } else if m == 3 { 2 } else { 3 });
  conserve();
  cover("conserve");
  concurrent();
  mark(POST, 0, 0);
  let mut v = vec![threaded(1, n1, 1), threaded(2, n2, 1)];
  if m == 3 {
    v.push(threaded(3, n3, 1));
  }
  let o = match k {
    MERGE => v[0].merge(&v[1..]),
    CONCAT => v[0].concat(&v[1..]),
    _ => observables::from_iter(0..m).flat_map(move |i| v[i as usize].clone()),
  };
  watch(&o, 1);
}

/// flat_map whose outer source has a thread too
//@ mode=conc shards=4 cost=5 cover=outer
#[no_mangle]
pub extern "C" fn h_c11_outer() {
  let (n1, n2) = (pick(0, 1), pick(0, 2));
  let m = pick(1, 2);
  conserve();
  cover("outer");
  concurrent();
  mark(POST, 0, 0);
  let outer = Observable::create(move |s: Observer<'static, i64>| {
    th(move || {
      for k in 0..m {
        s.next(k);
      }
      s.complete();
    });
  });
  let o = outer.flat_map(move |i| threaded(i + 1, if i == 0 { n1 } else { n2 }, 1));
  watch(&o, 1);
}

/// flat_map of what two threads emit at once; every inner observable is cold or ends on a
/// thread of its own
//@ mode=conc shards=6 cost=6 cover=cross
#[no_mangle]
pub extern "C" fn h_c11_cross() {
  let how = pick(0, 1);
  let inner = pick(0, 1);
  let (n1, n2) = (1, pick(1, 2));
  assume(inner == 0 || n2 == 1);
  conserve();
  cover("cross");
  concurrent();
  mark(POST, 0, 0);
  let f = move |v: i64| {
    if inner == 0 {
      return observables::just(v);
    }
    Observable::create(move |s: Observer<'static, i64>| {
      th(move || {
        s.next(v);
        s.complete();
      });
    })
  };
  if how == 0 {
    let o = threaded(1, n1, 1).merge(&[threaded(2, n2, 1)]).flat_map(f);
    watch(&o, 1);
  } else {
    let (a, b) = (subjects::Subject::new(), subjects::Subject::new());
    watch(&a.observable().merge(&[b.observable()]).flat_map(f), 1);
    driven(&a, 1, n1, 1);
    driven(&b, 2, n2, 1);
  }
}

/// subjects under merge
//@ mode=conc shards=4 cost=5 cover=subj
#[no_mangle]
pub extern "C" fn h_c11_subjects() {
  let (n1, n2) = (pick(0, 2), pick(0, 2));
  assume(cfg!(thorough) || n1 + n2 < 4);
  conserve();
  cover("subj");
  concurrent();
  mark(POST, 0, 0);
  let (a, b) = (subjects::Subject::new(), subjects::Subject::new());
  watch(&a.observable().merge(&[b.observable()]), 1);
  driven(&a, 1, n1, 1);
  driven(&b, 2, n2, 1);
}

//@ mode=conc shards=8 cost=8 cover=zip
#[no_mangle]
pub extern "C" fn h_c11_zip() {
  let (n1, n2) = (pick(0, 2), pick(0, 2));
  let hot = pick(0, 1);
  assume(cfg!(thorough) || n1 + n2 < 4 || hot == 1);
  prop("@viol zip lost the first tuple: e=4(1,11) f=4(2,21) !1(1,1)");
  prop("@viol zip lost the second tuple: e=4(1,12) f=4(2,22) !1(1,2)");
  prop("@viol zip emitted a wrong tuple: i=1(1,0)");
  prop(DUP);
  once();
  prop(TLOST);
  prop(TERR);
  cover("zip");
  concurrent();
  mark(POST, 0, 0);
  let code = |v: Vec<i64>| {
    if v.len() == 2 && v[0] == 11 && v[1] == 21 {
      1
    } else if v.len() == 2 && v[0] == 12 && v[1] == 22 {
      2
    } else {
      0
    }
  };
  if hot == 1 {
    let (a, b) = (subjects::Subject::new(), subjects::Subject::new());
    watch(&a.observable().zip(&[b.observable()]).map(code), 1);
    driven(&a, 1, n1, 1);
    driven(&b, 2, n2, 1);
  } else {
    watch(&threaded(1, n1, 1).zip(&[threaded(2, n2, 1)]).map(code), 1);
  }
}

/// three inputs, one item each
//@ mode=conc shards=2 cost=5 cover=zip3
#[no_mangle]
pub extern "C" fn h_c11_zip3() {
  let n3 = pick(0, 1);
  prop("@viol zip lost the tuple: e=4(3,31) !1(1,1)");
  prop("@viol zip emitted a wrong tuple: i=1(1,0)");
  prop(DUP);
  once();
  prop(TLOST);
  prop(TERR);
  cover("zip3");
  concurrent();
  mark(POST, 0, 0);
  let code = |v: Vec<i64>| (v.len() == 3 && v[0] == 11 && v[1] == 21 && v[2] == 31) as i64;
  watch(&threaded(1, 1, 1).zip(&[threaded(2, 1, 1), threaded(3, n3, 1)]).map(code), 1);
}

//@ mode=conc shards=8 cost=5 cover=amb
#[no_mangle]
pub extern "C" fn h_c11_amb() {
  let m = if cfg!(thorough) { pick(2, 3) } else { 2 };
  let (n1, n2) = (pick(0, 2), pick(0, 2));
  let hot = pick(0, 1);
  prop("@viol amb let two inputs through: e=4(a,v) f=4(b,w) i=1(1,v) j=1(1,w) $a!=$b");
  prop("@viol amb lost an item of the winner: e=4(a,v) f=4(a,w) i=1(1,v) !1(1,w)");
  prop(ORDER);
  prop(DUP);
  prop(ALIEN);
  once();
  prop(TLOST);
  prop(TERR);
  if n1 > 0 && n2 > 0 {
    prop("@viol amb let nobody through: e=10(0,0) !1(1,*)");
  }
  cover("amb");
  concurrent();
  mark(POST, 0, 0);
  if hot == 1 {
    let (a, b) = (subjects::Subject::new(), subjects::Subject::new());
    watch(&a.observable().amb(&[b.observable()]), 1);
    driven(&a, 1, n1, 1);
    driven(&b, 2, n2, 1);
    if m == 3 {
      mark(POST, 3, 7);
    }
  } else {
    let mut v = vec![threaded(2, n2, 1)];
    if m == 3 {
      v.push(threaded(3, 1, 1));
    }
    watch(&threaded(1, n1, 1).amb(&v), 1);
  }
}

/// take behind merge, or on a subject several threads emit into
//@ mode=conc shards=6 cost=5 cover=take
#[no_mangle]
pub extern "C" fn h_c11_take() {
  let t = pick(1, 2);
  let k = pick(0, 2);
  let (n1, n2) = (pick(1, 2), pick(1, 2));
  assume(cfg!(thorough) || n1 + n2 < 4);
  once_lenient();
  prop(DUP);
  prop(ALIEN);
  if t == 1 {
    prop("@viol take(1) delivered two items: i=1(1,v) j=1(1,w) i!=j");
  } else {
    prop("@viol take(2) delivered three items: i=1(1,u) j=1(1,v) k=1(1,w) i!=j j!=k i!=k");
  }
  cover("take");
  concurrent();
  match k {
    0 => {
      let (a, b) = (subjects::Subject::new(), subjects::Subject::new());
      watch(&a.observable().merge(&[b.observable()]).take(t as usize), 1);
      driven(&a, 1, n1, 1);
      driven(&b, 2, n2, 1);
    }
    1 => {
      let a = subjects::Subject::new();
      watch(&a.observable().take(t as usize), 1);
      driven(&a, 1, n1, 0);
      driven(&a, 2, n2, 0);
    }
    _ => {
      let a = subjects::Subject::new();
      watch(&a.observable().map(|x| x).take(t as usize).map(|x| x), 1);
      driven(&a, 1, n1, 1);
      driven(&a, 2, n2, 0);
    }
  }
}

/// inputs that fail: still at most one terminal
//@ mode=conc shards=6 cost=5 cover=fail
#[no_mangle]
pub extern "C" fn h_c11_fail() {
  let k = [MERGE, FLAT_MAP, CONCAT, ZIP, AMB][pick(0, 4) as usize];
  let (e1, e2) = (pick(1, 2), pick(1, 2));
  assume(e1 + e2 > 2);
  let n1 = pick(0, 1);
  once_lenient();
  prop(DUP);
  cover("fail");
  concurrent();
  let v = vec![threaded(1, n1, e1), threaded(2, 1, e2)];
  let o = match k {
    FLAT_MAP => observables::from_iter(0..2).flat_map(move |i| v[i as usize].clone()),
    k => build(k, &v),
  };
  watch(&o, 1);
}

/// inputs behind observe_on
//@ mode=conc shards=3 cost=9 cover=sched
#[no_mangle]
pub extern "C" fn h_c11_sched() {
  let k = [MERGE, ZIP, AMB][pick(!cfg!(thorough) as i64, 2) as usize];
  let n = if cfg!(thorough) { pick(1, 2) } else { 1 };
  once();
  prop(DUP);
  prop(TERR);
  prop(TLOST);
  if k == MERGE {
    prop(LOST);
    prop(ORDER);
  }
  if k == ZIP {
    prop("@viol zip lost the first tuple: e=4(1,11) f=4(2,21) !1(1,*)");
  }
  cover("sched");
  concurrent();
  mark(POST, 0, 0);
  let src = |p: i64| {
    Observable::create(move |s: Observer<'static, i64>| emit(p, n, 1, &|x| s.next(x), &|e| finish(&s, e)))
      .observe_on(schedulers::new_thread_scheduler())
  };
  watch(&build(k, &[src(1), src(2)]), 1);
}
