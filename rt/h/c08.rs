//! NewThreadScheduler: 1-3 poster threads (the main thread included) with up to 3 tasks
//! (thorough 4) altogether, tasks that post further tasks, and abort by nobody, by the main
//! thread after its posts, by a thread of its own, from inside a task, or twice; the
//! default scheduler. All interleavings at lock granularity of posters, aborter and worker.
use schedulers::IScheduler;
use vh::thr::*;
use vh::*;

const ONCE: &str = "@viol a task ran twice: i=12(v,*) j=12(v,*) i!=j";
const FIFO: &str = "@viol tasks ran out of order: p=11(v,*) q=10(w,*) r=12(v,*) s=12(w,*) p<q s<r";
const SKIP: &str = "@viol a task was skipped: p=11(v,*) q=10(w,*) s=12(w,*) p<q !12(v,*)<s";
const OVER: &str = "@viol two tasks ran at once: r=12(v,*) s=12(w,*) e=13(v,*) r<s s<e";
const SAME: &str = "@viol tasks ran on different threads: r=12(*,*) s=12(*,*) r!~s";
const OWN: &str = "@viol a task ran on a posting thread: r=12(*,*) p=10(*,0) r~p";
const ALL: &str = "@viol a posted task never ran: p=10(v,*) !12(v,*)";
const LATE: &str = "@viol a task posted after abort had returned ran: a=15(*,*) p=10(v,*) r=12(v,*) a<p";
const ONE: &str = "@viol two tasks started after abort had returned: a=15(*,*) r=12(v,*) s=12(w,*) a<r r<s";
const INS: &str = "@viol a task started after an abort from inside a task: a=15(1,*) r=12(*,*) a<r";

type Sch = schedulers::NewThreadScheduler<'static>;

/// what: 0 plain, 1 posts task 9, 2 aborts, 3 posts task 9 and aborts, 4 aborts, then posts task 9
fn post(s: &Sch, k: i64, what: i64) {
  mark(POST, k, 0);
  let s2 = s.clone();
  s.post(move || {
    mark(RUN, k, 0);
    if what == 4 {
      s2.abort();
      mark(ABORTED, 1, 0);
    }
    if what == 1 || what == 3 || what == 4 {
      mark(POST, 9, 1);
      s2.post(move || {
        mark(RUN, 9, 0);
        mark(RAN, 9, 0);
      });
      mark(POSTED, 9, 1);
    }
    if what == 2 || what == 3 {
      s2.abort();
      mark(ABORTED, 1, 0);
    }
    mark(RAN, k, 0);
  });
  mark(POSTED, k, 0);
}
fn common() {
  prop(ONCE);
  prop(FIFO);
  prop(SKIP);
  prop(OVER);
  prop(SAME);
  prop(OWN);
}
fn make() -> Sch {
  schedulers::new_thread_scheduler()()
}
/// b and c tasks from two further threads, then a tasks from this one
fn posts(s: &Sch, a: i64, b: i64, c: i64, what: i64) {
  for (n, base) in [(b, 3), (c, 5)] {
    if n > 0 {
      let s = s.clone();
      th(move || {
        for k in 0..n {
          post(&s, base + k, 0);
        }
      });
    }
  }
  for k in 0..a {
    post(s, 1 + k, if k == 0 { what } else { 0 });
  }
}
fn counts() -> (i64, i64, i64) {
  let t = if cfg!(thorough) { 4 } else { 3 };
  let a = pick(1, 2);
  let b = pick(0, 2);
  let c = if b > 0 { pick(0, 1) } else { 0 };
  assume(a + b + c <= t);
  (a, b, c)
}

//@ mode=conc shards=6 cost=5 cover=run
#[no_mangle]
pub extern "C" fn h_c08_run() {
  let (a, b, c) = counts();
  let what = pick(0, 1);
  assume(what == 0 || a + b + c < 3);
  common();
  prop(ALL);
  cover("run");
  concurrent();
  let s = make();
  posts(&s, a, b, c, what);
}

//@ mode=conc shards=8 cost=6 cover=abort
#[no_mangle]
pub extern "C" fn h_c08_abort() {
  let (a, b, c) = counts();
  assume(cfg!(thorough) || a + b + c < 3);
  let how = pick(0, 3);
  common();
  prop(LATE);
  prop(ONE);
  prop("@exit");
  cover("abort");
  concurrent();
  let s = make();
  if how == 1 || how == 2 {
    let s2 = s.clone();
    th(move || {
      s2.abort();
      mark(ABORTED, 0, 0);
    });
  }
  posts(&s, a, b, c, 0);
  if how == 0 || how == 3 {
    s.abort();
    mark(ABORTED, 0, 0);
  }
  if how >= 2 {
    post(&s, 7, 0);
    s.abort();
    mark(ABORTED, 0, 0);
  }
}

//@ mode=conc shards=6 cost=6 cover=inside
#[no_mangle]
pub extern "C" fn h_c08_inside() {
  let (a, b, c) = counts();
  assume(cfg!(thorough) || a + b + c < 3);
  let what = pick(2, 4);
  common();
  prop(LATE);
  prop(ONE);
  prop(INS);
  prop("@exit");
  cover("inside");
  concurrent();
  let s = make();
  posts(&s, a, b, c, what);
}

/// two schedulers do not disturb each other
//@ mode=conc cost=6 cover=two
#[no_mangle]
pub extern "C" fn h_c08_two() {
  prop("@viol a task of the other scheduler was lost: p=10(v,5) !12(v,*)");
  prop(ONCE);
  prop("@viol the schedulers share a thread: r=12(1,*) s=12(2,*) r~s");
  cover("two");
  concurrent();
  let (s, u) = (make(), make());
  mark(POST, 2, 5);
  u.post(move || mark(RUN, 2, 0));
  mark(POST, 1, 0);
  s.post(move || mark(RUN, 1, 0));
  s.abort();
}

//@ mode=seq cover=sync
#[no_mangle]
pub extern "C" fn h_c08_default() {
  let s = schedulers::default_scheduler()();
  let n = pick(1, 3);
  let ab = pick(0, 3);
  let got = std::sync::Arc::new(std::sync::Mutex::new(Vec::<i64>::new()));
  let me = tid();
  for k in 0..n {
    if ab == k {
      s.abort();
    }
    let g = got.clone();
    let s2 = s.clone();
    s.post(move || {
      g.lock().unwrap().push(k);
      check(tid() == me, "the default scheduler used another thread");
      let g2 = g.clone();
      s2.post(move || g2.lock().unwrap().push(10 + k));
      check(*g.lock().unwrap().last().unwrap() == 10 + k, "a nested post did not run at once");
    });
    check(got.lock().unwrap().len() as i64 == 2 * (k + 1), "the task did not run in post");
  }
  check(threads_live() == 0, "the default scheduler started a thread");
  cover("sync");
}
