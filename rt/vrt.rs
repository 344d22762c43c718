//! Native replay runtime: the vm_* interface on real threads, one running at a
//! time, following a recorded schedule and a recorded list of symbolic values.
//! Policy outside a recorded schedule mirrors the VM's deterministic scheduler.
use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering};
use std::sync::{Condvar, Mutex, OnceLock};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Act {
  Lock(usize, bool),
  Unlock(usize, bool),
  Try(usize, bool),
  CvWait(usize, usize, Option<i64>),
  CvNotify(usize, bool),
  Spawn(usize, usize),
  Join(usize),
  Sleep(i64),
  Idle,
  Yield,
  Mark(i64, i64, i64),
  Atomic,
  Concurrent,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum St {
  Running,        // executing, or about to (result ready)
  Pending(Act),   // conc mode: not yet scheduled
  Blocked(Act),
  CvWaiting(usize, usize, Option<i64>),
  CvNotified(usize, bool),
  Sleeping(i64),
  Parked,         // conc mode: slept more often than the bound
  Idle,
  Done,
}
struct Th {
  st: St,
  ret: i64,
  sleeps: u32,
}
#[derive(Default)]
struct Lk {
  w: Option<usize>,
  r: Vec<usize>,
}
struct G {
  th: Vec<Th>,
  cur: usize,
  locks: HashMap<usize, Lk>,
  cvs: HashMap<usize, Vec<usize>>,
  now: i64,
  conc: bool,
  want_conc: bool,
  sched: Vec<usize>,
  si: usize,
  vals: Vec<i64>,
  vi: usize,
  log: Vec<(String, i64)>,
  marks: Vec<(usize, i64, i64, i64)>,
  trace: bool,
}
static G_: OnceLock<Mutex<G>> = OnceLock::new();
static CV: Condvar = Condvar::new();
static PROGRESS: AtomicI64 = AtomicI64::new(0);
static FINISHED: AtomicBool = AtomicBool::new(false);
thread_local!(static ME: std::cell::Cell<usize> = const { std::cell::Cell::new(0) });

fn lk() -> std::sync::MutexGuard<'static, G> {
  match G_.get().unwrap().lock() {
    Ok(g) => g,
    Err(e) => e.into_inner(),
  }
}
fn me() -> usize {
  ME.with(|m| m.get())
}
fn finish(g: &G, kind: &str, msg: &str, code: i32) -> ! {
  if !FINISHED.swap(true, Ordering::SeqCst) {
    let mut s = String::new();
    s.push_str(&format!("RESULT {} {}\n", kind, msg.replace('\n', " ")));
    for (k, v) in &g.log {
      s.push_str(&format!("LOG {} {}\n", v, k));
    }
    for (t, k, a, b) in &g.marks {
      s.push_str(&format!("MARK {} {} {} {}\n", t, k, a, b));
    }
    if g.conc {
      let live = g.th.iter().filter(|t| t.st != St::Done).count();
      s.push_str(&format!("MARK 99 999 {} 0\n", live));
    }
    print!("{}", s);
    use std::io::Write;
    std::io::stdout().flush().ok();
    std::process::exit(code);
  }
  loop {
    std::thread::sleep(Duration::from_secs(1));
  }
}

fn can_lock(g: &G, a: usize, w: bool) -> bool {
  match g.locks.get(&a) {
    None => true,
    Some(l) => l.w.is_none() && (!w || l.r.is_empty()),
  }
}
fn do_lock(g: &mut G, a: usize, w: bool, t: usize) {
  let l = g.locks.entry(a).or_default();
  if w {
    l.w = Some(t)
  } else {
    l.r.push(t)
  }
}
fn do_unlock(g: &mut G, a: usize, w: bool, t: usize) {
  let mut ok = false;
  if let Some(l) = g.locks.get_mut(&a) {
    if w {
      if l.w == Some(t) {
        l.w = None;
        ok = true;
      }
    } else if let Some(i) = l.r.iter().position(|x| *x == t) {
      l.r.remove(i);
      ok = true;
    }
  }
  if !ok {
    finish(g, "error", "unlock of a lock that is not held", 2);
  }
}

/// std's RwLock: a reader queues behind a waiting writer, even if its own thread
/// already holds the lock for reading.
fn reentry(g: &G, l: usize, w: bool, t: usize) -> bool {
  !w && g.conc
    && g.locks.get(&l).map_or(false, |k| k.r.contains(&t))
    && g.th.iter().any(|x| x.st == St::Blocked(Act::Lock(l, true)))
}

/// Ok(Some(v)): done; Ok(None): blocked (status set).
fn try_act(g: &mut G, t: usize, a: Act) -> Option<i64> {
  match a {
    Act::Lock(l, w) => {
      if let Some(k) = g.locks.get(&l) {
        if k.w == Some(t) || (w && k.r.contains(&t)) {
          finish(g, "deadlock", &format!("DEADLOCK thread {} waits for a lock it holds itself", t), 1);
        }
      }
      if can_lock(g, l, w) && !reentry(g, l, w, t) {
        do_lock(g, l, w, t);
        Some(0)
      } else {
        None
      }
    }
    Act::Unlock(l, w) => {
      do_unlock(g, l, w, t);
      Some(0)
    }
    Act::Try(l, w) => {
      if can_lock(g, l, w) {
        do_lock(g, l, w, t);
        Some(1)
      } else {
        Some(0)
      }
    }
    Act::CvWait(cv, l, to) => {
      do_unlock(g, l, true, t);
      g.cvs.entry(cv).or_default().push(t);
      let u = to.map(|x| g.now + x);
      g.th[t].st = St::CvWaiting(cv, l, u);
      None
    }
    Act::CvNotify(cv, all) => {
      let ws: Vec<usize> = match g.cvs.get_mut(&cv) {
        Some(v) if all => std::mem::take(v),
        Some(v) if !v.is_empty() => vec![v.remove(0)],
        _ => vec![],
      };
      for w in ws {
        if let St::CvWaiting(_, l, _) = g.th[w].st {
          g.th[w].st = St::CvNotified(l, false);
        }
      }
      Some(0)
    }
    Act::Spawn(f, d) => {
      let id = g.th.len();
      g.th.push(Th { st: St::Running, ret: 0, sleeps: 0 });
      std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn(move || {
          ME.with(|m| m.set(id));
          {
            let mut gg = lk();
            while gg.cur != id {
              gg = match CV.wait(gg) {
                Ok(x) => x,
                Err(e) => e.into_inner(),
              };
            }
          }
          let f: extern "C" fn(*mut u8) = unsafe { std::mem::transmute(f) };
          f(d as *mut u8);
          let mut gg = lk();
          gg.th[id].st = St::Done;
          next(&mut gg, id);
          CV.notify_all();
        })
        .unwrap();
      Some(id as i64)
    }
    Act::Join(o) => {
      if g.th[o].st == St::Done {
        Some(0)
      } else {
        None
      }
    }
    Act::Sleep(ns) => {
      if g.conc {
        g.th[t].sleeps += 1;
        if g.th[t].sleeps > 3 {
          g.th[t].st = St::Parked;
          return None;
        }
      }
      g.th[t].st = St::Sleeping(g.now + ns);
      None
    }
    Act::Idle => {
      g.th[t].st = St::Idle;
      None
    }
    Act::Mark(k, a, b) => {
      g.marks.push((t, k, a, b));
      Some(0)
    }
    Act::Yield | Act::Atomic => Some(0),
    Act::Concurrent => {
      g.conc = g.want_conc;
      Some(0)
    }
  }
}

/// Choose the next thread to run (sets g.cur).
fn next(g: &mut G, cur: usize) {
  if g.th[0].st == St::Done && !g.conc {
    return;
  }
  let n = g.th.len();
  if g.conc {
    // follow the recorded schedule
    while g.si < g.sched.len() {
      let t = g.sched[g.si];
      if t >= n {
        finish(g, "error", "schedule names an unknown thread", 2);
      }
      if g.trace {
        eprintln!("step {} thread {} {:?}", g.si, t, g.th[t].st);
      }
      match g.th[t].st {
        St::Running => {
          // has not reached its next action yet: let it run up to it
          g.cur = t;
          return;
        }
        St::Pending(a) => {
          g.si += 1;
          match try_act(g, t, a) {
            Some(v) => {
              g.th[t].ret = v;
              g.th[t].st = St::Running;
              g.cur = t;
              return;
            }
            None => {
              if let St::Pending(_) = g.th[t].st {
                g.th[t].st = St::Blocked(a);
              }
            }
          }
        }
        St::Sleeping(v) => {
          g.si += 1;
          g.now = g.now.max(v);
          g.th[t].st = St::Running;
          g.th[t].ret = 0;
          g.cur = t;
          return;
        }
        _ => {
          g.si += 1;
          if wake(g, t) {
            g.cur = t;
            return;
          }
          finish(g, "error", &format!("schedule step {} runs thread {} which is {:?}", g.si - 1, t, g.th[t].st), 2);
        }
      }
    }
  }
  let order: Vec<usize> =
    std::iter::once(cur).chain((0..n).filter(|x| *x != cur)).collect();
  loop {
    let mut again = false;
    for &t in &order {
      match g.th[t].st {
        St::Running => {
          g.cur = t;
          return;
        }
        St::Pending(a) => match try_act(g, t, a) {
          Some(v) => {
            g.th[t].ret = v;
            g.th[t].st = St::Running;
            g.cur = t;
            return;
          }
          None => {
            if let St::Pending(_) = g.th[t].st {
              g.th[t].st = St::Blocked(a);
            } else {
              again = true;
            }
          }
        },
        _ => {
          if wake(g, t) {
            g.cur = t;
            return;
          }
        }
      }
    }
    if !again {
      break;
    }
  }
  for t in 0..n {
    if g.th[t].st == St::Idle {
      g.th[t].st = St::Running;
      g.th[t].ret = 0;
      g.cur = t;
      return;
    }
  }
  let mut best: Option<(usize, i64)> = None;
  for t in 0..n {
    let w = match g.th[t].st {
      St::Sleeping(v) => v,
      St::CvWaiting(_, _, Some(v)) => v,
      _ => continue,
    };
    if best.is_none() || w < best.unwrap().1 {
      best = Some((t, w));
    }
  }
  if let Some((t, w)) = best {
    g.now = w;
    match g.th[t].st {
      St::Sleeping(_) => {
        g.th[t].st = St::Running;
        g.th[t].ret = 0;
        g.cur = t;
      }
      St::CvWaiting(cv, l, _) => {
        if let Some(v) = g.cvs.get_mut(&cv) {
          v.retain(|x| *x != t);
        }
        g.th[t].st = St::CvNotified(l, true);
        next(g, cur);
      }
      _ => {}
    }
    return;
  }
  let strict = g.log.iter().any(|l| l.0 == "@strict");
  if g.conc
    && g.th[0].st == St::Done
    && g.th.iter().all(|t| match t.st {
      St::Done | St::Parked => true,
      St::CvWaiting(..) => !strict,
      _ => false,
    })
  {
    finish(g, "ok", "", 0);
  }
  let mut w = vec![];
  for (i, t) in g.th.iter().enumerate() {
    if t.st != St::Done {
      w.push(format!("thread {} {:?}", i, t.st));
    }
  }
  finish(g, "deadlock", &format!("DEADLOCK no thread can run: {}", w.join("; ")), 1);
}

fn wake(g: &mut G, t: usize) -> bool {
  match g.th[t].st {
    St::Blocked(Act::Lock(l, w)) if can_lock(g, l, w) && !reentry(g, l, w, t) => {
      do_lock(g, l, w, t);
      g.th[t].st = St::Running;
      g.th[t].ret = 0;
      true
    }
    St::Blocked(Act::Join(o)) if g.th[o].st == St::Done => {
      g.th[t].st = St::Running;
      g.th[t].ret = 0;
      true
    }
    St::CvNotified(l, to) if can_lock(g, l, true) => {
      do_lock(g, l, true, t);
      g.th[t].st = St::Running;
      g.th[t].ret = to as i64;
      true
    }
    _ => false,
  }
}

struct Hush(bool);
impl Hush {
  fn new() -> Hush {
    Hush(QUIET.with(|q| q.replace(true)))
  }
}
impl Drop for Hush {
  fn drop(&mut self) {
    let v = self.0;
    QUIET.with(|q| q.set(v));
  }
}
fn act(a: Act) -> i64 {
  let _h = Hush::new();
  PROGRESS.fetch_add(1, Ordering::Relaxed);
  let t = me();
  let mut gg = lk();
  if gg.conc {
    gg.th[t].st = St::Pending(a);
    next(&mut gg, t);
  } else {
    match try_act(&mut gg, t, a) {
      Some(v) => return v,
      None => {
        if gg.th[t].st == St::Running {
          gg.th[t].st = St::Blocked(a);
        }
        next(&mut gg, t);
      }
    }
  }
  if gg.cur != t {
    CV.notify_all();
  }
  while !(gg.cur == t && gg.th[t].st == St::Running) {
    gg = match CV.wait(gg) {
      Ok(x) => x,
      Err(e) => e.into_inner(),
    };
  }
  gg.th[t].ret
}

macro_rules! api {
  ($(fn $n:ident($($a:ident : $t:ty),*) $(-> $r:ty)? $b:block)*) => {
    $(#[no_mangle] pub extern "C" fn $n($($a: $t),*) $(-> $r)? $b)*
  };
}
fn text(p: *const u8, n: usize) -> String {
  String::from_utf8_lossy(unsafe { std::slice::from_raw_parts(p, n) }).into_owned()
}
fn value(lo: i64, hi: i64) -> i64 {
  let _h = Hush::new();
  let mut gg = lk();
  let i = gg.vi;
  gg.vi += 1;
  let v = gg.vals.get(i).copied().unwrap_or(lo);
  if v < lo || v > hi {
    finish(&gg, "error", "replayed value outside its range", 2);
  }
  v
}
api! {
  fn vm_sym(lo: i64, hi: i64) -> i64 { value(lo, hi) }
  fn vm_pick(lo: i64, hi: i64) -> i64 { value(lo, hi) }
  fn vm_concrete(x: i64) -> i64 { x }
  fn vm_assume(c: i64) { if c == 0 { finish(&lk(), "error", "assumption violated in replay", 2) } }
  fn vm_check(c: i64, p: *const u8, n: usize) {
    if c == 0 { finish(&lk(), "check", &text(p, n), 1) }
  }
  fn vm_cover(_p: *const u8, _n: usize) {}
  fn vm_log(p: *const u8, n: usize, v: i64) { let _h = Hush::new(); let s = text(p, n); lk().log.push((s, v)); }
  fn vm_lock(a: *const u8, w: i64) { act(Act::Lock(a as usize, w != 0)); }
  fn vm_unlock(a: *const u8, w: i64) { act(Act::Unlock(a as usize, w != 0)); }
  fn vm_trylock(a: *const u8, w: i64) -> i64 { act(Act::Try(a as usize, w != 0)) }
  fn vm_atomic(_a: *const u8, _w: i64) { act(Act::Atomic); }
  fn vm_cv_wait(cv: *const u8, l: *const u8) { act(Act::CvWait(cv as usize, l as usize, None)); }
  fn vm_cv_wait_to(cv: *const u8, l: *const u8, ns: i64) -> i64 {
    act(Act::CvWait(cv as usize, l as usize, Some(ns)))
  }
  fn vm_cv_notify(cv: *const u8, all: i64) { act(Act::CvNotify(cv as usize, all != 0)); }
  fn vm_spawn(f: extern "C" fn(*mut u8), d: *mut u8) -> i64 {
    act(Act::Spawn(f as usize, d as usize))
  }
  fn vm_join(t: i64) { act(Act::Join(t as usize)); }
  fn vm_sleep(ns: i64) { act(Act::Sleep(ns)); }
  fn vm_idle() { act(Act::Idle); }
  fn vm_yield() { act(Act::Yield); }
  fn vm_concurrent() { act(Act::Concurrent); }
  fn vm_mark(k: i64, a: i64, b: i64) { act(Act::Mark(k, a, b)); }
  fn vm_now() -> i64 { PROGRESS.fetch_add(1, Ordering::Relaxed); lk().now }
  fn vm_tid() -> i64 { me() as i64 }
  fn vm_threads_live() -> i64 {
    lk().th.iter().skip(1).filter(|t| t.st != St::Done).count() as i64
  }
  fn vm_thread_done(t: i64) -> i64 { (lk().th[t as usize].st == St::Done) as i64 }
  fn vm_live_heap() -> i64 { LIVE.load(Ordering::SeqCst) }
  fn vm_pcs() -> i64 { 0 }
}

// live heap objects of the program under replay (the runtime's own are not counted:
// it only allocates inside vm_* calls, which do not change the difference a harness
// measures around calls into the library beyond what it allows for).
pub struct Count;
static LIVE: AtomicI64 = AtomicI64::new(0);
unsafe impl std::alloc::GlobalAlloc for Count {
  unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
    if !QUIET.with(|q| q.get()) {
      LIVE.fetch_add(1, Ordering::SeqCst);
    }
    std::alloc::System.alloc(l)
  }
  unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
    if !QUIET.with(|q| q.get()) {
      LIVE.fetch_sub(1, Ordering::SeqCst);
    }
    std::alloc::System.dealloc(p, l)
  }
}
thread_local!(static QUIET: std::cell::Cell<bool> = const { std::cell::Cell::new(false) });

pub fn main(entries: &[(&str, extern "C" fn())]) {
  let args: Vec<String> = std::env::args().collect();
  let get = |k: &str| -> Option<String> {
    args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned())
  };
  let nums = |s: Option<String>| -> Vec<i64> {
    s.unwrap_or_default().split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()
  };
  let entry = get("--entry").unwrap_or_default();
  let f = entries.iter().find(|e| e.0 == entry).expect("unknown entry").1;
  let g0 = G {
    th: vec![Th { st: St::Running, ret: 0, sleeps: 0 }],
    cur: 0,
    locks: HashMap::new(),
    cvs: HashMap::new(),
    now: 0,
    conc: false,
    want_conc: args.iter().any(|a| a == "--conc"),
    sched: nums(get("--sched")).into_iter().map(|x| x as usize).collect(),
    si: 0,
    vals: nums(get("--values")),
    vi: 0,
    log: vec![],
    marks: vec![],
    trace: args.iter().any(|a| a == "--trace"),
  };
  G_.set(Mutex::new(g0)).ok();
  std::panic::set_hook(Box::new(|i| {
    let m = i.to_string();
    let gg = match G_.get().unwrap().try_lock() {
      Ok(x) => x,
      Err(_) => {
        println!("RESULT error runtime panicked: {}", m.replace('\n', " "));
        std::process::exit(2);
      }
    };
    finish(&gg, "panic", &format!("PANIC {}", m), 1);
  }));
  let secs: u64 = get("--timeout").and_then(|x| x.parse().ok()).unwrap_or(10);
  std::thread::spawn(move || {
    QUIET.with(|q| q.set(true));
    let t0 = Instant::now();
    while t0.elapsed() < Duration::from_secs(secs) {
      std::thread::sleep(Duration::from_millis(50));
    }
    if !FINISHED.swap(true, Ordering::SeqCst) {
      println!(
        "RESULT livelock LIVELOCK still running after {} s ({} library steps)",
        secs,
        PROGRESS.load(Ordering::Relaxed)
      );
      use std::io::Write;
      std::io::stdout().flush().ok();
      std::process::exit(1);
    }
  });
  std::thread::Builder::new()
    .stack_size(64 << 20)
    .spawn(move || {
      f();
      let mut gg = lk();
      if !gg.conc {
        finish(&gg, "ok", "", 0);
      }
      gg.th[0].st = St::Done;
      next(&mut gg, 0);
      CV.notify_all();
    })
    .unwrap()
    .join()
    .ok();
  loop {
    std::thread::sleep(Duration::from_secs(1));
  }
}
