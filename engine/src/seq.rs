//! Sequential explorer: depth-first symbolic execution with solver-decided forks.
use crate::expr::*;
use crate::sched::*;
use crate::vm::*;
use crate::z3::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Debug)]
pub struct Failure {
  pub kind: String,
  pub msg: String,
  pub values: Vec<i64>,
  pub log: Vec<(String, i64)>,
  pub sched: Vec<u32>,
  pub marks: Vec<[i64; 4]>,
}

#[derive(Clone, Debug)]
pub struct Sample {
  pub values: Vec<i64>,
  pub log: Vec<(String, i64)>,
  pub sched: Vec<u32>,
  pub marks: Vec<[i64; 4]>,
}

#[derive(Default)]
pub struct SeqResult {
  pub paths: u64,
  pub pruned: u64,
  pub forks: u64,
  pub checks: u64,
  pub checks_solver: u64,
  pub failures: Vec<Failure>,
  pub errors: Vec<String>,
  pub samples: Vec<Sample>,
  pub covers: BTreeMap<String, u64>,
  pub complete: bool,
  pub max_steps: u64,
}

pub struct Seq<'a> {
  pub vm: &'a mut Vm,
  pub s: BvSolver,
  pub res: SeqResult,
  pub deadline: Instant,
  pub max_failures: usize,
  pub nsamples: usize,
  pub rng: u64,
  pub conc_states: Vec<State>, // states that reached vm_concurrent (interleaving mode)
  pub stop_at_concurrent: bool,
  pub key_picks: usize,
  pub shard: (i64, i64),
  failmsgs: BTreeSet<String>,
}

enum Next {
  Run(usize),
  Decide(E),
  Done,
  Stuck,
}

impl<'a> Seq<'a> {
  pub fn new(vm: &'a mut Vm, deadline: Instant, seed: u64) -> Seq<'a> {
    Seq {
      vm,
      s: BvSolver::new(),
      res: SeqResult::default(),
      deadline,
      max_failures: 3,
      nsamples: 6,
      rng: seed.wrapping_mul(0x9E3779B97F4A7C15) | 1,
      conc_states: vec![],
      stop_at_concurrent: false,
      key_picks: 0,
      shard: (0, 1),
      failmsgs: Default::default(),
    }
  }
  fn rand(&mut self) -> u64 {
    self.rng ^= self.rng << 13;
    self.rng ^= self.rng >> 7;
    self.rng ^= self.rng << 17;
    self.rng
  }
  pub fn eval(&self, st: &State, e: E) -> u128 {
    let mut memo = HashMap::new();
    let vars = &self.vm.p.vars;
    self.vm.p.eval(
      e,
      &|i| st.model.get(i).copied().unwrap_or(vars[i].lo),
      &mut memo,
    )
  }
  pub fn vals(&self, st: &State) -> Vec<i64> {
    st.syms
      .iter()
      .map(|(e, c)| if *e == 0 { *c } else { self.eval(st, *e) as i64 })
      .collect()
  }
  fn logv(&self, st: &State) -> Vec<(String, i64)> {
    st.log
      .iter()
      .map(|(s, v)| {
        let x = if v.e == 0 { v.c } else { self.eval(st, v.e) };
        (s.clone(), x as i64)
      })
      .collect()
  }
  fn fail(&mut self, st: &State, kind: &str, msg: String) {
    // one report per message and leading structure choices
    let picks: Vec<i64> =
      st.syms.iter().take_while(|x| x.0 == 0).map(|x| x.1).take(self.key_picks).collect();
    let key = format!("{}:{}:{:?}", kind, msg, picks);
    if self.failmsgs.contains(&key) {
      return;
    }
    self.failmsgs.insert(key);
    let f = Failure {
      kind: kind.into(),
      msg,
      values: self.vals(st),
      log: self.logv(st),
      sched: vec![],
      marks: vec![],
    };
    self.res.failures.push(f);
  }
  fn add_pc(st: &mut State, e: E) {
    st.pc.push(e);
  }
  fn know(st: &mut State, e: E, v: u128) {
    Rc::make_mut(&mut st.known).insert(e, v);
  }
  /// Fork on a boolean; the current state keeps the side its model satisfies.
  fn branch(&mut self, st: &mut State, e: E, stack: &mut Vec<State>) -> Result<(), ()> {
    let v = self.eval(st, e);
    let ne = self.vm.p.not(e);
    let (cur, oth) = if v == 1 { (e, ne) } else { (ne, e) };
    let (r, model) = self.s.check(&self.vm.p, &st.pc, oth);
    match r {
      Res::Sat => {
        self.res.forks += 1;
        let mut o = st.clone();
        o.model = Rc::new(model);
        Self::add_pc(&mut o, oth);
        Self::know(&mut o, oth, 1);
        Self::know(&mut o, cur, 0);
        stack.push(o);
        Self::add_pc(st, cur);
      }
      Res::Unsat => {}
      Res::Unknown => {
        self.res.errors.push("solver returned unknown on a branch".into());
        return Err(());
      }
    }
    Self::know(st, cur, 1);
    Self::know(st, oth, 0);
    Ok(())
  }

  fn next(&mut self, st: &mut State) -> Next {
    if st.threads[0].stat == TStat::Done {
      return Next::Done;
    }
    // the current thread first, then the others in creation order
    let n = st.threads.len();
    let cur = st.cur;
    let order = std::iter::once(cur).chain((0..n).filter(|x| *x != cur));
    for t in order {
      let stat = st.threads[t].stat.clone();
      match stat {
        TStat::Ready => return Next::Run(t),
        TStat::Blocked(act) => match &act {
          Act::Lock { a, w } => {
            if can_lock(st, *a, *w, t) {
              do_lock(st, *a, *w, t);
              st.threads[t].stat = TStat::Ready;
              self.vm.complete(st, t, None);
              return Next::Run(t);
            }
          }
          Act::Join { t: o } => {
            if st.threads[*o as usize].stat == TStat::Done {
              st.threads[t].stat = TStat::Ready;
              self.vm.complete(st, t, None);
              return Next::Run(t);
            }
          }
          _ => {}
        },
        TStat::CvNotified { lock, timed_out } => {
          if can_lock(st, lock, true, t) {
            do_lock(st, lock, true, t);
            st.threads[t].stat = TStat::Ready;
            self.vm.complete(st, t, Some(Val::c(timed_out as u128)));
            return Next::Run(t);
          }
        }
        _ => {}
      }
    }
    // nobody can run: idle waiters, then virtual time
    for t in 0..n {
      if st.threads[t].stat == TStat::Idle {
        st.threads[t].stat = TStat::Ready;
        self.vm.complete(st, t, None);
        return Next::Run(t);
      }
    }
    let mut best: Option<(usize, Val)> = None;
    for t in 0..n {
      let w = match &st.threads[t].stat {
        TStat::Sleeping(v) => *v,
        TStat::CvWaiting { until: Some(v), .. } => *v,
        _ => continue,
      };
      match best {
        None => best = Some((t, w)),
        Some((_, bw)) => {
          let lt = self.vm.bin(Op::Ult, 64, w, bw);
          let k = if lt.e == 0 {
            lt.c == 1
          } else if let Some(k) = st.known.get(&lt.e) {
            *k == 1
          } else {
            return Next::Decide(lt.e);
          };
          if k {
            best = Some((t, w));
          }
        }
      }
    }
    if let Some((t, w)) = best {
      st.now = w;
      match st.threads[t].stat.clone() {
        TStat::Sleeping(_) => {
          st.threads[t].stat = TStat::Ready;
          self.vm.complete(st, t, None);
        }
        TStat::CvWaiting { cv, lock, .. } => {
          if let Some(v) = st.cvs.get_mut(&cv) {
            v.retain(|x| *x != t);
          }
          st.threads[t].stat = TStat::CvNotified { lock, timed_out: true };
          return self.next(st);
        }
        _ => {}
      }
      return Next::Run(t);
    }
    Next::Stuck
  }

  pub fn sym(&mut self, st: &State, lo: i64, hi: i64) -> Val {
    let k = st.syms.len();
    let e = match self.vm.symcache.get(&(k, lo, hi)) {
      Some(&e) => e,
      None => {
        let v = self.vm.p.var(
          &format!("s{}[{}..{}]", k, lo, hi),
          64,
          0,
          (hi as i128 - lo as i128) as u128,
        );
        let c = self.vm.p.cst(lo as i128 as u128, 64);
        let e = self.vm.p.bin(Op::Add, v, c);
        self.vm.symcache.insert((k, lo, hi), e);
        e
      }
    };
    self.vm.mkval(e)
  }

  pub fn explore(&mut self, entry: &str) -> Result<(), String> {
    let st = self.vm.initial(entry)?;
    let mut stack = vec![st];
    self.res.complete = true;
    'outer: while let Some(mut st) = stack.pop() {
      if Instant::now() > self.deadline {
        self.res.complete = false;
        self.res.errors.push("time limit reached before the exploration was complete".into());
        break;
      }
      if self.res.failures.len() >= self.max_failures {
        self.res.complete = false;
        break;
      }
      let mut iters = 0u32;
      loop {
        iters += 1;
        if iters % 4096 == 0 && Instant::now() > self.deadline {
          self.res.complete = false;
          self.res.errors.push("time limit reached inside a path".into());
          break 'outer;
        }
        let t = match self.next(&mut st) {
          Next::Run(t) => t,
          Next::Decide(e) => {
            if self.branch(&mut st, e, &mut stack).is_err() {
              self.res.complete = false;
              break 'outer;
            }
            continue;
          }
          Next::Done => {
            self.path_done(&st);
            continue 'outer;
          }
          Next::Stuck => {
            let mut w = vec![];
            for (i, th) in st.threads.iter().enumerate() {
              if th.stat != TStat::Done {
                w.push(format!("thread {} {} at {}", i, stat_name(&th.stat), where_is(&st, i)));
              }
            }
            self.fail(&st, "deadlock", format!("DEADLOCK no thread can run: {}", w.join("; ")));
            continue 'outer;
          }
        };
        match self.vm.run(&mut st, t) {
          Stop::ThreadEnd => {}
          Stop::Branch(e) => {
            if self.branch(&mut st, e, &mut stack).is_err() {
              self.res.complete = false;
              break 'outer;
            }
          }
          Stop::Concretize(e) => {
            let w = self.vm.p.w(e);
            let v = self.eval(&st, e);
            let c = self.vm.p.cst(v, w);
            let eq = self.vm.p.bin(Op::Eq, e, c);
            let ne = self.vm.p.not(eq);
            let (r, model) = self.s.check(&self.vm.p, &st.pc, ne);
            match r {
              Res::Sat => {
                self.res.forks += 1;
                let mut o = st.clone();
                o.model = Rc::new(model);
                Self::add_pc(&mut o, ne);
                Self::know(&mut o, ne, 1);
                Self::know(&mut o, eq, 0);
                stack.push(o);
                Self::add_pc(&mut st, eq);
              }
              Res::Unsat => {}
              Res::Unknown => {
                self.res.errors.push("solver returned unknown (concretize)".into());
                self.res.complete = false;
                break 'outer;
              }
            }
            Self::know(&mut st, e, v);
          }
          Stop::Assume(e) => {
            if self.eval(&st, e) != 1 {
              let (r, model) = self.s.check(&self.vm.p, &st.pc, e);
              match r {
                Res::Sat => st.model = Rc::new(model),
                Res::Unsat => {
                  self.res.pruned += 1;
                  continue 'outer;
                }
                Res::Unknown => {
                  self.res.errors.push("solver returned unknown (assume)".into());
                  self.res.complete = false;
                  break 'outer;
                }
              }
            }
            Self::add_pc(&mut st, e);
            Self::know(&mut st, e, 1);
          }
          Stop::Prune => {
            self.res.pruned += 1;
            continue 'outer;
          }
          Stop::Check { cond, msg } => {
            self.res.checks += 1;
            if cond.e == 0 {
              self.fail(&st, "check", msg);
              continue 'outer;
            }
            self.res.checks_solver += 1;
            let ne = self.vm.p.not(cond.e);
            let (r, model) = self.s.check(&self.vm.p, &st.pc, ne);
            match r {
              Res::Sat => {
                let mut o = st.clone();
                o.model = Rc::new(model);
                self.fail(&o, "check", msg);
                continue 'outer;
              }
              Res::Unsat => {
                Self::know(&mut st, cond.e, 1);
              }
              Res::Unknown => {
                self.res.errors.push(format!("solver returned unknown on check '{}'", msg));
                self.res.complete = false;
                break 'outer;
              }
            }
          }
          Stop::Visible(act) => match act {
            Act::Sym { lo, hi } => {
              let v = self.sym(&st, lo, hi);
              st.syms.push((v.e, v.c as i64));
              self.vm.complete(&mut st, t, Some(v));
            }
            Act::Pick { lo, hi } => {
              // concrete enumeration (structure choices): one state per value
              let first = st.syms.is_empty() && self.shard.1 > 1;
              let mine: Vec<i64> = (lo..=hi)
                .filter(|k| !first || (k - lo) % self.shard.1 == self.shard.0)
                .collect();
              if mine.is_empty() {
                continue 'outer;
              }
              for &k in mine[1..].iter().rev() {
                let mut o = st.clone();
                o.syms.push((0, k));
                self.vm.complete(&mut o, t, Some(Val::c(k as i128 as u128 & mask(64))));
                self.res.forks += 1;
                stack.push(o);
              }
              let k = mine[0];
              st.syms.push((0, k));
              self.vm.complete(&mut st, t, Some(Val::c(k as i128 as u128 & mask(64))));
            }
            Act::Concurrent if self.stop_at_concurrent => {
              self.vm.complete(&mut st, t, None);
              self.conc_states.push(st);
              continue 'outer;
            }
            act => match try_act(self.vm, &mut st, t, &act) {
              AR::Done(v) => self.vm.complete(&mut st, t, v),
              AR::Block => {
                if st.threads[t].stat == TStat::Ready {
                  st.threads[t].stat = TStat::Blocked(act);
                }
              }
              AR::Fail(m) => {
                if let Some(e) = m.strip_prefix("ENGINE ") {
                  self.res.errors.push(e.to_string());
                } else {
                  self.fail(&st, "deadlock", m);
                }
                continue 'outer;
              }
            },
          },
          Stop::Panic(m) => {
            self.fail(&st, "panic", format!("PANIC {}", m));
            continue 'outer;
          }
          Stop::Bad(m) => {
            self.res.errors.push(format!("{} [at {}]", m, where_is(&st, t)));
            if self.res.errors.len() > 5 {
              self.res.complete = false;
              break 'outer;
            }
            continue 'outer;
          }
          Stop::Budget => {
            self.fail(
              &st,
              "livelock",
              format!("LIVELOCK step budget exhausted in thread {} at {}", t, where_is(&st, t)),
            );
            continue 'outer;
          }
        }
      }
    }
    Ok(())
  }

  fn path_done(&mut self, st: &State) {
    self.res.paths += 1;
    self.res.max_steps = self.res.max_steps.max(st.steps);
    for c in st.covers.iter() {
      *self.res.covers.entry(c.clone()).or_default() += 1;
    }
    // reservoir sample of finished paths for native validation
    let k = self.res.paths;
    let slot = if self.res.samples.len() < self.nsamples {
      Some(self.res.samples.len())
    } else {
      let r = (self.rand() % k) as usize;
      if r < self.nsamples {
        Some(r)
      } else {
        None
      }
    };
    if let Some(i) = slot {
      let s = Sample { values: self.vals(st), log: self.logv(st), sched: vec![], marks: vec![] };
      if i < self.res.samples.len() {
        self.res.samples[i] = s;
      } else {
        self.res.samples.push(s);
      }
    }
  }
}

pub fn stat_name(s: &TStat) -> &'static str {
  match s {
    TStat::Ready => "ready",
    TStat::Blocked(Act::Lock { .. }) => "waits for a lock",
    TStat::Blocked(Act::Join { .. }) => "waits to join a thread",
    TStat::Blocked(_) => "is blocked",
    TStat::CvWaiting { .. } => "waits on a condition variable",
    TStat::CvNotified { .. } => "waits to re-acquire a mutex",
    TStat::Sleeping(_) => "sleeps",
    TStat::Idle => "waits for idleness",
    TStat::Done => "finished",
  }
}
