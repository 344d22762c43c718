//! Semantics of visible actions (locks, condvars, threads, virtual time),
//! shared by the sequential and the interleaving explorers.
use crate::expr::*;
use crate::vm::*;

pub enum AR {
  Done(Option<Val>),
  Block,
  Fail(String),
}

pub fn can_lock(st: &State, a: u64, w: bool, _t: usize) -> bool {
  match st.locks.get(&a) {
    None => true,
    Some(l) => {
      if w {
        l.writer.is_none() && l.readers.is_empty()
      } else {
        l.writer.is_none()
      }
    }
  }
}

pub fn do_lock(st: &mut State, a: u64, w: bool, t: usize) {
  let l = st.locks.entry(a).or_default();
  if w {
    l.writer = Some(t);
  } else {
    l.readers.push(t);
  }
}

pub fn do_unlock(st: &mut State, a: u64, w: bool, t: usize) -> bool {
  let mut ok = false;
  let mut empty = false;
  if let Some(l) = st.locks.get_mut(&a) {
    if w {
      if l.writer == Some(t) {
        l.writer = None;
        ok = true;
      }
    } else if let Some(i) = l.readers.iter().position(|x| *x == t) {
      l.readers.remove(i);
      ok = true;
    }
    empty = l.writer.is_none() && l.readers.is_empty();
  }
  if empty {
    st.locks.remove(&a);
  }
  ok
}

pub fn self_deadlock(st: &State, a: u64, w: bool, t: usize) -> bool {
  match st.locks.get(&a) {
    None => false,
    Some(l) => l.writer == Some(t) || (w && l.readers.contains(&t)),
  }
}

/// Perform the action of thread t if it is enabled.
pub fn try_act(vm: &mut Vm, st: &mut State, t: usize, act: &Act) -> AR {
  match act {
    Act::Lock { a, w } => {
      if self_deadlock(st, *a, *w, t) {
        return AR::Fail(format!(
          "DEADLOCK thread {} waits for a lock it holds itself ({})",
          t,
          where_is(st, t)
        ));
      }
      if can_lock(st, *a, *w, t) {
        do_lock(st, *a, *w, t);
        AR::Done(None)
      } else {
        AR::Block
      }
    }
    Act::Unlock { a, w } => {
      if do_unlock(st, *a, *w, t) {
        AR::Done(None)
      } else {
        AR::Fail("unlock of a lock that is not held".into())
      }
    }
    Act::TryLock { a, w } => {
      if can_lock(st, *a, *w, t) {
        do_lock(st, *a, *w, t);
        AR::Done(Some(Val::c(1)))
      } else {
        AR::Done(Some(Val::c(0)))
      }
    }
    Act::CvWait { cv, lock } => {
      if !do_unlock(st, *lock, true, t) {
        return AR::Fail("condvar wait without the mutex".into());
      }
      st.cvs.entry(*cv).or_default().push(t);
      st.threads[t].stat = TStat::CvWaiting { cv: *cv, lock: *lock, until: None };
      AR::Block
    }
    Act::CvWaitTo { cv, lock, ns } => {
      if !do_unlock(st, *lock, true, t) {
        return AR::Fail("condvar wait without the mutex".into());
      }
      st.cvs.entry(*cv).or_default().push(t);
      let until = vm.bin(Op::Add, 64, st.now, *ns);
      st.threads[t].stat =
        TStat::CvWaiting { cv: *cv, lock: *lock, until: Some(until) };
      AR::Block
    }
    Act::CvNotify { cv, all } => {
      let ws = match st.cvs.get_mut(cv) {
        Some(v) => {
          if *all {
            std::mem::take(v)
          } else if v.is_empty() {
            vec![]
          } else {
            vec![v.remove(0)]
          }
        }
        None => vec![],
      };
      for w in ws {
        if let TStat::CvWaiting { lock, .. } = st.threads[w].stat.clone() {
          st.threads[w].stat = TStat::CvNotified { lock, timed_out: false };
        }
      }
      AR::Done(None)
    }
    Act::Spawn { f, data } => match vm.new_thread(*f, *data) {
      Ok(th) => {
        st.threads.push(th);
        AR::Done(Some(Val::c((st.threads.len() - 1) as u128)))
      }
      Err(e) => AR::Fail(format!("ENGINE {}", e)),
    },
    Act::Join { t: o } => {
      if st.threads[*o as usize].stat == TStat::Done {
        AR::Done(None)
      } else {
        AR::Block
      }
    }
    Act::Sleep { ns } => {
      let until = vm.bin(Op::Add, 64, st.now, *ns);
      st.threads[t].stat = TStat::Sleeping(until);
      AR::Block
    }
    Act::Idle => {
      st.threads[t].stat = TStat::Idle;
      AR::Block
    }
    Act::Mark { k, a, b } => {
      st.marks.push((t, *k, *a, *b));
      AR::Done(None)
    }
    Act::Yield | Act::Atomic { .. } | Act::Concurrent => AR::Done(None),
    Act::Sym { .. } | Act::Pick { .. } => unreachable!(),
  }
}

/// Call stack summary of a thread (library functions only).
pub fn where_is(st: &State, t: usize) -> String {
  let th = &st.threads[t];
  let mut v = vec![];
  if let Some(f) = &th.top {
    v.push(short(&f.f.name));
  }
  for f in th.rest.iter().rev() {
    v.push(short(&f.f.name));
  }
  v.retain(|s| !s.contains("__vstd") && !s.contains("__vh") && !s.contains("boxed"));
  v.truncate(8);
  v.join(" < ")
}
