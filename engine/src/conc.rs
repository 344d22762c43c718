//! Interleaving explorer. Each thread of a multi-threaded scenario unfolds into an acyclic graph:
//! an event is keyed by the local state its thread is in (live registers and the memory
//! they lead to, up to the next lock) and the *content* of the lock (or atomic, or waiting
//! list) it acquires, so one event stands for all schedules in which its thread is in the
//! same state and sees the same content. Which events occur together, in which order, and
//! which content every object holds after each of its modifications are SMT variables.
//! Runs of the VM only *add* events; the solver decides whether any further event is
//! reachable (the last query, unsatisfiable, certifies that the event set is complete
//! within the bounds) and whether any consistent execution violates a property.
use crate::ir::OBJ_SHIFT;
use crate::sched::*;
use crate::seq::{Failure, Sample};
use crate::vm::*;
use crate::z3::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::Instant;

type N = u32; // event (numbered from 1)
type P = u32; // place: local state of a thread between two events
type O = u32; // shared object (lock, atomic, condition variable)
type C = u32; // content of an object
type Name = (u64, u64, u64);

const LATE: &str = "time limit reached";
const MAGIC: u64 = 0x5AFE_10CC_ED00_F00D;
const ARC_MAGIC: u64 = 0x5AFE_0A2C_ED00_F00D; // followed by the size and the two counts

#[derive(Clone, Debug, PartialEq)]
enum Pend {
  Done,
  Parked,
  Fail,
  Lock { o: O, w: bool },
  Atomic { o: O, w: bool },
  CvWait { cv: O },
  Notify { cv: O },
  Wake { o: O, cv: O, ev: N },
  Join { t: u32 },
  Local,
}

#[derive(Clone, Debug, PartialEq)]
enum Kind {
  Acq { o: O, w: bool },
  Leaf { o: O, w: bool },
  Other,
}

#[derive(Clone, Debug, PartialEq)]
enum Sel {
  Is(C),
  Not(N), // a waiting list without this wait event
}

#[derive(Clone, Debug)]
struct Node {
  thr: u32,
  from: P,
  to: P,
  key: Vec<C>,
  kind: Kind,
  rel: Option<usize>, // index (in the place's list) of the section this event ends
  reads: Vec<(O, Sel)>,
  mods: Vec<(O, C, C)>,
  join: Option<u32>,
  mark: Option<(i64, i64, i64)>,
}

#[derive(Clone, Debug)]
struct Place {
  thr: u32,
  pend: Pend,
  held: Vec<(O, bool)>,
  hash: u128,
  trace: Option<Vec<u64>>,
  out: Vec<N>,
}

#[derive(Clone)]
struct Sect {
  o: O,
  a: u64,
  w: bool,
  node: N,
  from: C,
  first_obj: usize,
  stores: Vec<(u64, u32, u32)>,
  old: HashMap<u64, Rc<Obj>>,
}

struct Run {
  st: State,
  cur: Vec<P>,       // per runtime thread: where it is
  uid: Vec<u32>,     // runtime thread -> thread of the event set
  pend: Vec<Pend>,
  act: Vec<Option<Act>>,
  held: Vec<Vec<Sect>>,
  ver: HashMap<O, C>,
  objs: HashMap<Name, O>,
  sleeps: Vec<u32>,
  cnt: HashMap<O, (usize, usize)>, // modifications; exclusive acquisitions and releases
  sched: Vec<u32>,
  fail: Option<(String, String)>,
}

#[derive(Default)]
pub struct ConcResult {
  pub nodes: u64,
  pub runs: u64,
  pub scenarios: u64,
  pub rounds: u64,
  pub closed: u64,
  pub unclosed: Vec<String>,
  pub props: u64,
  pub instances: u64,
  pub failures: Vec<Failure>,
  pub errors: Vec<String>,
  pub samples: Vec<Sample>,
  pub covers: BTreeMap<String, u64>,
  pub queries: u64,
  pub sat: u64,
  pub unsat: u64,
  pub solver_s: f64,
  pub solver_max_s: f64,
  pub max_nodes: u64,
}

pub struct Conc<'a> {
  vm: &'a mut Vm,
  start: State,
  n: Vec<Node>, // [0] unused
  pl: Vec<Place>, // [0] unused
  pindex: HashMap<(u32, u128), Vec<P>>,
  roots: HashMap<u32, P>,
  index: HashMap<(P, Vec<C>), N>,
  live: crate::live::Live,
  objs: HashMap<(Name, u128), O>,
  locksites: BTreeSet<u64>,
  restart: bool,
  contents: HashMap<(O, u128), C>,
  of: HashMap<O, Vec<C>>, // contents of an object, the initial one first
  lists: HashMap<(O, Vec<N>), C>,
  list: HashMap<C, Vec<N>>,
  ncontent: C,
  thr_of_spawn: HashMap<N, u32>,
  nthr: u32,
  pub deadline: Instant,
  pub max_nodes: usize,
  pub max_sleeps: u32,
  pub res: &'a mut ConcResult,
  rng: u64,
  fails: BTreeSet<String>,
  initial: Option<Rc<(Vec<Pend>, Vec<Option<Act>>, State, HashMap<Name, O>)>>,
  values: Vec<i64>,
  strict: bool,
  unmerged: bool,
  verify: bool, // keep traces and compare states at every known event
  recheck: bool, // compare states at every known event of this run
  wheres: HashMap<P, Vec<u64>>,
  ctrace: HashMap<u128, Vec<u64>>,
  trace: Option<Vec<u64>>,
  nroots: usize,
  cands: Vec<Cand>,
  maxcnt: HashMap<O, (usize, usize)>,
}

#[derive(Clone, Debug)]
struct Cand {
  thr: u32,
  p: P,
  key: Vec<C>,
  lit: Ast,
}

struct Enc {
  z: Z,
  x: Vec<Ast>,
  o: Vec<Ast>,
  len: usize,
  last: HashMap<P, Ast>,
  end: HashMap<N, (Ast, Vec<N>)>,
  open: HashMap<(O, bool), Vec<N>>,
  cur: HashMap<(O, C), Ast>,
  pos: Vec<(P, u32, Pend)>,
}

fn dbg() -> bool {
  std::env::var("LSYM_CONC").is_ok()
}

impl<'a> Conc<'a> {
  pub fn new(
    vm: &'a mut Vm,
    start: State,
    values: Vec<i64>,
    deadline: Instant,
    seed: u64,
    res: &'a mut ConcResult,
  ) -> Conc<'a> {
    vm.atomic_cells.clear();
    let mut c = Conc {
      vm,
      start,
      n: vec![],
      pl: vec![],
      pindex: HashMap::new(),
      roots: HashMap::new(),
      index: HashMap::new(),
      live: Default::default(),
      objs: HashMap::new(),
      locksites: Default::default(),
      restart: false,
      contents: HashMap::new(),
      of: HashMap::new(),
      lists: HashMap::new(),
      list: HashMap::new(),
      ncontent: 0,
      thr_of_spawn: HashMap::new(),
      nthr: 0,
      deadline,
      max_nodes: 6000,
      max_sleeps: 3,
      res,
      rng: seed.wrapping_mul(0x9E3779B97F4A7C15) | 1,
      fails: Default::default(),
      initial: None,
      values,
      strict: false,
      wheres: HashMap::new(),
      ctrace: HashMap::new(),
      trace: None,
      verify: std::env::var("LSYM_VERIFY").is_ok(),
      recheck: false,
      unmerged: false,
      nroots: 0,
      cands: vec![],
      maxcnt: HashMap::new(),
    };
    c.clear();
    c
  }
  fn clear(&mut self) {
    self.n = vec![Node {
      thr: 0,
      from: 0,
      to: 0,
      key: vec![],
      kind: Kind::Other,
      rel: None,
      reads: vec![],
      mods: vec![],
      join: None,
      mark: None,
    }];
    self.pl = vec![Place { thr: 0, pend: Pend::Local, held: vec![], hash: 0, trace: None, out: vec![] }];
    self.pindex.clear();
    self.maxcnt.clear();
    self.roots.clear();
    self.index.clear();
    self.objs.clear();
    self.contents.clear();
    self.of.clear();
    self.lists.clear();
    self.list.clear();
    self.ncontent = 0;
    self.thr_of_spawn.clear();
    self.nthr = 0;
    self.initial = None;
  }
  fn rand(&mut self) -> u64 {
    self.rng ^= self.rng << 13;
    self.rng ^= self.rng >> 7;
    self.rng ^= self.rng << 17;
    self.rng >> 11
  }

  // ---------- objects and contents ----------
  /// The object (lock, atomic, condition variable) whose header is at an address: its
  /// name and what it held when it was first met.
  fn obj(&mut self, st: &State, ro: &mut HashMap<Name, O>, head: u64) -> O {
    let key = Vm::cell_name(st, head);
    if let Some(o) = ro.get(&key) {
      return *o;
    }
    if key.0 != 0 && self.locksites.insert(key.0) {
      self.restart = true;
    }
    ro.insert(key, 0); // in progress: it may be reachable from itself
    let size = match st.mem.get(head) {
      Some((m, off)) => word(m, off + 8),
      None => 0,
    };
    let h = if size == 0 { 0 } else { self.content(st, ro, head) };
    let o = match self.objs.get(&(key, h)) {
      Some(o) => *o,
      None => {
        let o = self.objs.len() as O + 1;
        self.objs.insert((key, h), o);
        if size == 0 {
          self.intern_list(o, vec![]);
        } else {
          self.intern(o, h);
        }
        o
      }
    };
    ro.insert(key, o);
    o
  }
  fn intern(&mut self, o: O, h: u128) -> C {
    if let Some(c) = self.contents.get(&(o, h)) {
      return *c;
    }
    self.ncontent += 1;
    self.contents.insert((o, h), self.ncontent);
    self.of.entry(o).or_default().push(self.ncontent);
    self.ncontent
  }
  fn intern_list(&mut self, o: O, l: Vec<N>) -> C {
    if let Some(c) = self.lists.get(&(o, l.clone())) {
      return *c;
    }
    self.ncontent += 1;
    self.lists.insert((o, l.clone()), self.ncontent);
    self.list.insert(self.ncontent, l);
    self.of.entry(o).or_default().push(self.ncontent);
    self.ncontent
  }
  /// Structural hash of what a lock (or atomic cell) protects: memory reachable from it
  /// up to the next lock; reference counts and addresses do not count.
  fn content(&mut self, st: &State, ro: &mut HashMap<Name, O>, head: u64) -> u128 {
    let mut h = Hash::new();
    let mut seen: HashMap<u64, u64> = HashMap::new();
    let mut queue: Vec<(u64, usize, usize)> = vec![];
    match st.mem.get(head) {
      None => return 1,
      Some((o, off)) => {
        let n = word(o, off + 8) as usize;
        queue.push((head >> OBJ_SHIFT, off + 16, (off + 16 + n).min(o.data.len())));
      }
    }
    if self.verify {
      h.t = Some(vec![]);
    }
    self.walk(st, ro, &mut h, &mut queue, &mut seen);
    if let Some(t) = h.t.take() {
      self.ctrace.insert(h.done(), t);
    }
    h.done()
  }
  fn walk(
    &mut self,
    st: &State,
    ro: &mut HashMap<Name, O>,
    h: &mut Hash,
    queue: &mut Vec<(u64, usize, usize)>,
    seen: &mut HashMap<u64, u64>,
  ) {
    let omask = (1u64 << OBJ_SHIFT) - 1;
    let mut q = 0;
    while q < queue.len() {
      let (id, lo, hi) = queue[q];
      q += 1;
      let base = id << OBJ_SHIFT;
      let o = match st.mem.get(base) {
        Some((o, _)) => o,
        None => continue,
      };
      h.put(0xB10C ^ ((hi - lo) as u64) << 16);
      let mut p = lo;
      while p < hi {
        let e = (p + 8).min(hi);
        if let Some(m) = &o.sym {
          if m.range(p as u32..e as u32).next().is_some() {
            for (k, v) in m.range(p as u32..e as u32) {
              h.put(0x51 << 56 | (*k as u64) << 8 | v.1 as u64);
              h.put(v.0 as u64);
            }
            p = e;
            continue;
          }
        }
        if e - p < 8 || p % 8 != 0 {
          let e = e.min(p + 8 - p % 8);
          for k in p..e {
            h.put(o.data[k] as u64);
          }
          p = e;
          continue;
        }
        let w = word(o, p);
        if w == ARC_MAGIC {
          h.put(0xA2C);
          p += 32;
          continue;
        }
        if w == MAGIC {
          let q = self.obj(st, ro, base + p as u64);
          h.put(0x10C4 ^ (q as u64) << 16);
          let size = word(o, p + 8) as usize;
          p += 16 + size;
          continue;
        }
        if !self.vm.atomic_cells.is_empty() && o.heap {
          if self.vm.atomic_cells.contains(&Vm::cell_name(st, base + p as u64)) {
            h.put(0xA70);
            p = e;
            continue;
          }
        }
        let t = w >> OBJ_SHIFT;
        if t != 0 && t < st.mem.next as u64 {
          match st.mem.get(w & !omask) {
            Some((to, _)) if to.heap || to.stack => {
              let k = seen.len() as u64;
              let k = *seen.entry(t).or_insert_with(|| {
                queue.push((t, 0, to.data.len()));
                k
              });
              h.put(0x9077 ^ k << 16);
              h.put(w & omask);
            }
            Some(_) => h.put(w),
            None => h.put(0xF4EE),
          }
        } else {
          h.put(w);
        }
        p = e;
      }
    }
  }
  /// Hash of everything the further behaviour of thread t depends on, apart from what it
  /// will read under locks.
  fn local_hash(&mut self, r: &mut Run, t: usize) -> u128 {
    let mut ro = std::mem::take(&mut r.objs);
    let h = self.local_hash_of(r, &mut ro, t);
    r.objs = ro;
    h
  }
  fn local_hash_of(&mut self, r: &Run, ro: &mut HashMap<Name, O>, t: usize) -> u128 {
    let st = &r.st;
    let th = &st.threads[t];
    let mut h = Hash::new();
    if self.verify {
      h.t = Some(vec![]);
    }
    let omask = (1u64 << OBJ_SHIFT) - 1;
    let mut seen: HashMap<u64, u64> = HashMap::new();
    let mut queue: Vec<(u64, usize, usize)> = vec![];
    match &r.pend[t] {
      Pend::Done => {
        h.put(1);
        return h.done();
      }
      Pend::Wake { o, cv, ev } => {
        h.put(2);
        h.put(*o as u64);
        h.put(*cv as u64);
        h.put(*ev as u64);
      }
      Pend::Fail => h.put(4),
      _ => {
        h.put(3);
        h.put(r.sleeps[t] as u64);
        // further locks created by the thread are named by these counts
        let u = r.uid[t] as u64;
        let mut cs: Vec<(u64, u32)> =
          self.locksites.iter().filter_map(|k| st.sites.get(k).filter(|c| c.0 == u).map(|c| (*k, c.1))).collect();
        cs.sort();
        for (k, c) in cs {
          h.put(k);
          h.put(c as u64);
        }
        if let Pend::Join { t } = &r.pend[t] {
          h.put(*t as u64);
        }
      }
    }
    for s in &r.held[t] {
      h.put(s.o as u64);
      h.put(s.w as u64);
      h.put(s.from as u64);
      if let Some((o, off)) = st.mem.get(s.a) {
        let n = word(o, off + 8) as usize;
        queue.push((s.a >> OBJ_SHIFT, off + 16, (off + 16 + n).min(o.data.len())));
      }
    }
    let mut put = |h: &mut Hash, queue: &mut Vec<(u64, usize, usize)>, v: Val| {
      if v.e != 0 {
        h.put(0x51);
        h.put(v.e as u64);
        return;
      }
      let w = v.c as u64;
      let id = w >> OBJ_SHIFT;
      if id != 0 && id < st.mem.next as u64 {
        match st.mem.get(w & !omask) {
          Some((to, _)) if to.heap || to.stack => {
            let k = seen.len() as u64;
            let k = *seen.entry(id).or_insert_with(|| {
              queue.push((id, 0, to.data.len()));
              k
            });
            h.put(0x9077 ^ k << 16);
            h.put(w & omask);
          }
          Some(_) => h.put(w),
          None => h.put(0xF4EE),
        }
      } else {
        h.put(w);
        h.put((v.c >> 64) as u64);
      }
    };
    let nf = th.rest.len() + th.top.is_some() as usize;
    for i in 0..nf {
      let (f, inside) = if i < th.rest.len() { (&*th.rest[i], true) } else { (th.top.as_ref().unwrap(), false) };
      h.put(f.f.id as u64);
      h.put((f.ip as u64) << 32 | f.bb as u64);
      let inside = inside || matches!(r.pend[t], Pend::Wake { .. });
      for k in self.live.at(&f.f, f.bb, f.ip, inside).iter() {
        put(&mut h, &mut queue, f.regs[*k as usize]);
      }
    }
    let mut tls: Vec<(usize, u64)> = th.tls.iter().map(|x| (*x.0, *x.1)).collect();
    tls.sort();
    for (k, a) in tls {
      h.put(k as u64);
      if let Some((o, _)) = st.mem.get(a) {
        queue.push((a >> OBJ_SHIFT, 0, o.data.len()));
      }
    }
    self.walk(st, ro, &mut h, &mut queue, &mut seen);
    self.trace = h.t.take();
    h.done()
  }
  /// The place with this local state that can follow `from` (no cycles).
  fn place(&mut self, r: &mut Run, t: usize, from: P) -> P {
    let hash = if self.unmerged { 0 } else { self.local_hash(r, t) };
    let thr = r.uid[t];
    let held: Vec<(O, bool)> = r.held[t].iter().map(|s| (s.o, s.w)).collect();
    let same = if self.unmerged { vec![] } else { self.pindex.get(&(thr, hash)).cloned().unwrap_or_default() };
    for p in same {
      if self.pl[p as usize].pend == r.pend[t] && self.pl[p as usize].held == held && !self.leads(p, from) {
        return p;
      }
    }
    let p = self.pl.len() as P;
    if self.verify {
      let th = &r.st.threads[t];
      let w = th.rest.iter().map(|f| (f.f.id as u64) << 32 | f.ip as u64).chain(th.top.iter().map(|f| (f.f.id as u64) << 32 | f.ip as u64)).collect();
      self.wheres.insert(p, w);
    }
    self.pl.push(Place { thr, pend: r.pend[t].clone(), held, hash, trace: self.trace.clone(), out: vec![] });
    self.pindex.entry((thr, hash)).or_default().push(p);
    p
  }
  fn leads(&self, p: P, q: P) -> bool {
    let mut seen = std::collections::HashSet::new();
    let mut todo = vec![p];
    while let Some(p) = todo.pop() {
      if p == q {
        return true;
      }
      if seen.insert(p) {
        for e in &self.pl[p as usize].out {
          todo.push(self.n[*e as usize].to);
        }
      }
    }
    false
  }

}

struct Hash {
  a: u64,
  b: u64,
  t: Option<Vec<u64>>, // everything put, for debugging
}
impl Hash {
  fn new() -> Hash {
    Hash { a: 0x243F_6A88_85A3_08D3, b: 0x1319_8A2E_0370_7344, t: None }
  }
  fn put(&mut self, v: u64) {
    if let Some(t) = &mut self.t {
      t.push(v);
    }
    self.a = (self.a ^ v).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    self.a ^= self.a >> 29;
    self.b = (self.b.rotate_left(23) ^ v.wrapping_mul(0xC2B2_AE3D_27D4_EB4F)).wrapping_mul(0x1656_67B1_9E37_79F9);
    self.b ^= self.b >> 31;
  }
  fn done(&self) -> u128 {
    (self.a as u128) << 64 | self.b as u128
  }
}
fn word(o: &Obj, off: usize) -> u64 {
  if off + 8 > o.data.len() {
    return 0;
  }
  u64::from_le_bytes(o.data[off..off + 8].try_into().unwrap())
}

impl<'a> Conc<'a> {
  // ---------- running ----------
  /// Run thread t locally up to its next visible action.
  fn local(&mut self, r: &mut Run, t: usize) -> Result<(), String> {
    loop {
      r.st.alloc_names = true;
      match self.vm.run(&mut r.st, t) {
        Stop::ThreadEnd => {
          r.pend[t] = Pend::Done;
          r.act[t] = None;
          return Ok(());
        }
        Stop::Visible(act) => {
          let p = match &act {
            Act::Lock { a, w } => Pend::Lock { o: self.obj(&r.st, &mut r.objs, *a), w: *w },
            Act::Unlock { .. } => Pend::Local,
            Act::Atomic { a, w } => Pend::Atomic { o: self.obj(&r.st, &mut r.objs, *a - 16), w: *w },
            Act::CvWait { cv, .. } => Pend::CvWait { cv: self.obj(&r.st, &mut r.objs, *cv) },
            Act::CvNotify { cv, .. } => Pend::Notify { cv: self.obj(&r.st, &mut r.objs, *cv) },
            Act::Join { t: u } => Pend::Join { t: *u as u32 },
            Act::Spawn { .. } | Act::Mark { .. } | Act::Yield | Act::Concurrent => Pend::Local,
            Act::Sleep { .. } => {
              r.sleeps[t] += 1;
              if r.sleeps[t] > self.max_sleeps {
                Pend::Parked
              } else {
                Pend::Local
              }
            }
            a => return Err(format!("action {:?} is not supported between threads", a)),
          };
          r.pend[t] = p;
          r.act[t] = Some(act);
          return Ok(());
        }
        Stop::Check { cond, msg } => {
          if cond.e != 0 {
            return Err("symbolic check between threads".into());
          }
          r.fail = Some(("check".into(), msg));
          r.pend[t] = Pend::Fail;
          return Ok(());
        }
        Stop::Panic(m) => {
          r.fail = Some(("panic".into(), format!("PANIC {}", m)));
          r.pend[t] = Pend::Fail;
          return Ok(());
        }
        Stop::Budget => {
          r.fail = Some((
            "livelock".into(),
            format!("LIVELOCK step budget exhausted in thread {} at {}", t, where_is(&r.st, t)),
          ));
          r.pend[t] = Pend::Fail;
          return Ok(());
        }
        Stop::Bad(m) => return Err(format!("{} [at {}]", m, where_is(&r.st, t))),
        Stop::Prune => return Err("assumption between threads".into()),
        Stop::Branch(_) | Stop::Concretize(_) | Stop::Assume(_) => {
          return Err("symbolic branch between threads".into())
        }
      }
    }
  }

  fn new_run(&mut self) -> Result<Run, String> {
    let n = self.start.threads.len();
    let mut r = Run {
      st: self.start.clone(),
      cur: vec![0; n],
      uid: (0..n as u32).collect(),
      pend: vec![Pend::Local; n],
      act: vec![None; n],
      held: vec![vec![]; n],
      ver: HashMap::new(),
      objs: HashMap::new(),
      sleeps: vec![0; n],
      cnt: HashMap::new(),
      sched: vec![],
      fail: None,
    };
    r.st.steps = 0;
    if self.nthr == 0 {
      self.nthr = n as u32;
    }
    if let Some(i) = self.initial.clone() {
      r.pend = i.0.clone();
      r.act = i.1.clone();
      r.st = i.2.clone();
      r.objs = i.3.clone();
      r.cur = (0..n as u32).map(|t| self.roots[&t]).collect();
      return Ok(r);
    }
    if r.st.allocs.is_empty() {
      r.st.allocs.push((0, 0)); // name 0: allocated before the concurrent phase
    }
    for t in 0..n {
      match r.st.threads[t].stat.clone() {
        TStat::Done => {
          r.pend[t] = Pend::Done;
        }
        TStat::Ready => {
          r.st.uid = t as u64;
          self.local(&mut r, t)?;
          if r.fail.is_some() {
            return Err("failure before the first action".into());
          }
        }
        TStat::CvWaiting { .. } => {
          return Err(format!("thread {} waits on a condition variable before concurrent()", t))
        }
        TStat::Blocked(_) | TStat::CvNotified { .. } => {
          return Err(format!("thread {} is blocked before concurrent()", t))
        }
        TStat::Sleeping(_) => {
          // it will return from the sleep
          r.pend[t] = Pend::Local;
          r.act[t] = None;
        }
        s => return Err(format!("thread {} is {:?} at concurrent()", t, s)),
      }
    }
    self.nroots = n;
    for t in 0..n {
      let p = self.place(&mut r, t, 0);
      r.cur[t] = p;
      self.roots.insert(t as u32, p);
    }
    self.initial = Some(Rc::new((r.pend.clone(), r.act.clone(), r.st.clone(), r.objs.clone())));
    Ok(r)
  }

  fn enabled(&self, r: &Run, t: usize) -> bool {
    match &r.pend[t] {
      Pend::Done | Pend::Parked | Pend::Fail => false,
      Pend::Lock { .. } => match &r.act[t] {
        Some(Act::Lock { a, w }) => can_lock(&r.st, *a, *w, t),
        _ => false,
      },
      Pend::Wake { .. } => match r.st.threads[t].stat {
        TStat::CvNotified { lock, .. } => can_lock(&r.st, lock, true, t),
        _ => false,
      },
      Pend::Join { .. } => match &r.act[t] {
        Some(Act::Join { t: u }) => {
          r.uid.iter().position(|v| *v as u64 == *u).map_or(false, |o| r.pend[o] == Pend::Done)
        }
        _ => false,
      },
      _ => true,
    }
  }

  fn ver(&self, r: &Run, o: O) -> C {
    r.ver.get(&o).copied().unwrap_or_else(|| self.of[&o][0])
  }

  /// Was anything visible to others changed in this section?
  fn changed(&self, st: &State, s: &Sect) -> bool {
    if !s.w {
      return false;
    }
    for (id, off, len) in &s.stores {
      let old = &s.old[id];
      if let Some((new, _)) = st.mem.get(*id << OBJ_SHIFT) {
        let (a, b) = (*off as usize, (*off + *len) as usize);
        if old.data[a..b] != new.data[a..b] {
          return true;
        }
        let so: Vec<_> = old.sym.iter().flat_map(|m| m.range(*off..*off + *len)).collect();
        let sn: Vec<_> = new.sym.iter().flat_map(|m| m.range(*off..*off + *len)).collect();
        if so != sn {
          return true;
        }
      }
    }
    false
  }

  /// Perform the pending action of thread t. Returns the node.
  fn step(&mut self, r: &mut Run, t: usize) -> Result<N, String> {
    let from = r.cur[t];
    let uid = r.uid[t];
    let pend = r.pend[t].clone();
    let act = r.act[t].clone();
    let mut key: Vec<C> = vec![];
    let mut reads: Vec<(O, Sel)> = vec![];
    let mut mods: Vec<(O, C, C)> = vec![];
    let mut join = None;
    let mut mark = None;
    let mut rel: Option<usize> = None;
    match &pend {
      Pend::Lock { o, .. } | Pend::Atomic { o, .. } | Pend::CvWait { cv: o } | Pend::Notify { cv: o } => {
        let c = self.ver(r, *o);
        key.push(c);
        reads.push((*o, Sel::Is(c)));
      }
      Pend::Wake { o, cv, ev } => {
        let c = self.ver(r, *o);
        key.push(c);
        reads.push((*o, Sel::Is(c)));
        reads.push((*cv, Sel::Not(*ev)));
      }
      Pend::Join { t: u } => join = Some(*u),
      _ => {}
    }
    let ik = (from, key.clone());
    let known = self.index.get(&ik).copied();
    let id = known.unwrap_or(self.n.len() as N);
    r.st.uid = uid as u64;
    let kind;
    let mut spawned: Option<usize> = None;
    let mut ran = false;
    match (&pend, act) {
      (Pend::Wake { o, .. }, _) => {
        let lock = match r.st.threads[t].stat {
          TStat::CvNotified { lock, .. } => lock,
          _ => return Err("wake of a thread that was not notified".into()),
        };
        do_lock(&mut r.st, lock, true, t);
        r.st.threads[t].stat = TStat::Ready;
        self.vm.complete(&mut r.st, t, Some(Val::c(0)));
        r.sched.push(t as u32);
        let first_obj = r.st.mem.next;
        r.held[t].push(Sect {
          o: *o,
          a: lock,
          w: true,
          node: id,
          from: key[0],
          first_obj,
          stores: vec![],
          old: HashMap::new(),
        });
        kind = Kind::Acq { o: *o, w: true };
      }
      (_, None) => {
        // return from a sleep that began before the concurrent phase
        r.st.threads[t].stat = TStat::Ready;
        self.vm.complete(&mut r.st, t, None);
        r.sched.push(t as u32);
        kind = Kind::Other;
      }
      (Pend::Lock { o, w }, Some(Act::Lock { a, .. })) => {
        match try_act(self.vm, &mut r.st, t, &Act::Lock { a, w: *w }) {
          AR::Done(_) => {}
          AR::Fail(m) => return Err(m),
          AR::Block => return Err("scheduled a blocked acquisition".into()),
        }
        self.vm.complete(&mut r.st, t, None);
        r.sched.push(t as u32);
        let first_obj = r.st.mem.next;
        r.held[t].push(Sect {
          o: *o,
          a,
          w: *w,
          node: id,
          from: key[0],
          first_obj,
          stores: vec![],
          old: HashMap::new(),
        });
        kind = Kind::Acq { o: *o, w: *w };
      }
      (Pend::Atomic { o, w }, Some(Act::Atomic { a, .. })) => {
        self.vm.complete(&mut r.st, t, None);
        r.sched.push(t as u32);
        self.local_logged(r, t)?;
        if *w {
          self.modify(r, known, *o, a, true, key[0], &mut mods);
        }
        ran = true;
        kind = Kind::Other;
      }
      (Pend::CvWait { cv }, Some(Act::CvWait { cv: ca, lock })) => {
        let i = r.held[t]
          .iter()
          .rposition(|s| s.a == lock)
          .ok_or("condvar wait without its mutex")?;
        let s = r.held[t].remove(i);
        rel = Some(i);
        if self.changed(&r.st, &s) {
          self.modify(r, known, s.o, s.a, false, s.from, &mut mods);
        }
        if s.w && mods.iter().all(|m| m.0 != s.o) {
          mods.push((s.o, s.from, s.from));
        }
        match try_act(self.vm, &mut r.st, t, &Act::CvWait { cv: ca, lock }) {
          AR::Block => {}
          AR::Fail(m) => return Err(m),
          _ => return Err("condvar wait".into()),
        }
        r.sched.push(t as u32);
        let mut l = self.list[&key[0]].clone();
        l.push(id);
        let c = self.intern_list(*cv, l);
        mods.push((*cv, key[0], c));
        r.ver.insert(*cv, c);
        kind = Kind::Other;
        ran = true;
        r.pend[t] = Pend::Wake { o: s.o, cv: *cv, ev: id };
        r.act[t] = None;
      }
      (Pend::Notify { cv }, Some(Act::CvNotify { cv: ca, all })) => {
        let mut l = self.list[&key[0]].clone();
        if !l.is_empty() {
          if all {
            l.clear();
          } else {
            l.remove(0);
          }
          let c = self.intern_list(*cv, l);
          mods.push((*cv, key[0], c));
          r.ver.insert(*cv, c);
        }
        try_act(self.vm, &mut r.st, t, &Act::CvNotify { cv: ca, all });
        self.vm.complete(&mut r.st, t, None);
        r.sched.push(t as u32);
        kind = Kind::Other;
      }
      (Pend::Join { .. }, Some(_)) => {
        self.vm.complete(&mut r.st, t, None);
        r.sched.push(t as u32);
        kind = Kind::Other;
      }
      (_, Some(Act::Unlock { a, w })) => {
        let i = r.held[t]
          .iter()
          .rposition(|s| s.a == a && s.w == w)
          .ok_or("unlock of a lock that is not held")?;
        let s = r.held[t].remove(i);
        rel = Some(i);
        if self.changed(&r.st, &s) {
          self.modify(r, known, s.o, s.a, false, s.from, &mut mods);
        }
        if s.w && mods.iter().all(|m| m.0 != s.o) {
          mods.push((s.o, s.from, s.from));
        }
        if !do_unlock(&mut r.st, a, w, t) {
          return Err("unlock of a lock that is not held".into());
        }
        self.vm.complete(&mut r.st, t, None);
        r.sched.push(t as u32);
        kind = Kind::Other;
      }
      (_, Some(Act::Mark { k, a, b })) => {
        r.st.marks.push((t, k, a, b));
        mark = Some((k, a, b));
        self.vm.complete(&mut r.st, t, None);
        r.sched.push(t as u32);
        kind = Kind::Other;
      }
      (_, Some(Act::Spawn { f, data })) => {
        let th = self.vm.new_thread(f, data)?;
        r.st.threads.push(th);
        let nt = r.st.threads.len() - 1;
        let nu = match self.thr_of_spawn.get(&id) {
          Some(u) => *u,
          None => {
            let u = self.nthr;
            self.nthr += 1;
            self.thr_of_spawn.insert(id, u);
            u
          }
        };
        r.cur.push(0);
        r.uid.push(nu);
        r.pend.push(Pend::Local);
        r.act.push(None);
        r.held.push(vec![]);
        r.sleeps.push(0);
        spawned = Some(nt);
        self.vm.complete(&mut r.st, t, Some(Val::c(nu as u128)));
        r.sched.push(t as u32);
        kind = Kind::Other;
      }
      (_, Some(Act::Sleep { .. })) => {
        self.vm.complete(&mut r.st, t, None);
        r.sched.push(t as u32);
        r.sched.push(t as u32);
        kind = Kind::Other;
      }
      (_, Some(Act::Yield)) | (_, Some(Act::Concurrent)) => {
        self.vm.complete(&mut r.st, t, None);
        r.sched.push(t as u32);
        kind = Kind::Other;
      }
      (p, a) => return Err(format!("cannot perform {:?} {:?}", p, a)),
    }
    let mut kind = kind;
    if !ran {
      self.local_logged(r, t)?;
      // leaf section: the next action is the matching release
      if let Kind::Acq { o, w } = kind {
        let leaf = match (&r.act[t], r.held[t].last()) {
          (Some(Act::Unlock { a, w }), Some(s)) if s.node == id => *a == s.a && *w == s.w,
          _ => false,
        };
        if leaf && r.fail.is_none() && !matches!(pend, Pend::Wake { .. }) {
          let s = r.held[t].pop().unwrap();
          if self.changed(&r.st, &s) {
            self.modify(r, known, s.o, s.a, false, s.from, &mut mods);
          }
          do_unlock(&mut r.st, s.a, s.w, t);
          self.vm.complete(&mut r.st, t, None);
          r.sched.push(t as u32);
          kind = Kind::Leaf { o, w };
          self.local_logged(r, t)?;
        }
      }
    }
    if let Some(nt) = spawned {
      // the new thread, up to its first action
      let nu = r.uid[nt];
      r.st.uid = nu as u64;
      self.local_logged(r, nt)?;
      match self.roots.get(&nu).copied() {
        Some(p) => {
          if self.pl[p as usize].pend != r.pend[nt] {
            return Err("a spawned thread started differently in two runs".into());
          }
          r.cur[nt] = p;
        }
        None => {
          let p = self.place(r, nt, 0);
          self.roots.insert(nu, p);
          r.cur[nt] = p;
        }
      }
    }
    let mut counts: Vec<(O, usize, usize)> =
      mods.iter().map(|m| (m.0, (m.1 != m.2) as usize, rel.is_some() as usize)).collect();
    if let Kind::Acq { o, w: true } | Kind::Leaf { o, w: true } = &kind {
      counts.push((*o, 0, 1));
    }
    for (o, a, b) in counts {
      let c = r.cnt.entry(o).or_default();
      c.0 += a;
      c.1 += b;
      let m = self.maxcnt.entry(o).or_default();
      m.0 = m.0.max(c.0);
      m.1 = m.1.max(c.1);
    }
    match known {
      Some(i) => {
        let n = self.n[i as usize].clone();
        let q = &self.pl[n.to as usize];
        if n.kind != kind || q.pend != r.pend[t] || n.mods != mods || n.mark != mark || n.rel != rel {
          if dbg() {
            eprintln!("was {:?} {:?} {:?}\nnow {:?} {:?} {:?}", n.kind, q.pend, n.mods, kind, r.pend[t], mods);
          }
          return Err(format!(
            "the same event behaved differently in two runs (thread {} at {})",
            t,
            where_is(&r.st, t)
          ));
        }
        let (qh, qt) = (q.hash, q.trace.clone());
        if (self.verify || self.recheck) && !self.unmerged && qh != self.local_hash(r, t) {
          if let (Some(a), Some(b)) = (qt, self.trace.clone()) {
            let k = (0..a.len().min(b.len())).find(|k| a[*k] != b[*k]).unwrap_or(a.len().min(b.len()));
            let (lo, ha, hb) = (k.saturating_sub(24), (k + 6).min(a.len()), (k + 6).min(b.len()));
            eprintln!("at {} of {} {}\n was {:x?}\n now {:x?}", k, a.len(), b.len(), &a[lo..ha], &b[lo..hb]);
          }
          return Err(format!("the same event led to different states (thread {} at {})", t, where_is(&r.st, t)));
        }
        r.cur[t] = n.to;
      }
      None => {
        let to = self.place(r, t, from);
        r.cur[t] = to;
        self.n.push(Node { thr: uid, from, to, key, kind, rel, reads, mods, join, mark });
        self.pl[from as usize].out.push(id);
        self.index.insert(ik, id);
      }
    }
    Ok(id)
  }

  /// Object o changed: its new content.
  fn modify(&mut self, r: &mut Run, known: Option<N>, o: O, a: u64, atomic: bool, from: C, mods: &mut Vec<(O, C, C)>) {
    if let Some(i) = known {
      // what a known event does to the object is known
      if let Some(m) = self.n[i as usize].mods.iter().find(|m| m.0 == o).copied() {
        mods.push(m);
        r.ver.insert(o, m.2);
      }
      return;
    }
    let head = if atomic { a - 16 } else { a };
    let h = self.content(&r.st, &mut r.objs, head);
    let c = self.intern(o, h);
    if c != from {
      mods.push((o, from, c));
      r.ver.insert(o, c);
    }
  }

  /// Local run with the stores attributed to the exclusive sections held.
  fn local_logged(&mut self, r: &mut Run, t: usize) -> Result<(), String> {
    let need = r.held[t].iter().any(|s| s.w);
    if need {
      r.st.slog = Some(Default::default());
    }
    let e = self.local(r, t);
    if need {
      if let Some(l) = r.st.slog.take() {
        for s in r.held[t].iter_mut().filter(|s| s.w) {
          for (id, off, len) in &l.stores {
            if (*id as usize) < s.first_obj {
              s.stores.push((*id, *off, *len));
              if !s.old.contains_key(id) {
                s.old.insert(*id, l.old[id].clone());
              }
            }
          }
        }
      }
    }
    e
  }

  fn report(&mut self, kind: &str, msg: String, r: &Run) {
    let k = format!("{}:{}", kind, msg);
    if !self.fails.insert(k) {
      return;
    }
    let log = r.st.log.iter().map(|(s, v)| (s.clone(), v.c as i64)).collect();
    self.res.failures.push(Failure {
      kind: kind.into(),
      msg,
      values: self.values.clone(),
      log,
      sched: r.sched.clone(),
      marks: self.final_marks(r),
    });
  }
  fn final_marks(&self, r: &Run) -> Vec<[i64; 4]> {
    let mut v: Vec<[i64; 4]> = r.st.marks.iter().map(|m| [m.0 as i64, m.1, m.2, m.3]).collect();
    let live = r.pend.iter().filter(|p| **p != Pend::Done).count() as i64;
    v.push([99, 999, live, 0]);
    v
  }

  /// Run to the end with an arbitrary scheduler.
  fn finish(&mut self, r: &mut Run, mode: u64) -> Result<(), String> {
    let mut cur = 0usize;
    loop {
      if r.fail.is_some() {
        let (k, m) = r.fail.clone().unwrap();
        self.report(&k, m, r);
        return Ok(());
      }
      if self.n.len() > self.max_nodes {
        return Err(LATE.into());
      }
      if Instant::now() > self.deadline {
        return Err("time limit reached".into());
      }
      // a thread that waits for a lock it holds
      for t in 0..r.pend.len() {
        if let Some(Act::Lock { a, w }) = &r.act[t] {
          if self_deadlock(&r.st, *a, *w, t) {
            let m = format!(
              "DEADLOCK thread {} waits for a lock it holds itself ({})",
              t,
              where_is(&r.st, t)
            );
            r.sched.push(t as u32);
            self.report("deadlock", m, r);
            return Ok(());
          }
        }
      }
      let en: Vec<usize> = (0..r.pend.len()).filter(|t| self.enabled(r, *t)).collect();
      if en.is_empty() {
        return Ok(());
      }
      let t = match mode {
        0 => en[0],
        1 => *en.last().unwrap(),
        2 => {
          // stay on the same thread as long as possible
          if en.contains(&cur) && self.rand() % 8 != 0 {
            cur
          } else {
            en[self.rand() as usize % en.len()]
          }
        }
        _ => en[self.rand() as usize % en.len()],
      };
      cur = t;
      self.step(r, t)?;
    }
  }

  /// Follow a list of nodes (a linearization).
  fn follow(&mut self, r: &mut Run, order: &[N]) -> Result<(), String> {
    for &x in order {
      let (u, from) = (self.n[x as usize].thr, self.n[x as usize].from);
      let t = match r.uid.iter().position(|v| *v == u) {
        Some(t) => t,
        None => return Err("model not realizable: thread does not exist yet".into()),
      };
      if r.cur[t] != from {
        return Err("model not realizable: wrong predecessor".into());
      }
      if !self.enabled(r, t) {
        return Err(format!("model not realizable: event {} {:?} is not enabled", x, self.n[x as usize].kind));
      }
      let y = self.step(r, t)?;
      if y != x {
        return Err(format!(
          "model not realizable: expected event {} {:?} {:?}, got {} {:?} {:?}",
          x, self.n[x as usize].kind, self.n[x as usize].key, y, self.n[y as usize].kind, self.n[y as usize].key
        ));
      }
      if r.fail.is_some() {
        return Ok(());
      }
    }
    Ok(())
  }

  fn sample(&mut self, r: &Run) {
    // only executions in which everything ended normally
    if r.fail.is_some() || r.pend.iter().any(|p| *p == Pend::Parked) {
      return;
    }
    if r.pend[0] != Pend::Done {
      return;
    }
    let k = self.rand() as usize % 40;
    let s = Sample {
      values: self.values.clone(),
      log: r.st.log.iter().map(|(s, v)| (s.clone(), v.c as i64)).collect(),
      sched: r.sched.clone(),
      marks: self.final_marks(r),
    };
    if self.res.samples.len() < 4 {
      self.res.samples.push(s);
    } else if k < 4 {
      self.res.samples[k] = s;
    }
  }

  pub fn explore(&mut self) -> Result<(), String> {
    self.res.scenarios += 1;
    for _ in 0..20 {
      self.restart = false;
      let mut r = self.explore1();
      if let Err(e) = &r {
        if e != LATE && !self.unmerged && std::env::var("LSYM_VERIFY").is_err() {
          // states that look the same are not (a stale pointer, say): tell them apart by
          // their whole history
          if dbg() {
            eprintln!("  unmerged: {}", e);
          }
          self.unmerged = true;
          self.restart = true;
          r = Ok(());
        }
      }
      if !self.restart {
        return match r {
          Err(e) if e == LATE => self.late(),
          r => r,
        };
      }
      // an allocation site of locks or a counter was met for the first time
      self.clear();
    }
    Err("allocation sites of locks do not settle".into())
  }
  fn explore1(&mut self) -> Result<(), String> {
    // 1. discover events with arbitrary runs
    let q = 100.max(std::env::var("LSYM_Q").ok().and_then(|v| v.parse().ok()).unwrap_or(40));
    let t0 = Instant::now();
    self.discover(q, 50_000)?;
    if self.restart {
      return Ok(());
    }
    if dbg() { eprintln!("  discovered {} events of {} objects with {} contents in {:.1}s", self.n.len(), self.of.len(), self.ncontent, t0.elapsed().as_secs_f64()); }
    if !self.res.failures.is_empty() {
      return Ok(());
    }
    if std::env::var("LSYM_DUMP").is_ok() {
      self.dump_places();
    }
    // 2. the solver decides whether further events are reachable
    let mut enc = self.encode()?;
    // the properties over what is known so far
    let mut decided = self.n.len();
    let r = self.properties(&mut enc);
    match r {
      Err(e) if e == LATE => {
        self.stats(&enc);
        return self.late();
      }
      r => r?,
    }
    if !self.res.failures.is_empty() {
      self.stats(&enc);
      return Ok(());
    }
    let mut first = true;
    loop {
      self.res.rounds += 1;
      if !first {
        enc = self.encode()?;
      }
      first = false;
      let mut found = 0;
      let mut longer = false;
      let mut remaining: Vec<usize> = (0..self.cands.len()).collect();
      loop {
        if Instant::now() > self.deadline {
          self.stats(&enc);
          return self.late();
        }
        remaining.retain(|k| {
          let c = &self.cands[*k];
          !self.index.contains_key(&(c.p, c.key.clone()))
        });
        if remaining.is_empty() {
          break;
        }
        enc.z.push();
        let lits: Vec<Ast> = remaining.iter().map(|k| self.cands[*k].lit).collect();
        let or = enc.z.or(&lits);
        enc.z.assert(or);
        let res = enc.z.check(&[]);
        match res {
          Res::Unsat => {
            enc.z.pop(1);
            break;
          }
          Res::Unknown => {
            self.stats(&enc);
            if Instant::now() > self.deadline {
              return self.late();
            }
            return Err("solver returned unknown on reachability".into());
          }
          Res::Sat => {}
        }
        let m = enc.z.model();
        let order = self.order_of(&enc, m);
        let hit: Vec<usize> =
          remaining.iter().copied().filter(|k| enc.z.eval_bool(m, self.cands[*k].lit)).collect();
        enc.z.model_free(m);
        enc.z.pop(1);
        if hit.is_empty() {
          return Err("no candidate holds in the model".into());
        }
        for k in hit {
          if self.cands[k].p == 0 {
            let mut r = self.new_run()?;
            self.follow(&mut r, &order)?;
            let mode = 2 + (self.rand() & 1);
            self.finish(&mut r, mode)?;
            self.res.runs += 1;
            longer = true;
            continue;
          }
          if self.index.contains_key(&(self.cands[k].p, self.cands[k].key.clone())) {
            continue;
          }
          let mut r = self.new_run()?;
          self.follow(&mut r, &order)?;
          let u = self.cands[k].thr;
          let t = r.uid.iter().position(|v| *v == u).ok_or("candidate thread missing")?;
          if !self.enabled(&r, t) {
            return Err(format!("candidate not enabled: {:?}", self.cands[k]));
          }
          let y = self.step(&mut r, t)?;
          let c = &self.cands[k];
          if self.n[y as usize].key != c.key || self.n[y as usize].from != c.p {
            return Err("candidate not realized".into());
          }
          let mode = 2 + (self.rand() & 1);
          self.finish(&mut r, mode)?;
          self.res.runs += 1;
          self.sample(&r);
          found += 1;
        }
        if !self.res.failures.is_empty() {
          self.stats(&enc);
          return Ok(());
        }
        if longer {
          found += 1;
        }
        if found >= 25 || longer {
          break;
        }
      }
      if std::env::var("LSYM_CONC").is_ok() {
        eprintln!("round {} nodes {} cands {} found {} solver {:.2}s", self.res.rounds, self.n.len(), self.cands.len(), found, enc.z.time);
      }
      if found == 0 {
        break;
      }
      self.stats(&enc);
      self.discover(20, 20_000)?;
      if !self.res.failures.is_empty() {
        return Ok(());
      }
    }
    if self.restart {
      return Ok(());
    }
    self.res.closed += 1;
    self.res.nodes += self.n.len() as u64 - 1;
    self.res.max_nodes = self.res.max_nodes.max(self.n.len() as u64 - 1);
    // 3. properties, unless nothing was found since they were decided
    if decided == self.n.len() {
      self.stats(&enc);
      return Ok(());
    }
    decided = self.n.len();
    let _ = decided;
    let r = self.properties(&mut enc);
    self.stats(&enc);
    match r {
      Err(e) if e == LATE => {
        self.res.closed -= 1;
        self.late()
      }
      r => r,
    }
  }
  /// Out of time: what was found so far is decided, but there may be more.
  fn late(&mut self) -> Result<(), String> {
    self.res.unclosed.push(format!("{:?} ({} events)", self.values, self.n.len() - 1));
    self.res.nodes += self.n.len() as u64 - 1;
    Ok(())
  }

  /// Debugging: why are there different places at the same program point?
  fn dump_places(&self) {
    if let Some((o, v)) = self.of.iter().max_by_key(|x| x.1.len()) {
      eprintln!("object {} with {} contents", o, v.len());
      for ((q, h), c) in self.contents.iter().filter(|x| x.0 .0 == *o).take(12) {
        let _ = q;
        eprintln!("  {}: {:x?}", c, self.ctrace.get(h));
      }
    }
    let mut by: BTreeMap<(u32, Vec<u64>), Vec<usize>> = BTreeMap::new();
    for (i, p) in self.pl.iter().enumerate() {
      if let Some(t) = &p.trace {
        let w: Vec<u64> = self.wheres.get(&(i as P)).cloned().unwrap_or_default();
        let _ = t;
        by.entry((p.thr, w)).or_default().push(i);
      }
    }
    for ((t, w), v) in by {
      eprintln!("thread {} {:?} at {:x?}: {} places", t, self.pl[v[0]].pend, w.iter().rev().take(3).collect::<Vec<_>>(), v.len());
      if v.len() > 1 {
        let a = self.pl[v[0]].trace.as_ref().unwrap();
        for j in v.iter().skip(1).take(4) {
          let b = self.pl[*j].trace.as_ref().unwrap();
          let k = (0..a.len().min(b.len())).find(|k| a[*k] != b[*k]).unwrap_or(a.len().min(b.len()));
          let lo = k.saturating_sub(12);
          eprintln!("    {} of {}/{}: {:x?}\n      {:x?}", k, a.len(), b.len(), &a[lo..(k + 5).min(a.len())], &b[k..(k + 5).min(b.len())]);
        }
      }
    }
  }
  fn discover(&mut self, quiet_max: u32, runs: u64) -> Result<(), String> {
    let mut quiet = 0;
    for i in 0..runs {
      let before = self.n.len();
      let mut r = self.new_run()?;
      self.recheck = i % 8 == 7;
      let fin = self.finish(&mut r, i.min(2 + (i & 1)));
      self.recheck = false;
      fin?;
      self.res.runs += 1;
      self.sample(&r);
      if self.n.len() == before {
        quiet += 1;
        if quiet > quiet_max.max(self.n.len() as u32) {
          break;
        }
      } else {
        quiet = 0;
      }
      if self.restart {
        return Ok(());
      }
      if !self.res.failures.is_empty() && i > 20 {
        break;
      }
    }
    Ok(())
  }

  fn stats(&mut self, e: &Enc) {
    self.res.queries += e.z.queries;
    self.res.sat += e.z.sat;
    self.res.unsat += e.z.unsat;
    self.res.solver_s += e.z.time;
    if e.z.max_time > self.res.solver_max_s {
      self.res.solver_max_s = e.z.max_time;
    }
  }

  fn order_of(&self, e: &Enc, m: Ptr) -> Vec<N> {
    let mut v: Vec<(i128, N)> = vec![];
    for i in 1..e.len {
      if e.z.eval_bool(m, e.x[i]) {
        v.push((e.z.eval_num(m, e.o[i]), i as N));
      }
    }
    v.sort();
    v.into_iter().map(|x| x.1).collect()
  }


  // ---------- encoding ----------
  fn encode(&mut self) -> Result<Enc, String> {
    let left = self.deadline.saturating_duration_since(Instant::now()).as_millis() as u32 + 2000;
    let mut z = Z::new(std::env::var("LSYM_LOGIC").ok().as_deref().or(Some("ALL")), left);
    let len = self.n.len();
    let null: Ast = std::ptr::null_mut();
    let mut x = vec![null; len];
    let mut o = vec![null; len];
    // times: one variable per thread and level (longest path to the event), so that
    // program order is unconditional
    let mut slots: BTreeMap<(u32, usize), Ast> = BTreeMap::new();
    let level = self.levels();
    for i in 1..len {
      x[i] = z.boolv(&format!("x{}", i));
      let (t, l) = (self.n[i].thr, level[self.n[i].from as usize]);
      o[i] = *slots.entry((t, l)).or_insert_with(|| z.intv(&format!("t{}_{}", t, l)));
    }
    let order: Vec<((u32, usize), Ast)> = slots.iter().map(|(k, v)| (*k, *v)).collect();
    for w in order.windows(2) {
      if w[0].0 .0 == w[1].0 .0 {
        let l = z.lt(w[0].1, w[1].1);
        z.assert(l);
      }
    }
    // program order; alternatives exclude each other
    let mut ins: Vec<Vec<N>> = vec![vec![]; self.pl.len()];
    for i in 1..len {
      ins[self.n[i].to as usize].push(i as N);
    }
    for (sp, u) in self.thr_of_spawn.iter() {
      if let Some(p) = self.roots.get(u) {
        ins[*p as usize].push(*sp);
      }
    }
    let isroot: BTreeSet<P> = (0..self.nroots as u32).map(|t| self.roots[&t]).collect();
    for i in 1..len {
      let f = self.n[i].from;
      if isroot.contains(&f) {
        continue;
      }
      let l: Vec<Ast> = ins[f as usize].iter().map(|k| x[*k as usize]).collect();
      let or = z.or(&l);
      let im = z.imp(x[i], or);
      z.assert(im);
      for k in &ins[f as usize] {
        if self.n[*k as usize].thr == self.n[i].thr {
          continue;
        }
        let both = z.and(&[x[i], x[*k as usize]]);
        let im = z.imp(both, z.lt(o[*k as usize], o[i]));
        z.assert(im);
      }
    }
    for p in &self.pl {
      if p.out.len() > 1 {
        let l: Vec<Ast> = p.out.iter().map(|i| x[*i as usize]).collect();
        let a = z.atmost1(&l);
        z.assert(a);
      }
    }
    // join
    let mut dones: HashMap<u32, Vec<N>> = HashMap::new();
    for (p, q) in self.pl.iter().enumerate() {
      if p > 0 && q.pend == Pend::Done {
        dones.entry(q.thr).or_default().extend(ins[p].iter().copied());
      }
    }
    let done0: BTreeSet<u32> =
      (0..self.nroots as u32).filter(|t| self.pl[self.roots[t] as usize].pend == Pend::Done).collect();
    for i in 1..len {
      if let Some(t) = self.n[i].join {
        if done0.contains(&t) {
          continue;
        }
        let c: Vec<Ast> = dones
          .get(&t)
          .map(|v| v.as_slice())
          .unwrap_or(&[])
          .iter()
          .map(|q| z.and(&[x[*q as usize], z.lt(o[*q as usize], o[i])]))
          .collect();
        let d = z.or(&c);
        let im = z.imp(x[i], d);
        z.assert(im);
      }
    }
    // sections
    let mut end: HashMap<N, (Ast, Vec<N>)> = HashMap::new(); // acquire -> (closed, possible releases)
    let mut sections: HashMap<O, Vec<(N, bool, bool)>> = HashMap::new(); // acquire, w, leaf
    for i in 1..len {
      match self.n[i].kind {
        Kind::Acq { o: ob, w } => {
          let rs = self.releases(i as N);
          let closed: Vec<Ast> = rs.iter().map(|r| x[*r as usize]).collect();
          let c = z.or(&closed);
          end.insert(i as N, (c, rs));
          sections.entry(ob).or_default().push((i as N, w, false));
        }
        Kind::Leaf { o: ob, w } => sections.entry(ob).or_default().push((i as N, w, true)),
        _ => {}
      }
    }
    // contents: which modification comes at which position. A content is paired with
    // "exclusively locked" where an object has sections that span several events.
    type H = (C, bool);
    let mut mods: BTreeMap<O, Vec<(N, H, H)>> = BTreeMap::new();
    let mut reads: HashMap<O, Vec<(N, Sel)>> = HashMap::new();
    let spans: BTreeSet<O> =
      sections.iter().filter(|(_, v)| v.iter().any(|s| !s.2)).map(|(o, _)| *o).collect();
    for i in 1..len {
      let n = &self.n[i];
      let mut acq: Option<O> = None;
      match n.kind {
        Kind::Acq { o: ob, w: true } => {
          let c = n.key[0];
          mods.entry(ob).or_default().push((i as N, (c, false), (c, true)));
          acq = Some(ob);
        }
        Kind::Leaf { o: ob, w: true } if spans.contains(&ob) => {
          let c = n.key[0];
          if n.mods.iter().all(|m| m.0 != ob) {
            mods.entry(ob).or_default().push((i as N, (c, false), (c, false)));
          }
        }
        _ => {}
      }
      for m in &n.mods {
        // a write section that spans several events ends here
        let ends = n.rel.is_some() && spans.contains(&m.0) && acq != Some(m.0);
        mods.entry(m.0).or_default().push((i as N, (m.1, ends), (m.2, false)));
      }
      for r in &n.reads {
        reads.entry(r.0).or_default().push((i as N, r.1.clone()));
      }
    }
    let mut cur: HashMap<(O, C), Ast> = HashMap::new();
    let tt = z.and(&[]);
    let mut njs = vec![];
    let mut full: Vec<Ast> = vec![];
    for (ob, cs) in self.of.iter() {
      let empty = vec![];
      let ms = mods.get(ob).unwrap_or(&empty);
      let init = (cs[0], false);
      if ms.is_empty() {
        cur.insert((*ob, init.0), tt);
        continue;
      }
      // positions: one more than seen in any run so far; that the last one cannot be
      // used is part of the closing query
      let seen = self.maxcnt.get(ob).copied().unwrap_or((0, 0));
      let seen = if spans.contains(ob) { seen.1 } else { seen.0 };
      let most = self.most_mods(ms);
      let jmax = most.min(seen + 1);
      // layers of possible contents
      let mut reach: Vec<BTreeSet<H>> = vec![std::iter::once(init).collect()];
      for _ in 0..jmax {
        let l = reach.last().unwrap();
        let next: BTreeSet<H> = ms.iter().filter(|m| l.contains(&m.1)).map(|m| m.2).collect();
        if next.is_empty() {
          break;
        }
        reach.push(next);
      }
      let jmax = reach.len() - 1;
      let t: Vec<Ast> = (0..jmax + 2).map(|j| z.intv(&format!("T{}_{}", ob, j))).collect();
      for j in 0..jmax + 1 {
        let l = z.lt(t[j], t[j + 1]);
        z.assert(l);
      }
      let mut wv: Vec<BTreeMap<usize, Ast>> = vec![BTreeMap::new(); jmax + 2]; // [position][modification]
      for j in 1..=jmax {
        for (k, m) in ms.iter().enumerate() {
          if reach[j - 1].contains(&m.1) {
            wv[j].insert(k, z.boolv(&format!("W{}_{}_{}", ob, k, j)));
          }
        }
      }
      njs.push((jmax, ms.len()));
      let ff = z.or(&[]);
      let mut used = vec![tt];
      let mut s: Vec<BTreeMap<H, Ast>> = vec![std::iter::once((init, tt)).collect()];
      for j in 1..=jmax {
        let all: Vec<Ast> = wv[j].values().copied().collect();
        let a = z.atmost1(&all);
        z.assert(a);
        used.push(z.or(&all));
        let mut by: BTreeMap<H, Vec<Ast>> = BTreeMap::new();
        for (k, a) in wv[j].iter() {
          by.entry(ms[*k].2).or_default().push(*a);
        }
        s.push(by.into_iter().map(|(c, v)| (c, z.or(&v))).collect());
      }
      if jmax < most && jmax == seen + 1 {
        full.push(used[jmax]);
      }
      used.push(ff);
      for j in 2..=jmax {
        let im = z.imp(used[j], used[j - 1]);
        z.assert(im);
      }
      for (k, m) in ms.iter().enumerate() {
        let xs = x[m.0 as usize];
        let mut all = vec![];
        for j in 1..=jmax {
          if let Some(w) = wv[j].get(&k) {
            let f = s[j - 1].get(&m.1).copied().unwrap_or(ff);
            let om = o[m.0 as usize];
            let b = z.and(&[xs, f, z.le(t[j], om), z.le(om, t[j])]);
            let im = z.imp(*w, b);
            z.assert(im);
            all.push(*w);
          }
        }
        let a = z.atmost1(&all);
        z.assert(a);
        let or = z.or(&all);
        let im = z.imp(xs, or);
        z.assert(im);
      }
      // readers
      for (e, sel) in reads.get(ob).map(|v| v.as_slice()).unwrap_or(&[]) {
        if ms.iter().any(|m| m.0 == *e && !m.1 .1) {
          continue; // reads and modifies in one step
        }
        let mut opts = vec![];
        let oe = o[*e as usize];
        let span: Option<&Vec<N>> = match self.n[*e as usize].kind {
          Kind::Acq { o: q, w: false } if q == *ob => Some(&end[e].1),
          _ => None,
        };
        for j in 0..=jmax {
          let here: Vec<Ast> = s[j]
            .iter()
            .filter(|((c, held), _)| match sel {
              Sel::Is(k) => k == c && !*held,
              Sel::Not(p) => self.list.get(c).map_or(true, |l| !l.contains(p)),
            })
            .map(|x| *x.1)
            .collect();
          if here.is_empty() {
            continue;
          }
          let h = z.or(&here);
          let mut c = vec![h, z.lt(oe, t[j + 1])];
          if j > 0 {
            c.push(z.lt(t[j], oe));
          }
          if let Some(rs) = span {
            // nobody writes before the section ends
            let mut v = vec![z.not(used[j + 1])];
            for r in rs {
              v.push(z.and(&[x[*r as usize], z.lt(o[*r as usize], t[j + 1])]));
            }
            c.push(z.or(&v));
          }
          opts.push(z.and(&c));
        }
        let or = z.or(&opts);
        let im = z.imp(x[*e as usize], or);
        z.assert(im);
      }
      // what it holds at the end
      let mut at: BTreeMap<C, Vec<Ast>> = BTreeMap::new();
      for j in 0..=jmax {
        for ((c, held), a) in s[j].iter() {
          if !held {
            at.entry(*c).or_default().push(z.and(&[*a, z.not(used[j + 1])]));
          }
        }
      }
      for (c, v) in at {
        cur.insert((*ob, c), z.or(&v));
      }
    }
    // last events, candidates
    let mut open: HashMap<(O, bool), Vec<N>> = HashMap::new();
    for (ob, v) in sections.iter() {
      open.insert((*ob, true), v.iter().filter(|s| !s.2).map(|s| s.0).collect());
      open.insert((*ob, false), v.iter().filter(|s| !s.2 && s.1).map(|s| s.0).collect());
    }
    let pos: Vec<(P, u32, Pend)> =
      self.pl.iter().enumerate().skip(1).map(|(p, q)| (p as P, q.thr, q.pend.clone())).collect();
    let mut last: HashMap<P, Ast> = HashMap::new();
    let mut cands: Vec<Cand> = vec![];
    let mut free_lit: HashMap<(O, bool), Ast> = HashMap::new();
    let mut done_lit: HashMap<u32, Ast> = HashMap::new();
    for (p, u, pend) in pos.iter() {
      let (p, u) = (*p, *u);
      let mut c: Vec<Ast> = vec![];
      if !isroot.contains(&p) {
        let v: Vec<Ast> = ins[p as usize].iter().map(|k| x[*k as usize]).collect();
        c.push(z.or(&v));
      }
      for k in &self.pl[p as usize].out {
        c.push(z.not(x[*k as usize]));
      }
      let l = z.and(&c);
      last.insert(p, l);
      let mut extra = vec![l];
      let mut read: Option<O> = None;
      let mut lock: Option<(O, bool)> = None;
      match pend {
        Pend::Lock { o: ob, w } => {
          read = Some(*ob);
          lock = Some((*ob, *w));
        }
        Pend::Atomic { o: ob, .. } | Pend::CvWait { cv: ob } | Pend::Notify { cv: ob } => read = Some(*ob),
        Pend::Wake { o: ob, cv, ev } => {
          read = Some(*ob);
          lock = Some((*ob, true));
          let w: Vec<Ast> = self.of[cv]
            .iter()
            .filter(|c| self.list.get(c).map_or(false, |l| l.contains(ev)))
            .filter_map(|c| cur.get(&(*cv, *c)).copied())
            .collect();
          extra.push(z.not(z.or(&w)));
        }
        Pend::Join { t } => {
          // candidates are checked after the positions are known
          if !done0.contains(t) {
            let d = *done_lit.entry(*t).or_insert_with(|| {
              let v: Vec<Ast> =
                dones.get(t).map(|v| v.as_slice()).unwrap_or(&[]).iter().map(|q| x[*q as usize]).collect();
              z.or(&v)
            });
            extra.push(d);
          }
        }
        Pend::Local => {}
        _ => continue,
      }
      if let Some((ob, w)) = lock {
        let c = *free_lit.entry((ob, w)).or_insert_with(|| {
          let c: Vec<Ast> = open
            .get(&(ob, w))
            .map(|v| v.as_slice())
            .unwrap_or(&[])
            .iter()
            .map(|a| z.imp(x[*a as usize], end[a].0))
            .collect();
          z.and(&c)
        });
        extra.push(c);
      }
      let opts: Vec<(Vec<C>, Option<Ast>)> = match read {
        None => vec![(vec![], None)],
        Some(ob) => self.of[&ob].iter().filter_map(|c| cur.get(&(ob, *c)).map(|a| (vec![*c], Some(*a)))).collect(),
      };
      for (key, a) in opts {
        if self.index.contains_key(&(p, key.clone())) {
          continue;
        }
        let mut d = extra.clone();
        d.extend(a);
        let lit = z.boolv(&format!("c{}", cands.len()));
        let def = z.and(&d);
        let im = z.imp(lit, def);
        z.assert(im);
        cands.push(Cand { thr: u, p, key, lit });
      }
    }
    for f in full {
      cands.push(Cand { thr: 0, p: 0, key: vec![], lit: f });
    }
    if dbg() {
      eprintln!("  positions {:?}", njs);
    }
    self.cands = cands;
    Ok(Enc { z, x, o, len, last, end, open, cur, pos })
  }

  /// Per place: the length of the longest path from the start of its thread.
  fn levels(&self) -> Vec<usize> {
    let mut deg = vec![0usize; self.pl.len()];
    for n in self.n.iter().skip(1) {
      deg[n.to as usize] += 1;
    }
    let mut level = vec![0usize; self.pl.len()];
    let mut todo: Vec<usize> = (1..self.pl.len()).filter(|p| deg[*p] == 0).collect();
    while let Some(p) = todo.pop() {
      for e in &self.pl[p].out {
        let q = self.n[*e as usize].to as usize;
        level[q] = level[q].max(level[p] + 1);
        deg[q] -= 1;
        if deg[q] == 0 {
          todo.push(q);
        }
      }
    }
    level
  }
  /// The events that can end the section opened by event a.
  fn releases(&self, a: N) -> Vec<N> {
    let p = self.n[a as usize].to;
    let mut seen = std::collections::HashSet::new();
    let mut v = vec![];
    let k = self.pl[p as usize].held.len();
    if k == 0 {
      return v;
    }
    let mut todo = vec![(p, k - 1)];
    while let Some((p, k)) = todo.pop() {
      if !seen.insert((p, k)) {
        continue;
      }
      for e in &self.pl[p as usize].out {
        let to = self.n[*e as usize].to;
        match self.n[*e as usize].rel {
          Some(i) if i == k => v.push(*e),
          Some(i) if i < k => todo.push((to, k - 1)),
          _ => todo.push((to, k)),
        }
      }
    }
    v.sort();
    v.dedup();
    v
  }
  /// An upper bound on the number of modifications of an object in one execution.
  fn most_mods(&self, ms: &[(N, (C, bool), (C, bool))]) -> usize {
    let is: BTreeSet<N> = ms.iter().map(|m| m.0).collect();
    let mut f: HashMap<P, usize> = HashMap::new();
    let mut spawned: HashMap<N, Vec<u32>> = HashMap::new();
    for (sp, u) in self.thr_of_spawn.iter() {
      spawned.entry(*sp).or_default().push(*u);
    }
    (0..self.nroots as u32).map(|t| self.longest(self.roots[&t], &is, &spawned, &mut f)).sum()
  }
  fn longest(&self, p: P, is: &BTreeSet<N>, sp: &HashMap<N, Vec<u32>>, f: &mut HashMap<P, usize>) -> usize {
    if let Some(v) = f.get(&p) {
      return *v;
    }
    let mut best = 0;
    for e in &self.pl[p as usize].out {
      let mut v = is.contains(e) as usize + self.longest(self.n[*e as usize].to, is, sp, f);
      for u in sp.get(e).map(|v| v.as_slice()).unwrap_or(&[]) {
        if let Some(q) = self.roots.get(u) {
          v += self.longest(*q, is, sp, f);
        }
      }
      best = best.max(v);
    }
    f.insert(p, best);
    best
  }
}

// ---------- properties over marks ----------
#[derive(Clone, Debug, PartialEq)]
enum Arg {
  Any,
  Const(i64),
  Var(String, i64),
}
#[derive(Clone, Debug)]
struct Pat {
  kind: i64,
  a: Arg,
  b: Arg,
}
#[derive(Clone, Debug)]
enum Cons {
  Lt(usize, usize),
  Ne(usize, usize),
  Thr(usize, usize, bool),
  Val(String, String, bool), // x<y or x!=y
}
#[derive(Clone, Debug)]
struct Spec {
  msg: String,
  atoms: Vec<Pat>,
  cons: Vec<Cons>,
  absent: Vec<(Pat, Option<usize>, Option<usize>)>, // pattern, after, before
  end: bool,
  alone: Vec<usize>,
}

fn parse_pat(s: &str) -> Result<Pat, String> {
  let e = || format!("bad mark pattern {}", s);
  let i = s.find('(').ok_or_else(e)?;
  let kind = s[..i].parse().map_err(|_| e())?;
  let inner = s[i + 1..].strip_suffix(')').ok_or_else(e)?;
  let mut v = vec![];
  for x in inner.split(',') {
    v.push(if x == "*" {
      Arg::Any
    } else if let Ok(k) = x.parse::<i64>() {
      Arg::Const(k)
    } else if let Some((n, k)) = x.split_once('+') {
      Arg::Var(n.into(), k.parse().map_err(|_| e())?)
    } else {
      Arg::Var(x.into(), 0)
    });
  }
  if v.len() != 2 {
    return Err(e());
  }
  Ok(Pat { kind, a: v[0].clone(), b: v[1].clone() })
}

fn parse_spec(text: &str) -> Result<Spec, String> {
  let (msg, body) = text.split_once(':').ok_or("property without a body")?;
  let mut sp = Spec { msg: msg.trim().into(), atoms: vec![], cons: vec![], absent: vec![], end: false, alone: vec![] };
  let mut names: Vec<String> = vec![];
  let toks: Vec<&str> = body.split_whitespace().collect();
  for t in &toks {
    if !t.starts_with('!') && t.contains('(') {
      let (n, p) = t.split_once('=').ok_or("atom without a name")?;
      names.push(n.into());
      sp.atoms.push(parse_pat(p)?);
    }
  }
  let ix = |n: &str| names.iter().position(|x| x == n).ok_or(format!("unknown name {}", n));
  for t in &toks {
    if *t == "end" {
      sp.end = true;
    } else if let Some(n) = t.strip_prefix('^') {
      sp.alone.push(ix(n)?); // afterwards the other threads do nothing, ended or asleep
    } else if let Some(r) = t.strip_prefix('!') {
      let k = r.find(')').ok_or("absent atom")? + 1;
      let p = parse_pat(&r[..k])?;
      let (mut after, mut before) = (None, None);
      let mut rest = &r[k..];
      while !rest.is_empty() {
        let c = &rest[..1];
        let e = rest[1..].find(|x| x == '<' || x == '>').map(|i| i + 1).unwrap_or(rest.len());
        let i = ix(&rest[1..e])?;
        match c {
          "<" => before = Some(i),
          ">" => after = Some(i),
          _ => return Err(format!("bad token {}", t)),
        }
        rest = &rest[e..];
      }
      if before.is_none() {
        sp.end = true;
      }
      sp.absent.push((p, after, before));
    } else if t.contains('(') {
    } else if let Some((a, b)) = t.split_once("!~") {
      sp.cons.push(Cons::Thr(ix(a)?, ix(b)?, false));
    } else if let Some((a, b)) = t.split_once('~') {
      sp.cons.push(Cons::Thr(ix(a)?, ix(b)?, true));
    } else if let Some((a, b)) = t.split_once("!=") {
      if let (Some(x), Some(y)) = (a.strip_prefix('$'), b.strip_prefix('$')) {
        sp.cons.push(Cons::Val(x.into(), y.into(), false));
      } else {
        sp.cons.push(Cons::Ne(ix(a)?, ix(b)?));
      }
    } else if let Some((a, b)) = t.split_once('<') {
      if let (Some(x), Some(y)) = (a.strip_prefix('$'), b.strip_prefix('$')) {
        sp.cons.push(Cons::Val(x.into(), y.into(), true));
      } else {
        sp.cons.push(Cons::Lt(ix(a)?, ix(b)?));
      }
    } else {
      return Err(format!("bad token {}", t));
    }
  }
  Ok(sp)
}

impl<'a> Conc<'a> {
  /// "no further event is possible" as a formula
  fn maximal(&self, e: &mut Enc, parked_ok: bool) -> Ast {
    let mut all = vec![];
    for (p, u, pend) in e.pos.clone() {
      let l = e.last[&p];
      let b = self.blocked(e, p, &pend, parked_ok);
      let c = match b {
        Some(b) => e.z.imp(l, b),
        None => e.z.not(l),
      };
      all.push(c);
    }
    e.z.and(&all)
  }
  /// Condition under which a thread whose last position is p cannot move (None: it can).
  fn blocked(&self, e: &mut Enc, p: N, pend: &Pend, parked_ok: bool) -> Option<Ast> {
    let tt = e.z.and(&[]);
    match pend {
      Pend::Done | Pend::Fail => Some(tt),
      Pend::Parked => {
        if parked_ok {
          Some(tt)
        } else {
          None
        }
      }
      Pend::Lock { o, w } => Some(self.busy(e, *o, *w)),
      Pend::Wake { o, cv, ev } => {
        // not notified, or the mutex is held
        let none = self.waiting(e, *ev, *cv);
        let b = self.busy(e, *o, true);
        Some(e.z.or(&[none, b]))
      }
      Pend::Join { t } => {
        let mut d = vec![];
        for (q, v, pd) in e.pos.iter() {
          if v == t && *pd == Pend::Done {
            d.push(e.z.not(e.last[&*q]));
          }
        }
        Some(e.z.and(&d))
      }
      _ => None,
    }
  }
  /// The wait event p is (still) on the waiting list of cv.
  fn waiting(&self, e: &Enc, p: N, cv: O) -> Ast {
    let v: Vec<Ast> = self.of[&cv]
      .iter()
      .filter(|c| self.list.get(c).map_or(false, |l| l.contains(&p)))
      .filter_map(|c| e.cur.get(&(cv, *c)).copied())
      .collect();
    e.z.or(&v)
  }
  /// Is a section that excludes this acquisition open?
  fn busy(&self, e: &Enc, o: O, w: bool) -> Ast {
    let v: Vec<Ast> = e
      .open
      .get(&(o, w))
      .map(|v| v.as_slice())
      .unwrap_or(&[])
      .iter()
      .map(|a| e.z.and(&[e.x[*a as usize], e.z.not(e.end[a].0)]))
      .collect();
    e.z.or(&v)
  }

  fn realize(&mut self, e: &mut Enc, kind: &str, msg: &str) -> Result<(), String> {
    let m = e.z.model();
    let order = self.order_of(e, m);
    e.z.model_free(m);
    let mut r = self.new_run()?;
    self.follow(&mut r, &order)?;
    let before = self.res.failures.len();
    self.finish(&mut r, 0)?;
    if self.res.failures.len() > before {
      return Ok(()); // the run itself fails
    }
    if kind == "deadlock" {
      let mut d = vec![];
      for t in 0..r.pend.len() {
        if r.pend[t] != Pend::Done {
          d.push(format!("thread {} {:?} at {}", t, r.pend[t], where_is(&r.st, t)));
        }
      }
      // blocked threads announce their acquisition
      for t in 0..r.pend.len() {
        if matches!(r.pend[t], Pend::Lock { .. } | Pend::Join { .. }) {
          r.sched.push(t as u32);
        }
      }
      self.report(kind, format!("DEADLOCK {}", d.join("; ")), &r);
    } else {
      self.report(kind, msg.to_string(), &r);
    }
    Ok(())
  }

  fn unknown(&self, what: &str) -> String {
    if Instant::now() > self.deadline {
      LATE.into()
    } else {
      format!("solver returned unknown ({})", what)
    }
  }
  fn properties(&mut self, e: &mut Enc) -> Result<(), String> {
    let specs: Vec<String> =
      self.start.log.iter().filter(|l| l.0.starts_with('@')).map(|l| l.0.clone()).collect();
    self.strict = specs.iter().any(|s| s == "@strict");
    // 1. nobody blocked for ever
    {
      self.res.props += 1;
      e.z.push();
      let mx = self.maximal(e, false);
      e.z.assert(mx);
      let mut bad = vec![];
      for (p, u, pend) in e.pos.clone() {
        let l = e.last[&p];
        match &pend {
          Pend::Lock { .. } | Pend::Join { .. } => bad.push(l),
          Pend::Wake { cv, ev, .. } => {
            if self.strict {
              bad.push(l)
            } else {
              let w = self.waiting(e, *ev, *cv);
              bad.push(e.z.and(&[l, e.z.not(w)]));
            }
          }
          _ => {}
        }
      }
      let b = e.z.or(&bad);
      e.z.assert(b);
      match e.z.check(&[]) {
        Res::Unsat => {}
        Res::Sat => self.realize(e, "deadlock", "DEADLOCK")?,
        Res::Unknown => return Err(self.unknown("deadlock")),
      }
      e.z.pop(1);
    }
    // 2. a read lock taken again by its holder while somebody waits to write
    {
      let mut reads: Vec<(N, u32, O)> = vec![];
      let mut writes: HashMap<O, Vec<(N, u32)>> = HashMap::new();
      for (p, u, pend) in e.pos.iter() {
        if let Pend::Lock { o, w } = pend {
          if *w {
            writes.entry(*o).or_default().push((*p, *u));
          } else if self.pl[*p as usize].held.contains(&(*o, false)) {
            reads.push((*p, *u, *o));
          }
        }
      }
      let mut bad = vec![];
      for (p, u, o) in &reads {
        for (q, v) in writes.get(o).map(|v| v.as_slice()).unwrap_or(&[]) {
          if u != v {
            bad.push((e.z.and(&[e.last[p], e.last[&*q]]), *v, *u));
          }
        }
      }
      if !bad.is_empty() {
        self.res.props += 1;
        e.z.push();
        let l: Vec<Ast> = bad.iter().map(|b| b.0).collect();
        let b = e.z.or(&l);
        e.z.assert(b);
        match e.z.check(&[]) {
          Res::Unsat => {}
          Res::Sat => {
            let m = e.z.model();
            let order = self.order_of(e, m);
            let hit = bad.iter().find(|b| e.z.eval_bool(m, b.0)).map(|b| (b.1, b.2)).unwrap();
            e.z.model_free(m);
            let mut r = self.new_run()?;
            self.follow(&mut r, &order)?;
            let tv = r.uid.iter().position(|x| *x == hit.0).unwrap();
            let tu = r.uid.iter().position(|x| *x == hit.1).unwrap();
            r.sched.push(tv as u32);
            r.sched.push(tu as u32);
            let msg = format!(
              "DEADLOCK thread {} takes a read lock it already holds ({}) while thread {} waits to write ({})",
              tu,
              where_is(&r.st, tu),
              tv,
              where_is(&r.st, tv)
            );
            self.report("deadlock", msg, &r);
          }
          Res::Unknown => return Err(self.unknown("recursive read")),
        }
        e.z.pop(1);
      }
    }
    // 3. "@exit": every thread ends
    // ("@exit-awake": but for one that was left asleep)
    let asleep = specs.iter().any(|s| s == "@exit-awake");
    if asleep || specs.iter().any(|s| s == "@exit") {
      self.res.props += 1;
      e.z.push();
      let mx = self.maximal(e, true);
      e.z.assert(mx);
      let l: Vec<Ast> =
        e.pos.iter().filter(|p| !(matches!(p.2, Pend::Done | Pend::Fail) || asleep && p.2 == Pend::Parked)).map(|p| e.last[&p.0]).collect();
      let b = e.z.or(&l);
      e.z.assert(b);
      match e.z.check(&[]) {
        Res::Unsat => {}
        Res::Sat => self.realize(e, "marks", "a thread never ends")?,
        Res::Unknown => return Err(self.unknown("exit")),
      }
      e.z.pop(1);
    }
    // 4. violations over marks
    let marks: Vec<(N, i64, i64, i64, u32)> = (1..e.len)
      .filter_map(|i| self.n[i].mark.map(|m| (i as N, m.0, m.1, m.2, self.n[i].thr)))
      .collect();
    for s in specs.iter().filter(|s| s.starts_with("@viol ")) {
      let sp = parse_spec(&s[6..])?;
      self.res.props += 1;
      e.z.push();
      let mut vars: BTreeMap<String, Ast> = BTreeMap::new();
      let uniq = self.res.props;
      let mut ords = vec![];
      let mut thrs = vec![];
      let mut sels: Vec<Vec<Ast>> = vec![];
      let mut dead = false;
      for (i, a) in sp.atoms.iter().enumerate() {
        let po = e.z.intv(&format!("P{}_{}", uniq, i));
        let th = e.z.intv(&format!("T{}_{}", uniq, i));
        ords.push(po);
        thrs.push(th);
        let mut opts = vec![];
        let mut sv = vec![];
        for (mi, m) in marks.iter().enumerate() {
          if m.1 != a.kind {
            sv.push(std::ptr::null_mut());
            continue;
          }
          let mut c = vec![e.x[m.0 as usize]];
          let x = e.o[m.0 as usize];
          c.push(e.z.le(po, x));
          c.push(e.z.le(x, po));
          let tv = e.z.int(m.4 as i64);
          c.push(e.z.le(th, tv));
          c.push(e.z.le(tv, th));
          let mut ok = true;
          for (arg, v) in [(&a.a, m.2), (&a.b, m.3)] {
            match arg {
              Arg::Any => {}
              Arg::Const(k) => ok &= *k == v,
              Arg::Var(n, d) => {
                let var =
                  *vars.entry(n.clone()).or_insert_with(|| e.z.intv(&format!("V{}_{}", uniq, n)));
                let k = e.z.int(v - d);
                c.push(e.z.le(var, k));
                c.push(e.z.le(k, var));
              }
            }
          }
          if !ok {
            sv.push(std::ptr::null_mut());
            continue;
          }
          let sel = e.z.boolv(&format!("S{}_{}_{}", uniq, i, mi));
          let body = e.z.and(&c);
          let im = e.z.imp(sel, body);
          e.z.assert(im);
          opts.push(sel);
          sv.push(sel);
        }
        self.res.instances += opts.len() as u64;
        if opts.is_empty() {
          dead = true;
        }
        let o = e.z.or(&opts);
        e.z.assert(o);
        let am = e.z.atmost1(&opts);
        e.z.assert(am);
        sels.push(sv);
      }
      if dead {
        e.z.pop(1);
        continue;
      }
      for c in &sp.cons {
        match c {
          Cons::Lt(i, j) => {
            let l = e.z.lt(ords[*i], ords[*j]);
            e.z.assert(l);
          }
          Cons::Ne(i, j) => {
            for k in 0..marks.len() {
              if !sels[*i][k].is_null() && !sels[*j][k].is_null() {
                let b = e.z.and(&[sels[*i][k], sels[*j][k]]);
                let nb = e.z.not(b);
                e.z.assert(nb);
              }
            }
          }
          Cons::Thr(i, j, eq) => {
            let c = e.z.and(&[e.z.le(thrs[*i], thrs[*j]), e.z.le(thrs[*j], thrs[*i])]);
            let c = if *eq { c } else { e.z.not(c) };
            e.z.assert(c);
          }
          Cons::Val(x, y, lt) => {
            let (x, y) = (vars.get(x).copied().ok_or("unknown variable")?, vars.get(y).copied().ok_or("unknown variable")?);
            let c = if *lt {
              e.z.lt(x, y)
            } else {
              e.z.or(&[e.z.lt(x, y), e.z.lt(y, x)])
            };
            e.z.assert(c);
          }
        }
      }
      for (p, after, before) in &sp.absent {
        for (mi, m) in marks.iter().enumerate().filter(|m| m.1 .1 == p.kind) {
          let mut c = vec![e.x[m.0 as usize]];
          let mut ok = true;
          for (arg, v) in [(&p.a, m.2), (&p.b, m.3)] {
            match arg {
              Arg::Any => {}
              Arg::Const(k) => ok &= *k == v,
              Arg::Var(n, d) => {
                let var = *vars.get(n).ok_or("variable of an absent atom is not bound")?;
                let k = e.z.int(v - d);
                c.push(e.z.le(var, k));
                c.push(e.z.le(k, var));
              }
            }
          }
          if !ok {
            continue;
          }
          let x = e.o[m.0 as usize];
          if let Some(i) = after {
            c.push(e.z.le(ords[*i], x));
            if !sels[*i][mi].is_null() {
              c.push(e.z.not(sels[*i][mi]));
            }
          }
          if let Some(i) = before {
            c.push(e.z.le(x, ords[*i]));
            if !sels[*i][mi].is_null() {
              c.push(e.z.not(sels[*i][mi]));
            }
          }
          let b = e.z.and(&c);
          let nb = e.z.not(b);
          e.z.assert(nb);
        }
      }
      for &i in &sp.alone {
        let mx = self.maximal(e, true);
        e.z.assert(mx);
        for j in 1..e.len {
          let t = e.z.int(self.n[j].thr as i64);
          let own = e.z.and(&[e.z.le(thrs[i], t), e.z.le(t, thrs[i])]);
          let c = e.z.or(&[own, e.z.le(e.o[j], ords[i])]);
          let c = e.z.imp(e.x[j], c);
          e.z.assert(c);
        }
      }
      if sp.end {
        let mx = self.maximal(e, false);
        e.z.assert(mx);
      }
      match e.z.check(&[]) {
        Res::Unsat => {}
        Res::Sat => self.realize(e, "marks", &sp.msg)?,
        Res::Unknown => return Err(self.unknown(&sp.msg)),
      }
      e.z.pop(1);
    }
    Ok(())
  }
}
