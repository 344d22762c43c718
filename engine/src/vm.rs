//! The symbolic virtual machine: state, memory and instruction semantics.
use crate::expr::*;
use crate::ir::*;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct Val {
  pub c: u128,
  pub e: E,
}
impl Val {
  pub fn c(v: u128) -> Val {
    Val { c: v, e: 0 }
  }
}

#[derive(Clone)]
pub struct Obj {
  pub data: Vec<u8>,
  pub sym: Option<Box<BTreeMap<u32, (E, u8)>>>,
  pub ro: bool,
  pub heap: bool,
  pub stack: bool,
  pub name: u32, // canonical allocation name (index into the owner's table)
}

const CH: usize = 128;
type Chunk = Vec<Option<Rc<Obj>>>;

#[derive(Clone, Default)]
pub struct Mem {
  pub chunks: Vec<Rc<Chunk>>,
  pub next: usize,
  pub live_heap: i64,
}

impl Mem {
  pub fn alloc(&mut self, o: Obj) -> u64 {
    if self.next == 0 {
      self.next = 1;
    }
    let id = self.next;
    self.next += 1;
    let c = id / CH;
    while self.chunks.len() <= c {
      self.chunks.push(Rc::new(vec![None; CH]));
    }
    if o.heap {
      self.live_heap += 1;
    }
    Rc::make_mut(&mut self.chunks[c])[id % CH] = Some(Rc::new(o));
    (id as u64) << OBJ_SHIFT
  }
  #[inline]
  pub fn get(&self, addr: u64) -> Option<(&Obj, usize)> {
    let id = (addr >> OBJ_SHIFT) as usize;
    let off = (addr & ((1 << OBJ_SHIFT) - 1)) as usize;
    match self.chunks.get(id / CH) {
      Some(c) => match &c[id % CH] {
        Some(o) => Some((&**o, off)),
        None => None,
      },
      None => None,
    }
  }
  pub fn rc(&self, addr: u64) -> Option<Rc<Obj>> {
    let id = (addr >> OBJ_SHIFT) as usize;
    self.chunks.get(id / CH).and_then(|c| c[id % CH].clone())
  }
  #[inline]
  pub fn get_mut(&mut self, addr: u64) -> Option<(&mut Obj, usize)> {
    let id = (addr >> OBJ_SHIFT) as usize;
    let off = (addr & ((1 << OBJ_SHIFT) - 1)) as usize;
    match self.chunks.get_mut(id / CH) {
      Some(c) => match &mut Rc::make_mut(c)[id % CH] {
        Some(o) => Some((Rc::make_mut(o), off)),
        None => None,
      },
      None => None,
    }
  }
  pub fn free(&mut self, addr: u64) -> bool {
    let id = (addr >> OBJ_SHIFT) as usize;
    if let Some(c) = self.chunks.get_mut(id / CH) {
      if let Some(o) = &c[id % CH] {
        if o.heap {
          self.live_heap -= 1;
        }
        Rc::make_mut(c)[id % CH] = None;
        return true;
      }
    }
    false
  }
}

#[derive(Clone)]
pub struct Frame {
  pub f: Rc<Func>,
  pub regs: Vec<Val>,
  pub ip: u32,
  pub bb: u32,
  pub allocas: Vec<u64>,
  pub dst: u32,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Act {
  Lock { a: u64, w: bool },
  Unlock { a: u64, w: bool },
  TryLock { a: u64, w: bool },
  CvWait { cv: u64, lock: u64 },
  CvWaitTo { cv: u64, lock: u64, ns: Val },
  CvNotify { cv: u64, all: bool },
  Spawn { f: u64, data: u64 },
  Join { t: u64 },
  Sleep { ns: Val },
  Idle,
  Yield,
  Mark { k: i64, a: i64, b: i64 },
  Atomic { a: u64, w: bool },
  Sym { lo: i64, hi: i64 },
  Pick { lo: i64, hi: i64 },
  Concurrent,
}

#[derive(Clone, Debug)]
pub enum Stop {
  Branch(E),
  Concretize(E),
  Assume(E),
  Check { cond: Val, msg: String },
  Visible(Act),
  ThreadEnd,
  Panic(String),
  Bad(String),   // undefined behaviour / engine limits
  Budget,
  Prune,         // vm_assume(false)
}

#[derive(Clone, Debug, PartialEq)]
pub enum TStat {
  Ready,
  Blocked(Act),
  CvWaiting { cv: u64, lock: u64, until: Option<Val> }, // not yet notified
  CvNotified { lock: u64, timed_out: bool },            // must re-acquire
  Sleeping(Val),
  Idle,
  Done,
}

#[derive(Clone)]
pub struct Thread {
  pub top: Option<Frame>,
  pub rest: Vec<Rc<Frame>>,
  pub stat: TStat,
  pub tls: HashMap<usize, u64>,
  pub steps: u64,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct LockSt {
  pub writer: Option<usize>,
  pub readers: Vec<usize>,
}

#[derive(Clone)]
pub struct State {
  pub mem: Mem,
  pub threads: Vec<Thread>,
  pub locks: HashMap<u64, LockSt>,
  pub cvs: HashMap<u64, Vec<usize>>,
  pub now: Val,
  pub pc: Vec<E>,
  pub known: Rc<HashMap<E, u128>>,
  pub syms: Vec<(E, i64)>, // vm_sym results in call order: (var or 0, concrete/lo)
  pub covers: Rc<std::collections::BTreeSet<String>>,
  pub log: Vec<(String, Val)>,
  pub steps: u64,
  pub model: Rc<Vec<u128>>,
  pub marks: Vec<(usize, i64, i64, i64)>,
  pub sched: Vec<u32>,
  pub cur: usize,
  pub alloc_names: bool,
  pub uid: u64,                  // canonical id of the running thread (naming of allocations)
  pub sites: HashMap<u64, (u64, u32)>, // allocation site -> thread, allocations so far
  pub allocs: Vec<(u64, u32)>,   // names (site, number), only when alloc_names; 0: before the concurrent phase
  pub slog: Option<SLog>,
}

/// Stores to shared memory (not the thread's own stack) with the objects before the first.
#[derive(Clone, Default)]
pub struct SLog {
  pub stores: Vec<(u64, u32, u32)>,
  pub old: HashMap<u64, Rc<Obj>>,
}
impl State {
  #[inline]
  fn log_store(&mut self, addr: u64, n: usize) {
    if let Some(l) = &mut self.slog {
      let id = addr >> OBJ_SHIFT;
      if let Some(o) = self.mem.rc(addr) {
        if !o.stack {
          l.stores.push((id, (addr & ((1 << OBJ_SHIFT) - 1)) as u32, n as u32));
          l.old.entry(id).or_insert(o);
        }
      }
    }
  }
  fn alloc_name(&mut self, site: u64) -> u32 {
    if !self.alloc_names {
      return 0;
    }
    let mut h = (site ^ self.uid).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    h ^= h >> 29;
    let h = h | 1;
    let c = self.sites.entry(h).or_insert((self.uid, 0));
    let i = self.allocs.len() as u32;
    self.allocs.push((h, c.1));
    c.1 += 1;
    i
  }
}

pub struct Vm {
  pub checks_true: u64,
  pub m: Module,
  pub p: Pool,
  pub symcache: HashMap<(usize, i64, i64), E>,
  pub funcs_used: std::collections::BTreeSet<usize>,
  /// Cells changed by atomic instructions (reference counts), by canonical name.
  pub site: u64,
  pub atomic_cells: std::collections::HashSet<(u64, u64, u64)>,
  pub insts: u64,
  pub budget: u64,
  pub init_mem: Mem,
  pub trace: bool,
  stubs: HashMap<usize, Stub>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Stub {
  None,
  Panic,
  AllocFail,
  Noop,
}

impl Vm {
  pub fn new(m: Module) -> Vm {
    let mut mem = Mem::default();
    for g in &m.globals {
      mem.alloc(Obj {
        data: g.data.clone(),
        sym: None,
        ro: g.is_const,
        heap: false,
        stack: false,
        name: 0,
      });
    }
    let mut stubs = HashMap::new();
    for (i, f) in m.funcs.iter().enumerate() {
      let n = &f.name;
      let s = if n.contains("9panicking")
        || n.contains("rust_begin_unwind")
        || n.contains("panic_cannot_unwind")
        || n.contains("panic_in_cleanup")
        || n.contains("unwrap_failed")
        || n.contains("expect_failed")
      {
        if n.contains("panic_count") || n.contains("9panicking9panicking") || n.contains("panic_count") {
          Stub::None
        } else {
          Stub::Panic
        }
      } else if n.contains("handle_alloc_error")
        || n.contains("17capacity_overflow")
        || n.contains("raw_vec12handle_error")
      {
        Stub::AllocFail
      } else if n.contains("3std2io5stdio6__print")
        || n.contains("3std2io5stdio7__eprint")
        || n.contains("2io5stdio6_print")
        || n.contains("2io5stdio7_eprint")
        || n.contains("no_alloc_shim_is_unstable")
      {
        Stub::Noop
      } else {
        Stub::None
      };
      if s != Stub::None {
        stubs.insert(i, s);
      }
    }
    Vm {
      checks_true: 0,
      m,
      p: Pool::new(),
      symcache: HashMap::new(),
      funcs_used: Default::default(),
      site: 0,
      atomic_cells: Default::default(),
      insts: 0,
      budget: 3_000_000,
      init_mem: mem,
      trace: std::env::var("LSYM_TRACE").is_ok(),
      stubs,
    }
  }

  pub fn initial(&mut self, entry: &str) -> Result<State, String> {
    let fi = *self.m.fmap.get(entry).ok_or(format!("no entry {}", entry))?;
    let f = self.m.func(fi)?;
    self.funcs_used.insert(fi);
    let fr = Frame {
      regs: vec![Val::default(); f.nregs as usize],
      f,
      ip: 0,
      bb: 0,
      allocas: vec![],
      dst: 0,
    };
    Ok(State {
      mem: self.init_mem.clone(),
      threads: vec![Thread {
        top: Some(fr),
        rest: vec![],
        stat: TStat::Ready,
        tls: HashMap::new(),
        steps: 0,
      }],
      locks: HashMap::new(),
      cvs: HashMap::new(),
      now: Val::c(0),
      pc: vec![],
      known: Rc::new(HashMap::new()),
      syms: vec![],
      covers: Rc::new(Default::default()),
      log: vec![],
      steps: 0,
      model: Rc::new(vec![]),
      marks: vec![],
      sched: vec![],
      cur: 0,
      alloc_names: false,
      uid: 0,
      sites: HashMap::new(),
      allocs: vec![],
      slog: None,
    })
  }

  pub fn new_thread(&mut self, fa: u64, data: u64) -> Result<Thread, String> {
    let fi = ((fa - FUNC_BASE) >> 4) as usize;
    let f = self.m.func(fi)?;
    self.funcs_used.insert(fi);
    let mut regs = vec![Val::default(); f.nregs as usize];
    regs[0] = Val::c(data as u128);
    Ok(Thread {
      top: Some(Frame { regs, f, ip: 0, bb: 0, allocas: vec![], dst: 0 }),
      rest: vec![],
      stat: TStat::Ready,
      tls: HashMap::new(),
      steps: 0,
    })
  }

  /// Expression for a value of width w (concrete values become constants).
  pub fn ex(&mut self, v: Val, w: u16) -> E {
    if v.e != 0 {
      v.e
    } else {
      self.p.cst(v.c, w)
    }
  }
  pub fn mkval(&mut self, e: E) -> Val {
    match self.p.is_const(e) {
      Some(c) => Val { c, e: 0 },
      None => Val { c: 0, e },
    }
  }

  pub fn bin(&mut self, op: Op, w: u16, a: Val, b: Val) -> Val {
    if a.e == 0 && b.e == 0 {
      return Val::c(eval_bin(op, w, a.c, b.c));
    }
    let x = self.ex(a, w);
    let y = self.ex(b, w);
    let e = self.p.bin(op, x, y);
    self.mkval(e)
  }

  pub fn load(
    &mut self,
    st: &State,
    addr: u64,
    bits: u16,
  ) -> Result<Val, Stop> {
    let n = (bits as usize + 7) / 8;
    let (o, off) = st
      .mem
      .get(addr)
      .ok_or_else(|| Stop::Bad(format!("load from invalid address {:#x}", addr)))?;
    if off + n > o.data.len() {
      return Err(Stop::Bad(format!(
        "load of {} bytes at offset {} of an object of {} bytes",
        n,
        off,
        o.data.len()
      )));
    }
    if let Some(s) = &o.sym {
      if s.range(off as u32..(off + n) as u32).next().is_some() {
        // whole expression?
        if let Some(&(e, 0)) = s.get(&(off as u32)) {
          let w = self.p.w(e);
          if w as usize == n * 8
            && (1..n).all(|k| s.get(&((off + k) as u32)) == Some(&(e, k as u8)))
          {
            let e = if bits as usize != n * 8 { self.p.extract(e, 0, bits) } else { e };
            return Ok(self.mkval(e));
          }
        }
        let mut acc: E = 0;
        for k in (0..n).rev() {
          let b = match s.get(&((off + k) as u32)) {
            Some(&(e, i)) => {
              let s = self.p.extract(e, i as u16 * 8, 8);
              s
            }
            None => self.p.cst(o.data[off + k] as u128, 8),
          };
          acc = if acc == 0 { b } else { self.p.concat(acc, b) };
        }
        if bits as usize != n * 8 {
          acc = self.p.extract(acc, 0, bits);
        }
        return Ok(self.mkval(acc));
      }
    }
    let d = &o.data[off..off + n];
    let v = match n {
      8 => u64::from_le_bytes(d.try_into().unwrap()) as u128,
      4 => u32::from_le_bytes(d.try_into().unwrap()) as u128,
      1 => d[0] as u128,
      _ => {
        let mut v = 0u128;
        for k in 0..n {
          v |= (d[k] as u128) << (8 * k);
        }
        v
      }
    };
    Ok(Val::c(v & mask(bits)))
  }

  pub fn store(
    &mut self,
    st: &mut State,
    addr: u64,
    bits: u16,
    v: Val,
  ) -> Result<(), Stop> {
    let n = (bits as usize + 7) / 8;
    let e = if v.e != 0 && bits as usize != n * 8 {
      self.p.zext(v.e, (n * 8) as u16)
    } else {
      v.e
    };
    let (o, off) = st
      .mem
      .get_mut(addr)
      .ok_or_else(|| Stop::Bad(format!("store to invalid address {:#x}", addr)))?;
    if off + n > o.data.len() {
      return Err(Stop::Bad(format!(
        "store of {} bytes at offset {} of an object of {} bytes",
        n,
        off,
        o.data.len()
      )));
    }
    if o.ro {
      return Err(Stop::Bad("store to constant memory".into()));
    }
    if e != 0 {
      let s = o.sym.get_or_insert_with(Default::default);
      for k in 0..n {
        s.insert((off + k) as u32, (e, k as u8));
      }
      return Ok(());
    }
    if let Some(s) = &mut o.sym {
      for k in 0..n {
        s.remove(&((off + k) as u32));
      }
      if s.is_empty() {
        o.sym = None;
      }
    }
    let d = &mut o.data[off..off + n];
    match n {
      8 => d.copy_from_slice(&(v.c as u64).to_le_bytes()),
      4 => d.copy_from_slice(&(v.c as u32).to_le_bytes()),
      1 => d[0] = v.c as u8,
      _ => {
        for k in 0..n {
          d[k] = (v.c >> (8 * k)) as u8;
        }
      }
    }
    Ok(())
  }

  pub fn memcpy(
    &mut self,
    st: &mut State,
    d: u64,
    s: u64,
    n: usize,
  ) -> Result<(), Stop> {
    if n == 0 {
      return Ok(());
    }
    let (data, sym) = {
      let (o, off) = st
        .mem
        .get(s)
        .ok_or_else(|| Stop::Bad(format!("memcpy from invalid address {:#x}", s)))?;
      if off + n > o.data.len() {
        return Err(Stop::Bad("memcpy source out of bounds".into()));
      }
      let data = o.data[off..off + n].to_vec();
      let sym: Vec<(u32, (E, u8))> = match &o.sym {
        Some(m) => m
          .range(off as u32..(off + n) as u32)
          .map(|(k, v)| (*k - off as u32, *v))
          .collect(),
        None => vec![],
      };
      (data, sym)
    };
    if st.slog.is_some() {
      st.log_store(d, n);
    }
    let (o, off) = st
      .mem
      .get_mut(d)
      .ok_or_else(|| Stop::Bad(format!("memcpy to invalid address {:#x}", d)))?;
    if off + n > o.data.len() || o.ro {
      return Err(Stop::Bad("memcpy destination out of bounds".into()));
    }
    o.data[off..off + n].copy_from_slice(&data);
    if let Some(m) = &mut o.sym {
      let keys: Vec<u32> =
        m.range(off as u32..(off + n) as u32).map(|x| *x.0).collect();
      for k in keys {
        m.remove(&k);
      }
    }
    if !sym.is_empty() {
      let m = o.sym.get_or_insert_with(Default::default);
      for (k, v) in sym {
        m.insert(off as u32 + k, v);
      }
    } else if o.sym.as_ref().map_or(false, |m| m.is_empty()) {
      o.sym = None;
    }
    Ok(())
  }

  /// Canonical name of a memory cell: (event that allocated it + 1, its number there, offset),
  /// or (0, object, offset) for objects older than the concurrent phase.
  pub fn cell_name(st: &State, addr: u64) -> (u64, u64, u64) {
    let off = addr & ((1 << OBJ_SHIFT) - 1);
    match st.mem.get(addr) {
      Some((o, _)) if o.name > 0 => {
        let (n, k) = st.allocs[o.name as usize];
        (n, k as u64, off)
      }
      _ => (0, addr >> OBJ_SHIFT, off),
    }
  }
  fn note_atomic(&mut self, st: &State, a: u64) {
    if st.alloc_names {
      self.atomic_cells.insert(Vm::cell_name(st, a));
    }
  }

  pub fn heap_alloc(&mut self, st: &mut State, n: usize, t: usize) -> u64 {
    let _ = t;
    let name = st.alloc_name(self.site);
    st.mem.alloc(Obj { data: vec![0; n], sym: None, ro: false, heap: true, stack: false, name })
  }

  /// Resolve a value that must be concrete (pointer, size, lock mode ...).
  pub fn conc(&mut self, st: &State, v: Val) -> Result<u128, Stop> {
    if v.e == 0 {
      return Ok(v.c);
    }
    if let Some(&k) = st.known.get(&v.e) {
      return Ok(k);
    }
    Err(Stop::Concretize(v.e))
  }

  pub fn str_at(&mut self, st: &State, p: u64, n: usize) -> String {
    match st.mem.get(p) {
      Some((o, off)) if off + n <= o.data.len() => {
        String::from_utf8_lossy(&o.data[off..off + n]).into_owned()
      }
      _ => "?".into(),
    }
  }

  /// Finish the visible call the thread is stopped at.
  pub fn complete(&mut self, st: &mut State, t: usize, ret: Option<Val>) {
    let th = &mut st.threads[t];
    let fr = th.top.as_mut().unwrap();
    if let Inst::Call { dst, nret, .. } = &fr.f.code[fr.ip as usize] {
      if *nret > 0 {
        if let Some(v) = ret {
          fr.regs[*dst as usize] = v;
        } else {
          fr.regs[*dst as usize] = Val::c(0);
        }
      }
    }
    fr.ip += 1;
  }

  /// Run thread t until it stops.
  pub fn run(&mut self, st: &mut State, t: usize) -> Stop {
    let mut th = std::mem::replace(
      &mut st.threads[t],
      Thread { top: None, rest: vec![], stat: TStat::Done, tls: HashMap::new(), steps: 0 },
    );
    st.cur = t;
    let r = self.run_inner(st, &mut th, t);
    st.threads[t] = th;
    r
  }

  fn run_inner(&mut self, st: &mut State, th: &mut Thread, t: usize) -> Stop {
    let mut fr = match th.top.take() {
      Some(f) => f,
      None => return Stop::ThreadEnd,
    };
    let mut func = fr.f.clone();
    macro_rules! stop {
      ($s:expr) => {{
        th.top = Some(fr);
        return $s;
      }};
    }
    macro_rules! tri {
      ($e:expr) => {
        match $e {
          Ok(v) => v,
          Err(s) => stop!(s),
        }
      };
    }
    macro_rules! rd {
      ($o:expr) => {
        match $o {
          Opnd::R(r) => fr.regs[r as usize],
          Opnd::C(c) => Val { c, e: 0 },
        }
      };
    }
    macro_rules! jump {
      ($b:expr) => {{
        let b = $b;
        let blk = &func.blocks[b as usize];
        if !blk.phis.is_empty() {
          let from = fr.bb;
          if let Some((_, list)) = blk.phis.iter().find(|x| x.0 == from) {
            if list.len() == 1 {
              let v = rd!(list[0].1);
              fr.regs[list[0].0 as usize] = v;
            } else {
              let vals: Vec<Val> = list.iter().map(|x| rd!(x.1)).collect();
              for (x, v) in list.iter().zip(vals) {
                fr.regs[x.0 as usize] = v;
              }
            }
          }
        }
        fr.bb = b;
        fr.ip = blk.start;
      }};
    }
    loop {
      st.steps += 1;
      self.insts += 1;
      if st.steps > self.budget {
        stop!(Stop::Budget);
      }
      let inst = &func.code[fr.ip as usize];
      match inst {
        Inst::Bin { op, w, a, b, dst } => {
          let (x, y) = (rd!(*a), rd!(*b));
          fr.regs[*dst as usize] = if x.e == 0 && y.e == 0 {
            Val::c(eval_bin(*op, *w, x.c, y.c))
          } else {
            self.bin(*op, *w, x, y)
          };
          fr.ip += 1;
        }
        Inst::Icmp { p, w, a, b, dst } => {
          let (x, y) = (rd!(*a), rd!(*b));
          let (op, swap, neg) = match p {
            Pred::Eq => (Op::Eq, false, false),
            Pred::Ne => (Op::Eq, false, true),
            Pred::Ult => (Op::Ult, false, false),
            Pred::Ule => (Op::Ule, false, false),
            Pred::Ugt => (Op::Ult, true, false),
            Pred::Uge => (Op::Ule, true, false),
            Pred::Slt => (Op::Slt, false, false),
            Pred::Sle => (Op::Sle, false, false),
            Pred::Sgt => (Op::Slt, true, false),
            Pred::Sge => (Op::Sle, true, false),
          };
          let (x, y) = if swap { (y, x) } else { (x, y) };
          fr.regs[*dst as usize] = if x.e == 0 && y.e == 0 {
            Val::c(eval_bin(op, *w, x.c, y.c) ^ (neg as u128))
          } else {
            let r = self.bin(op, *w, x, y);
            if neg {
              if r.e == 0 {
                Val::c(r.c ^ 1)
              } else {
                let e = self.p.not(r.e);
                self.mkval(e)
              }
            } else {
              r
            }
          };
          fr.ip += 1;
        }
        Inst::Cast { k, from, to, a, dst } => {
          let v = rd!(*a);
          fr.regs[*dst as usize] = if v.e == 0 {
            Val::c(match k {
              Cast::Trunc => v.c & mask(*to),
              Cast::ZExt | Cast::Copy => v.c,
              Cast::SExt => sext(v.c, *from) as u128 & mask(*to),
            })
          } else {
            let e = match k {
              Cast::Trunc => self.p.extract(v.e, 0, *to),
              Cast::ZExt => self.p.zext(v.e, *to),
              Cast::Copy => v.e,
              Cast::SExt => self.p.sext(v.e, *to),
            };
            self.mkval(e)
          };
          fr.ip += 1;
        }
        Inst::Copy { src, dst } => {
          if src.len() == 1 {
            let v = rd!(src[0]);
            fr.regs[*dst as usize] = v;
          } else {
            let vals: Vec<Val> = src.iter().map(|o| rd!(*o)).collect();
            for (i, v) in vals.into_iter().enumerate() {
              fr.regs[*dst as usize + i] = v;
            }
          }
          fr.ip += 1;
        }
        Inst::Load { p, f, dst } => {
          let a = tri!(self.conc(st, rd!(*p))) as u64;
          for (i, (o, w)) in f.iter().enumerate() {
            let v = tri!(self.load(st, a.wrapping_add(*o as u64), *w));
            fr.regs[*dst as usize + i] = v;
          }
          fr.ip += 1;
        }
        Inst::Store { p, f, v } => {
          let a = tri!(self.conc(st, rd!(*p))) as u64;
          for (i, (o, w)) in f.iter().enumerate() {
            let x = rd!(v[i]);
            if st.slog.is_some() {
              st.log_store(a.wrapping_add(*o as u64), (*w as usize + 7) / 8);
            }
            tri!(self.store(st, a.wrapping_add(*o as u64), *w, x));
          }
          fr.ip += 1;
        }
        Inst::Alloca { size, count, dst, .. } => {
          let n = tri!(self.conc(st, rd!(*count))) as u64;
          let name = if st.alloc_names { st.alloc_name(site_of(th, &func, fr.ip)) } else { 0 };
          let a = st.mem.alloc(Obj {
            data: vec![0; (*size * n) as usize],
            sym: None,
            ro: false,
            heap: false,
            stack: true,
            name,
          });
          fr.allocas.push(a);
          fr.regs[*dst as usize] = Val::c(a as u128);
          fr.ip += 1;
        }
        Inst::Gep { base, off, idx, dst } => {
          let b = rd!(*base);
          let mut acc = b;
          if acc.e == 0 {
            acc.c = (acc.c as u64).wrapping_add(*off) as u128;
          } else if *off != 0 {
            acc = self.bin(Op::Add, 64, acc, Val::c(*off as u128));
          }
          for (o, w, sc) in idx.iter() {
            let i = rd!(*o);
            if i.e == 0 && acc.e == 0 {
              let iv = sext(i.c, *w) as i64 as u64;
              acc.c = (acc.c as u64).wrapping_add(iv.wrapping_mul(*sc)) as u128;
            } else {
              let ie = if i.e == 0 {
                Val::c(sext(i.c, *w) as u128 & mask(64))
              } else {
                let e = self.p.sext(i.e, 64);
                self.mkval(e)
              };
              let m = self.bin(Op::Mul, 64, ie, Val::c(*sc as u128));
              acc = self.bin(Op::Add, 64, acc, m);
            }
          }
          fr.regs[*dst as usize] = acc;
          fr.ip += 1;
        }
        Inst::Select { c, a, b, w, dst } => {
          let c = rd!(*c);
          let known = if c.e == 0 { Some(c.c) } else { st.known.get(&c.e).copied() };
          if let Some(k) = known {
            let src = if k & 1 == 1 { a } else { b };
            let vals: Vec<Val> = src.iter().map(|o| rd!(*o)).collect();
            for (i, v) in vals.into_iter().enumerate() {
              fr.regs[*dst as usize + i] = v;
            }
          } else {
            let mut out = vec![];
            for i in 0..a.len() {
              let (x, y) = (rd!(a[i]), rd!(b[i]));
              if x == y {
                out.push(x);
              } else {
                let xe = self.ex(x, w[i]);
                let ye = self.ex(y, w[i]);
                let e = self.p.ite(c.e, xe, ye);
                out.push(self.mkval(e));
              }
            }
            for (i, v) in out.into_iter().enumerate() {
              fr.regs[*dst as usize + i] = v;
            }
          }
          fr.ip += 1;
        }
        Inst::Br(b) => jump!(*b),
        Inst::CondBr(c, a, b) => {
          let c = rd!(*c);
          let k = if c.e == 0 {
            c.c & 1 == 1
          } else if let Some(&k) = st.known.get(&c.e) {
            k & 1 == 1
          } else {
            stop!(Stop::Branch(c.e));
          };
          jump!(if k { *a } else { *b })
        }
        Inst::Switch { v, cases, def, w } => {
          let x = rd!(*v);
          let mut target = *def;
          if x.e == 0 || st.known.contains_key(&x.e) {
            let k = if x.e == 0 { x.c } else { st.known[&x.e] };
            for (c, l) in cases.iter() {
              if *c == k {
                target = *l;
                break;
              }
            }
          } else {
            // decide the cases one by one
            for (c, l) in cases.iter() {
              let r = self.bin(Op::Eq, *w, x, Val::c(*c));
              let hit = if r.e == 0 {
                r.c == 1
              } else if let Some(&k) = st.known.get(&r.e) {
                k == 1
              } else {
                stop!(Stop::Branch(r.e));
              };
              if hit {
                target = *l;
                break;
              }
            }
          }
          jump!(target)
        }
        Inst::Ret(vs) => {
          let vals: Vec<Val> = vs.iter().map(|o| rd!(*o)).collect();
          for a in fr.allocas.drain(..) {
            st.mem.free(a);
            st.locks.remove(&a);
          }
          match th.rest.pop() {
            None => {
              th.stat = TStat::Done;
              return Stop::ThreadEnd;
            }
            Some(parent) => {
              let dst = fr.dst;
              fr = match Rc::try_unwrap(parent) {
                Ok(f) => f,
                Err(rc) => (*rc).clone(),
              };
              func = fr.f.clone();
              for (i, v) in vals.into_iter().enumerate() {
                fr.regs[dst as usize + i] = v;
              }
              fr.ip += 1;
            }
          }
        }
        Inst::Unreachable => {
          stop!(Stop::Bad(format!("reached `unreachable` in {}", func.name)))
        }
        Inst::AtomicRmw { op, w, p, v, dst } => {
          let a = tri!(self.conc(st, rd!(*p))) as u64;
          let old = tri!(self.load(st, a, *w));
          let x = rd!(*v);
          let nv = match op {
            Rmw::Xchg => x,
            Rmw::Add => self.bin(Op::Add, *w, old, x),
            Rmw::Sub => self.bin(Op::Sub, *w, old, x),
            Rmw::And => self.bin(Op::And, *w, old, x),
            Rmw::Or => self.bin(Op::Or, *w, old, x),
            Rmw::Xor => self.bin(Op::Xor, *w, old, x),
            Rmw::Nand => {
              let y = self.bin(Op::And, *w, old, x);
              self.bin(Op::Xor, *w, y, Val::c(mask(*w)))
            }
            Rmw::UMax | Rmw::UMin | Rmw::Max | Rmw::Min => {
              let o = match op {
                Rmw::UMax | Rmw::UMin => Op::Ult,
                _ => Op::Slt,
              };
              let lt = self.bin(o, *w, old, x);
              let mx = matches!(op, Rmw::UMax | Rmw::Max);
              if lt.e == 0 {
                if (lt.c == 1) == mx {
                  x
                } else {
                  old
                }
              } else {
                let (oe, xe) = (self.ex(old, *w), self.ex(x, *w));
                let e = if mx { self.p.ite(lt.e, xe, oe) } else { self.p.ite(lt.e, oe, xe) };
                self.mkval(e)
              }
            }
          };
          tri!(self.store(st, a, *w, nv));
          self.note_atomic(st, a);
          fr.regs[*dst as usize] = old;
          fr.ip += 1;
        }
        Inst::CmpXchg { w, p, c, n, dst } => {
          let a = tri!(self.conc(st, rd!(*p))) as u64;
          let old = tri!(self.load(st, a, *w));
          let eq = self.bin(Op::Eq, *w, old, rd!(*c));
          let hit = if eq.e == 0 {
            eq.c == 1
          } else if let Some(&k) = st.known.get(&eq.e) {
            k == 1
          } else {
            stop!(Stop::Branch(eq.e));
          };
          if hit {
            let v = rd!(*n);
            tri!(self.store(st, a, *w, v));
            self.note_atomic(st, a);
          }
          fr.regs[*dst as usize] = old;
          fr.regs[*dst as usize + 1] = Val::c(hit as u128);
          fr.ip += 1;
        }
        Inst::Lifetime { p } => {
          // the contents are undefined from here on
          if let Val { c, e: 0 } = rd!(*p) {
            if let Some((o, 0)) = st.mem.get(c as u64) {
              if o.stack && (o.sym.is_some() || o.data.iter().any(|b| *b != 0)) {
                let (o, _) = st.mem.get_mut(c as u64).unwrap();
                o.sym = None;
                o.data.iter_mut().for_each(|b| *b = 0);
              }
            }
          }
          fr.ip += 1;
        }
        Inst::Unsupported(s) => {
          stop!(Stop::Bad(format!("unsupported instruction: {} in {}", s, func.name)))
        }
        Inst::Call { c, args, widths, dst, nret, .. } => {
          let fi = match c {
            Callee::Func(i) => *i,
            Callee::Ptr(o) => {
              let a = tri!(self.conc(st, rd!(*o))) as u64;
              if a < FUNC_BASE || ((a - FUNC_BASE) >> 4) as usize >= self.m.funcs.len() {
                stop!(Stop::Bad(format!("call through invalid pointer {:#x}", a)));
              }
              ((a - FUNC_BASE) >> 4) as usize
            }
            Callee::Intr(n) => {
              let n = n.clone();
              if st.alloc_names {
                self.site = site_of(th, &func, fr.ip);
              }
              let av: Vec<Val> = args.iter().map(|o| rd!(*o)).collect();
              let widths = widths.clone();
              let (dst, nret) = (*dst, *nret);
              match self.intrinsic(st, th, t, &n, &av, &widths) {
                Ok(vals) => {
                  for (i, v) in vals.into_iter().enumerate() {
                    if (i as u32) < nret.max(1) && nret > 0 {
                      fr.regs[dst as usize + i] = v;
                    }
                  }
                  fr.ip += 1;
                  continue;
                }
                Err(s) => {
                  if let Stop::Bad(m) = &s {
                    stop!(Stop::Bad(format!("{} (in {})", m, func.name)));
                  }
                  stop!(s)
                }
              }
            }
          };
          if let Some(stub) = self.stubs.get(&fi) {
            match stub {
              Stub::Panic => {
                let nm = self.m.funcs[fi].name.clone();
                let mut bt = short(&func.name);
                for f in th.rest.iter().rev().take(6) {
                  bt.push_str(" < ");
                  bt.push_str(&short(&f.f.name));
                }
                stop!(Stop::Panic(format!("{} in {}", short(&nm), bt)))
              }
              Stub::AllocFail => stop!(Stop::Bad("allocation failure path".into())),
              _ => {
                fr.ip += 1;
                continue;
              }
            }
          }
          if self.m.funcs[fi].body.is_none() {
            let nm = self.m.funcs[fi].name.clone();
            stop!(Stop::Bad(format!("call of external function {}", nm)));
          }
          let f = match self.m.func(fi) {
            Ok(f) => f,
            Err(e) => stop!(Stop::Bad(e)),
          };
          if self.trace {
            eprintln!("{}t{} call {}", " ".repeat(th.rest.len()), t, short(&f.name));
          }
          self.funcs_used.insert(fi);
          if th.rest.len() > 1500 {
            stop!(Stop::Bad("recursion deeper than 1500 frames".into()));
          }
          let mut regs = vec![Val::default(); f.nregs as usize];
          for (i, o) in args.iter().enumerate() {
            regs[i] = rd!(*o);
          }
          let nf = Frame { regs, f: f.clone(), ip: 0, bb: 0, allocas: vec![], dst: *dst };
          let old = std::mem::replace(&mut fr, nf);
          th.rest.push(Rc::new(old));
          func = f;
        }
      }
    }
  }

  fn intrinsic(
    &mut self,
    st: &mut State,
    th: &mut Thread,
    t: usize,
    n: &str,
    a: &[Val],
    w: &[u16],
  ) -> Result<Vec<Val>, Stop> {
    let one = |v: u128| Ok(vec![Val::c(v)]);
    if let Some(r) = n.strip_prefix("llvm.") {
      let base = r.split('.').next().unwrap_or("");
      match base {
        "memcpy" | "memmove" => {
          let d = self.conc(st, a[0])? as u64;
          let s = self.conc(st, a[1])? as u64;
          let k = self.conc(st, a[2])? as usize;
          self.memcpy(st, d, s, k)?;
          return Ok(vec![]);
        }
        "memset" => {
          let d = self.conc(st, a[0])? as u64;
          let k = self.conc(st, a[2])? as usize;
          if st.slog.is_some() && k > 0 {
            st.log_store(d, k);
          }
          for i in 0..k {
            self.store(st, d + i as u64, 8, a[1])?;
          }
          return Ok(vec![]);
        }
        "umax" | "umin" | "smax" | "smin" => {
          let (op, mx) = match base {
            "umax" => (Op::Ult, true),
            "umin" => (Op::Ult, false),
            "smax" => (Op::Slt, true),
            _ => (Op::Slt, false),
          };
          let lanes = a.len() / 2;
          let mut out = vec![];
          for i in 0..lanes {
            let (x, y) = (a[i], a[lanes + i]);
            let lt = self.bin(op, w[i], x, y);
            out.push(if lt.e == 0 {
              if (lt.c == 1) == mx {
                y
              } else {
                x
              }
            } else {
              let (xe, ye) = (self.ex(x, w[i]), self.ex(y, w[i]));
              let e = if mx { self.p.ite(lt.e, ye, xe) } else { self.p.ite(lt.e, xe, ye) };
              self.mkval(e)
            });
          }
          return Ok(out);
        }
        "abs" => {
          let z = self.bin(Op::Slt, w[0], a[0], Val::c(0));
          let ng = self.bin(Op::Sub, w[0], Val::c(0), a[0]);
          if z.e == 0 {
            return Ok(vec![if z.c == 1 { ng } else { a[0] }]);
          }
          let (x, y) = (self.ex(ng, w[0]), self.ex(a[0], w[0]));
          let e = self.p.ite(z.e, x, y);
          return Ok(vec![self.mkval(e)]);
        }
        "uadd" | "usub" | "umul" | "sadd" | "ssub" | "smul" => {
          let rest = &r[base.len() + 1..];
          let op = match &base[1..] {
            "add" => Op::Add,
            "sub" => Op::Sub,
            _ => Op::Mul,
          };
          let signed = base.starts_with('s');
          let ww = w[0];
          if ww > 64 && op == Op::Mul {
            return Err(Stop::Bad(format!("{} on {} bits", n, ww)));
          }
          // compute in double width
          let dw = if ww <= 64 { 128 } else { 128 };
          let ext = |s: &mut Vm, v: Val| -> Val {
            if v.e == 0 {
              Val::c(if signed { sext(v.c, ww) as u128 } else { v.c })
            } else {
              let e = if signed { s.p.sext(v.e, dw) } else { s.p.zext(v.e, dw) };
              s.mkval(e)
            }
          };
          let res = self.bin(op, ww, a[0], a[1]);
          // overflow?
          let ov = if op == Op::Sub && !signed {
            self.bin(Op::Ult, ww, a[0], a[1])
          } else if op == Op::Add && !signed {
            self.bin(Op::Ult, ww, res, a[0])
          } else {
            let (x, y) = (ext(self, a[0]), ext(self, a[1]));
            let full = self.bin(op, dw, x, y);
            let back = ext(self, res);
            let eq = self.bin(Op::Eq, dw, full, back);
            if eq.e == 0 {
              Val::c(eq.c ^ 1)
            } else {
              let e = self.p.not(eq.e);
              self.mkval(e)
            }
          };
          if rest.starts_with("with") {
            return Ok(vec![res, ov]);
          }
          if rest.starts_with("sat") && !signed {
            let satv = if op == Op::Sub { Val::c(0) } else { Val::c(mask(ww)) };
            if ov.e == 0 {
              return Ok(vec![if ov.c == 1 { satv } else { res }]);
            }
            let (x, y) = (self.ex(satv, ww), self.ex(res, ww));
            let e = self.p.ite(ov.e, x, y);
            return Ok(vec![self.mkval(e)]);
          }
          return Err(Stop::Bad(format!("intrinsic {}", n)));
        }
        "ctlz" | "cttz" | "ctpop" | "bswap" | "bitreverse" => {
          let v = self.conc(st, a[0])?;
          let ww = w[0] as u32;
          let r = match base {
            "ctlz" => {
              if v == 0 {
                ww as u128
              } else {
                (v.leading_zeros() - (128 - ww)) as u128
              }
            }
            "cttz" => {
              if v == 0 {
                ww as u128
              } else {
                v.trailing_zeros() as u128
              }
            }
            "ctpop" => v.count_ones() as u128,
            "bswap" => v.swap_bytes() >> (128 - ww),
            _ => v.reverse_bits() >> (128 - ww),
          };
          return one(r);
        }
        "fshl" | "fshr" => {
          let ww = w[0];
          let k = self.conc(st, a[2])? % ww as u128;
          let k = if base == "fshl" { k } else { (ww as u128 - k) % ww as u128 };
          if k == 0 {
            return Ok(vec![if base == "fshl" { a[0] } else { a[1] }]);
          }
          let x = self.bin(Op::Shl, ww, a[0], Val::c(k));
          let y = self.bin(Op::LShr, ww, a[1], Val::c(ww as u128 - k));
          let r = self.bin(Op::Or, ww, x, y);
          return Ok(vec![r]);
        }
        "is" => return one(0), // is.constant
        "expect" => return Ok(vec![a[0]]),
        "ucmp" | "scmp" => {
          let op = if base == "ucmp" { Op::Ult } else { Op::Slt };
          let lt = self.bin(op, w[0], a[0], a[1]);
          let gt = self.bin(op, w[0], a[1], a[0]);
          let rw: u16 = r
            .split('.')
            .nth(1)
            .and_then(|x| x.strip_prefix('i'))
            .and_then(|x| x.parse().ok())
            .unwrap_or(8);
          if lt.e == 0 && gt.e == 0 {
            return one(if lt.c == 1 {
              mask(rw)
            } else if gt.c == 1 {
              1
            } else {
              0
            });
          }
          let (l, g) = (self.ex(lt, 1), self.ex(gt, 1));
          let (m1, p1, z) =
            (self.p.cst(mask(rw), rw), self.p.cst(1, rw), self.p.cst(0, rw));
          let i = self.p.ite(g, p1, z);
          let e = self.p.ite(l, m1, i);
          return Ok(vec![self.mkval(e)]);
        }
        "threadlocal" => {
          let g = a[0].c as u64;
          let gi = (g >> OBJ_SHIFT) as usize - 1;
          if let Some(&o) = th.tls.get(&gi) {
            return one(o as u128);
          }
          let data = self.m.globals[gi].data.clone();
          let name = st.alloc_name(gi as u64);
          let o = st.mem.alloc(Obj { data, sym: None, ro: false, heap: false, stack: true, name });
          th.tls.insert(gi, o);
          return one(o as u128);
        }
        "trap" => return Err(Stop::Panic("trap".into())),
        "stacksave" => return one(0),
        "stackrestore" => return Ok(vec![]),
        _ => return Err(Stop::Bad(format!("intrinsic {}", n))),
      }
    }
    let i = |k: usize| a[k].c as i64;
    match n {
      "vm_sym" => {
        return Err(Stop::Visible(Act::Sym { lo: i(0), hi: i(1) }));
      }
      "vm_pick" => {
        return Err(Stop::Visible(Act::Pick { lo: i(0), hi: i(1) }));
      }
      "vm_concrete" => {
        let v = self.conc(st, a[0])?;
        return one(v);
      }
      "vm_assume" => {
        if a[0].e == 0 {
          if a[0].c == 0 {
            return Err(Stop::Prune);
          }
          return Ok(vec![]);
        }
        let z = self.bin(Op::Eq, 64, a[0], Val::c(0));
        let e = self.ex(z, 1);
        let ne = self.p.not(e);
        if let Some(k) = self.p.is_const(ne) {
          if k == 0 {
            return Err(Stop::Prune);
          }
          return Ok(vec![]);
        }
        if st.known.get(&ne) == Some(&1) {
          return Ok(vec![]);
        }
        return Err(Stop::Assume(ne));
      }
      "vm_check" => {
        let p = self.conc(st, a[1])? as u64;
        let l = self.conc(st, a[2])? as usize;
        if a[0].e == 0 {
          if a[0].c != 0 {
            self.checks_true += 1;
            return Ok(vec![]);
          }
          let msg = self.str_at(st, p, l);
          return Err(Stop::Check { cond: Val::c(0), msg });
        }
        let z = self.bin(Op::Eq, 64, a[0], Val::c(0));
        let e = self.ex(z, 1);
        let ne = self.p.not(e);
        match self.p.is_const(ne) {
          Some(1) => {
            self.checks_true += 1;
            return Ok(vec![]);
          }
          Some(_) => {
            let msg = self.str_at(st, p, l);
            return Err(Stop::Check { cond: Val::c(0), msg });
          }
          None => {
            if st.known.get(&ne) == Some(&1) {
              return Ok(vec![]);
            }
            let msg = self.str_at(st, p, l);
            return Err(Stop::Check { cond: Val { c: 0, e: ne }, msg });
          }
        }
      }
      "vm_cover" => {
        let p = self.conc(st, a[0])? as u64;
        let l = self.conc(st, a[1])? as usize;
        let s = self.str_at(st, p, l);
        if !st.covers.contains(&s) {
          Rc::make_mut(&mut st.covers).insert(s);
        }
        return Ok(vec![]);
      }
      "vm_log" => {
        let p = self.conc(st, a[0])? as u64;
        let l = self.conc(st, a[1])? as usize;
        let s = self.str_at(st, p, l);
        if st.log.len() < 400 {
          st.log.push((s, a[2]));
        }
        return Ok(vec![]);
      }
      "vm_lock" | "vm_unlock" | "vm_trylock" | "vm_atomic" => {
        let ad = self.conc(st, a[0])? as u64;
        let wr = self.conc(st, a[1])? != 0;
        return Err(Stop::Visible(match n {
          "vm_lock" => Act::Lock { a: ad, w: wr },
          "vm_unlock" => Act::Unlock { a: ad, w: wr },
          "vm_trylock" => Act::TryLock { a: ad, w: wr },
          _ => Act::Atomic { a: ad, w: wr },
        }));
      }
      "vm_cv_wait" => {
        let cv = self.conc(st, a[0])? as u64;
        let lock = self.conc(st, a[1])? as u64;
        return Err(Stop::Visible(Act::CvWait { cv, lock }));
      }
      "vm_cv_wait_to" => {
        let cv = self.conc(st, a[0])? as u64;
        let lock = self.conc(st, a[1])? as u64;
        return Err(Stop::Visible(Act::CvWaitTo { cv, lock, ns: a[2] }));
      }
      "vm_cv_notify" => {
        let cv = self.conc(st, a[0])? as u64;
        let all = self.conc(st, a[1])? != 0;
        return Err(Stop::Visible(Act::CvNotify { cv, all }));
      }
      "vm_spawn" => {
        let f = self.conc(st, a[0])? as u64;
        let d = self.conc(st, a[1])? as u64;
        return Err(Stop::Visible(Act::Spawn { f, data: d }));
      }
      "vm_join" => {
        let t = self.conc(st, a[0])? as u64;
        return Err(Stop::Visible(Act::Join { t }));
      }
      "vm_sleep" => return Err(Stop::Visible(Act::Sleep { ns: a[0] })),
      "vm_idle" => return Err(Stop::Visible(Act::Idle)),
      "vm_yield" => return Err(Stop::Visible(Act::Yield)),
      "vm_concurrent" => return Err(Stop::Visible(Act::Concurrent)),
      "vm_mark" => {
        let k = self.conc(st, a[0])? as i64;
        let x = self.conc(st, a[1])? as i64;
        let y = self.conc(st, a[2])? as i64;
        return Err(Stop::Visible(Act::Mark { k, a: x, b: y }));
      }
      "vm_now" => return Ok(vec![st.now]),
      "vm_tid" => return one(t as u128),
      "vm_threads_live" => {
        let k = st
          .threads
          .iter()
          .enumerate()
          .filter(|(i, x)| *i != t && x.stat != TStat::Done)
          .count();
        return one(k as u128);
      }
      "vm_thread_done" => {
        let k = self.conc(st, a[0])? as usize;
        return one((st.threads[k].stat == TStat::Done) as u128);
      }
      "vm_live_heap" => return one(st.mem.live_heap as u128),
      "vm_pcs" => return one(st.pc.len() as u128),
      "malloc" => {
        let k = self.conc(st, a[0])? as usize;
        let p = self.heap_alloc(st, k, t);
        return one(p as u128);
      }
      "calloc" => {
        let k = (self.conc(st, a[0])? * self.conc(st, a[1])?) as usize;
        let p = self.heap_alloc(st, k, t);
        return one(p as u128);
      }
      "posix_memalign" => {
        let k = self.conc(st, a[2])? as usize;
        let p = self.heap_alloc(st, k, t);
        let d = self.conc(st, a[0])? as u64;
        self.store(st, d, 64, Val::c(p as u128))?;
        return one(0);
      }
      "realloc" => {
        let old = self.conc(st, a[0])? as u64;
        let k = self.conc(st, a[1])? as usize;
        let p = self.heap_alloc(st, k, t);
        let n = match st.mem.get(old) {
          Some((o, _)) => o.data.len().min(k),
          None => return Err(Stop::Bad("realloc of a freed block".into())),
        };
        self.memcpy(st, p, old, n)?;
        st.mem.free(old);
        return one(p as u128);
      }
      "free" => {
        let p = self.conc(st, a[0])? as u64;
        if p != 0 {
          let len = st.mem.get(p).map(|(o, _)| o.data.len()).unwrap_or(0);
          if !st.mem.free(p) {
            return Err(Stop::Bad("double free".into()));
          }
          if !st.locks.is_empty() {
            st.locks.retain(|k, _| *k < p || *k >= p + len.max(1) as u64);
          }
          if !st.cvs.is_empty() {
            st.cvs.retain(|k, _| *k < p || *k >= p + len.max(1) as u64);
          }
        }
        return Ok(vec![]);
      }
      "memcmp" | "bcmp" => {
        let x = self.conc(st, a[0])? as u64;
        let y = self.conc(st, a[1])? as u64;
        let k = self.conc(st, a[2])? as u64;
        for j in 0..k {
          let p = self.load(st, x + j, 8)?;
          let q = self.load(st, y + j, 8)?;
          let eq = self.bin(Op::Eq, 8, p, q);
          let same = if eq.e == 0 {
            eq.c == 1
          } else if let Some(&k) = st.known.get(&eq.e) {
            k == 1
          } else {
            return Err(Stop::Branch(eq.e));
          };
          if !same {
            let lt = self.bin(Op::Ult, 8, p, q);
            let l = if lt.e == 0 {
              lt.c == 1
            } else if let Some(&k) = st.known.get(&lt.e) {
              k == 1
            } else {
              return Err(Stop::Branch(lt.e));
            };
            return one(if l { mask(32) } else { 1 });
          }
        }
        return one(0);
      }
      "strlen" => {
        let x = self.conc(st, a[0])? as u64;
        let mut k = 0;
        loop {
          let v = self.load(st, x + k, 8)?;
          if self.conc(st, v)? == 0 {
            break;
          }
          k += 1;
        }
        return one(k as u128);
      }
      "abort" => return Err(Stop::Panic("abort".into())),
      "__cxa_thread_atexit_impl" => return one(0),
      _ => {}
    }
    Err(Stop::Bad(format!("call of external function {}", n)))
  }
}

/// Readable tail of a v0-mangled symbol.
pub fn short(n: &str) -> String {
  // collect identifiers of the form <len><name>
  let b = n.as_bytes();
  let mut out: Vec<String> = vec![];
  let mut i = 0;
  while i < b.len() {
    if b[i].is_ascii_digit() && i > 0 {
      let mut j = i;
      let mut k = 0usize;
      while j < b.len() && b[j].is_ascii_digit() && k < 1000 {
        k = k * 10 + (b[j] - b'0') as usize;
        j += 1;
      }
      let mut s = j;
      if s < b.len() && b[s] == b'_' {
        s += 1;
      }
      if k > 1 && s + k <= b.len() && !b[s].is_ascii_digit() {
        let id = &n[s..s + k];
        if id.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_') {
          out.push(id.to_string());
          i = s + k;
          continue;
        }
      }
      i = j;
    } else {
      i += 1;
    }
  }
  if out.is_empty() {
    return n.to_string();
  }
  let k = out.len();
  out[k.saturating_sub(4)..].join("::")
}

/// Identifies an allocation site by the calls that lead to it.
fn site_of(th: &Thread, f: &Rc<Func>, ip: u32) -> u64 {
  let mut h = 0u64;
  for (id, ip) in th.rest.iter().map(|f| (f.f.id, f.ip)).chain(std::iter::once((f.id, ip))) {
    h = (h ^ ((id as u64) << 32 | ip as u64)).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    h ^= h >> 29;
  }
  h
}
