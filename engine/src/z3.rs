//! Minimal FFI to libz3 (C API) and a path-condition solver on top of it.
#![allow(non_camel_case_types)]
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{CStr, CString};
use std::os::raw::{c_char, c_int, c_uint};
use std::time::Instant;

pub type Ctx = *mut u8;
pub type Ast = *mut u8;
pub type Ptr = *mut u8;

#[link(name = "z3")]
extern "C" {
  fn Z3_mk_config() -> Ptr;
  fn Z3_global_param_set(k: *const c_char, v: *const c_char);
  fn Z3_set_param_value(c: Ptr, k: *const c_char, v: *const c_char);
  fn Z3_mk_context(cfg: Ptr) -> Ctx;
  fn Z3_set_error_handler(c: Ctx, h: Option<extern "C" fn(Ctx, c_int)>);
  fn Z3_get_error_msg(c: Ctx, e: c_int) -> *const c_char;
  fn Z3_get_full_version() -> *const c_char;
  fn Z3_mk_string_symbol(c: Ctx, s: *const c_char) -> Ptr;
  fn Z3_mk_bv_sort(c: Ctx, n: c_uint) -> Ptr;
  fn Z3_mk_bool_sort(c: Ctx) -> Ptr;
  fn Z3_mk_int_sort(c: Ctx) -> Ptr;
  fn Z3_mk_const(c: Ctx, s: Ptr, t: Ptr) -> Ast;
  fn Z3_mk_numeral(c: Ctx, s: *const c_char, t: Ptr) -> Ast;
  fn Z3_mk_unsigned_int64(c: Ctx, v: u64, t: Ptr) -> Ast;
  fn Z3_mk_int64(c: Ctx, v: i64, t: Ptr) -> Ast;
  fn Z3_mk_true(c: Ctx) -> Ast;
  fn Z3_mk_false(c: Ctx) -> Ast;
  fn Z3_mk_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
  fn Z3_mk_not(c: Ctx, a: Ast) -> Ast;
  fn Z3_mk_ite(c: Ctx, a: Ast, b: Ast, d: Ast) -> Ast;
  fn Z3_mk_implies(c: Ctx, a: Ast, b: Ast) -> Ast;
  fn Z3_mk_and(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
  fn Z3_mk_or(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
  fn Z3_mk_atmost(c: Ctx, n: c_uint, a: *const Ast, k: c_uint) -> Ast;
  fn Z3_mk_lt(c: Ctx, a: Ast, b: Ast) -> Ast;
  fn Z3_mk_le(c: Ctx, a: Ast, b: Ast) -> Ast;
  fn Z3_mk_add(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
  fn Z3_mk_sub(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
  fn Z3_mk_mul(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
  fn Z3_mk_bvadd(c: Ctx, a: Ast, b: Ast) -> Ast;
  fn Z3_mk_bvsub(c: Ctx, a: Ast, b: Ast) -> Ast;
  fn Z3_mk_bvmul(c: Ctx, a: Ast, b: Ast) -> Ast;
  fn Z3_mk_bvudiv(c: Ctx, a: Ast, b: Ast) -> Ast;
  fn Z3_mk_bvurem(c: Ctx, a: Ast, b: Ast) -> Ast;
  fn Z3_mk_bvsdiv(c: Ctx, a: Ast, b: Ast) -> Ast;
  fn Z3_mk_bvsrem(c: Ctx, a: Ast, b: Ast) -> Ast;
  fn Z3_mk_bvshl(c: Ctx, a: Ast, b: Ast) -> Ast;
  fn Z3_mk_bvlshr(c: Ctx, a: Ast, b: Ast) -> Ast;
  fn Z3_mk_bvashr(c: Ctx, a: Ast, b: Ast) -> Ast;
  fn Z3_mk_bvand(c: Ctx, a: Ast, b: Ast) -> Ast;
  fn Z3_mk_bvor(c: Ctx, a: Ast, b: Ast) -> Ast;
  fn Z3_mk_bvxor(c: Ctx, a: Ast, b: Ast) -> Ast;
  fn Z3_mk_bvult(c: Ctx, a: Ast, b: Ast) -> Ast;
  fn Z3_mk_bvule(c: Ctx, a: Ast, b: Ast) -> Ast;
  fn Z3_mk_bvslt(c: Ctx, a: Ast, b: Ast) -> Ast;
  fn Z3_mk_bvsle(c: Ctx, a: Ast, b: Ast) -> Ast;
  fn Z3_mk_zero_ext(c: Ctx, i: c_uint, a: Ast) -> Ast;
  fn Z3_mk_sign_ext(c: Ctx, i: c_uint, a: Ast) -> Ast;
  fn Z3_mk_extract(c: Ctx, hi: c_uint, lo: c_uint, a: Ast) -> Ast;
  fn Z3_mk_concat(c: Ctx, a: Ast, b: Ast) -> Ast;
  fn Z3_mk_solver_for_logic(c: Ctx, s: Ptr) -> Ptr;
  fn Z3_mk_simple_solver(c: Ctx) -> Ptr;
  fn Z3_solver_inc_ref(c: Ctx, s: Ptr);
  fn Z3_solver_assert(c: Ctx, s: Ptr, a: Ast);
  fn Z3_solver_push(c: Ctx, s: Ptr);
  fn Z3_solver_pop(c: Ctx, s: Ptr, n: c_uint);
  fn Z3_solver_check(c: Ctx, s: Ptr) -> c_int;
  fn Z3_solver_check_assumptions(c: Ctx, s: Ptr, n: c_uint, a: *const Ast) -> c_int;
  fn Z3_solver_get_model(c: Ctx, s: Ptr) -> Ptr;
  fn Z3_model_inc_ref(c: Ctx, m: Ptr);
  fn Z3_model_dec_ref(c: Ctx, m: Ptr);
  fn Z3_model_eval(c: Ctx, m: Ptr, a: Ast, compl: bool, out: *mut Ast) -> bool;
  fn Z3_get_numeral_string(c: Ctx, a: Ast) -> *const c_char;
  fn Z3_get_bool_value(c: Ctx, a: Ast) -> c_int;
  fn Z3_mk_params(c: Ctx) -> Ptr;
  fn Z3_params_inc_ref(c: Ctx, p: Ptr);
  fn Z3_params_set_uint(c: Ctx, p: Ptr, k: Ptr, v: c_uint);
  fn Z3_solver_set_params(c: Ctx, s: Ptr, p: Ptr);
  fn Z3_solver_to_string(c: Ctx, s: Ptr) -> *const c_char;
  fn Z3_solver_get_reason_unknown(c: Ctx, s: Ptr) -> *const c_char;
}

extern "C" fn on_error(c: Ctx, e: c_int) {
  unsafe {
    let m = CStr::from_ptr(Z3_get_error_msg(c, e));
    eprintln!("lsym: z3 error: {:?}", m);
  }
  std::process::exit(3);
}

pub fn version() -> String {
  unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

#[derive(PartialEq, Clone, Copy, Debug)]
pub enum Res {
  Sat,
  Unsat,
  Unknown,
}

/// Thin object wrapper.
pub struct Z {
  pub c: Ctx,
  pub s: Ptr,
  pub queries: u64,
  pub sat: u64,
  pub unsat: u64,
  pub time: f64,
  pub max_time: f64,
}

impl Z {
  pub fn new(logic: Option<&str>, timeout_ms: u32) -> Z {
    if logic.is_some() {
      // orders and finite choices: random phases and the dense difference solver
      for (k, v) in [("smt.phase_selection", "5"), ("smt.arith.solver", "1")] {
        let (k, v) = (CString::new(k).unwrap(), CString::new(v).unwrap());
        unsafe { Z3_global_param_set(k.as_ptr(), v.as_ptr()) };
      }
    }
    Z::make(logic, timeout_ms)
  }
  pub fn new_with(logic: &str, timeout_ms: u32) -> Z {
    Z::make(Some(logic), timeout_ms)
  }
  fn make(logic: Option<&str>, timeout_ms: u32) -> Z {
    unsafe {
      let cfg = Z3_mk_config();
      let k = CString::new("model").unwrap();
      let v = CString::new("true").unwrap();
      Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
      let c = Z3_mk_context(cfg);
      Z3_set_error_handler(c, Some(on_error));
      let s = match logic {
        Some(l) => {
          let l = CString::new(l).unwrap();
          Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()))
        }
        None => Z3_mk_simple_solver(c),
      };
      Z3_solver_inc_ref(c, s);
      let p = Z3_mk_params(c);
      Z3_params_inc_ref(c, p);
      let k = CString::new("timeout").unwrap();
      Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), timeout_ms);
      Z3_solver_set_params(c, s, p);
      Z { c, s, queries: 0, sat: 0, unsat: 0, time: 0.0, max_time: 0.0 }
    }
  }
  pub fn boolv(&self, n: &str) -> Ast {
    let n = CString::new(n).unwrap();
    unsafe {
      Z3_mk_const(
        self.c,
        Z3_mk_string_symbol(self.c, n.as_ptr()),
        Z3_mk_bool_sort(self.c),
      )
    }
  }
  pub fn intv(&self, n: &str) -> Ast {
    let n = CString::new(n).unwrap();
    unsafe {
      Z3_mk_const(
        self.c,
        Z3_mk_string_symbol(self.c, n.as_ptr()),
        Z3_mk_int_sort(self.c),
      )
    }
  }
  pub fn int(&self, v: i64) -> Ast {
    unsafe { Z3_mk_int64(self.c, v, Z3_mk_int_sort(self.c)) }
  }
  pub fn and(&self, v: &[Ast]) -> Ast {
    unsafe {
      match v.len() {
        0 => Z3_mk_true(self.c),
        1 => v[0],
        n => Z3_mk_and(self.c, n as c_uint, v.as_ptr()),
      }
    }
  }
  pub fn or(&self, v: &[Ast]) -> Ast {
    unsafe {
      match v.len() {
        0 => Z3_mk_false(self.c),
        1 => v[0],
        n => Z3_mk_or(self.c, n as c_uint, v.as_ptr()),
      }
    }
  }
  pub fn not(&self, a: Ast) -> Ast {
    unsafe { Z3_mk_not(self.c, a) }
  }
  pub fn imp(&self, a: Ast, b: Ast) -> Ast {
    unsafe { Z3_mk_implies(self.c, a, b) }
  }
  pub fn lt(&self, a: Ast, b: Ast) -> Ast {
    unsafe { Z3_mk_lt(self.c, a, b) }
  }
  pub fn le(&self, a: Ast, b: Ast) -> Ast {
    unsafe { Z3_mk_le(self.c, a, b) }
  }
  pub fn atmost1(&self, v: &[Ast]) -> Ast {
    unsafe { Z3_mk_atmost(self.c, v.len() as c_uint, v.as_ptr(), 1) }
  }
  pub fn assert(&mut self, a: Ast) {
    unsafe { Z3_solver_assert(self.c, self.s, a) }
  }
  pub fn push(&mut self) {
    unsafe { Z3_solver_push(self.c, self.s) }
  }
  pub fn pop(&mut self, n: u32) {
    if n > 0 {
      unsafe { Z3_solver_pop(self.c, self.s, n) }
    }
  }
  pub fn check(&mut self, assume: &[Ast]) -> Res {
    if let Ok(d) = std::env::var("LSYM_SMT2") {
      let t = unsafe { std::ffi::CStr::from_ptr(Z3_solver_to_string(self.c, self.s)) };
      let _ = std::fs::write(format!("{}/{}-{}.smt2", d, std::process::id(), self.queries), format!("{}\n(check-sat)\n", t.to_str().unwrap()));
    }
    let t = Instant::now();
    let r = unsafe {
      if assume.is_empty() {
        Z3_solver_check(self.c, self.s)
      } else {
        Z3_solver_check_assumptions(
          self.c,
          self.s,
          assume.len() as c_uint,
          assume.as_ptr(),
        )
      }
    };
    let d = t.elapsed().as_secs_f64();
    self.time += d;
    if d > self.max_time {
      self.max_time = d;
    }
    self.queries += 1;
    match r {
      1 => {
        self.sat += 1;
        Res::Sat
      }
      -1 => {
        self.unsat += 1;
        Res::Unsat
      }
      _ => {
        unsafe {
          let m = CStr::from_ptr(Z3_solver_get_reason_unknown(self.c, self.s));
          eprintln!("lsym: z3 unknown: {:?}", m);
        }
        Res::Unknown
      }
    }
  }
  pub fn model(&self) -> Ptr {
    unsafe {
      let m = Z3_solver_get_model(self.c, self.s);
      Z3_model_inc_ref(self.c, m);
      m
    }
  }
  pub fn model_free(&self, m: Ptr) {
    unsafe { Z3_model_dec_ref(self.c, m) }
  }
  pub fn eval_bool(&self, m: Ptr, a: Ast) -> bool {
    unsafe {
      let mut out: Ast = std::ptr::null_mut();
      Z3_model_eval(self.c, m, a, true, &mut out);
      Z3_get_bool_value(self.c, out) == 1
    }
  }
  pub fn eval_num(&self, m: Ptr, a: Ast) -> i128 {
    unsafe {
      let mut out: Ast = std::ptr::null_mut();
      Z3_model_eval(self.c, m, a, true, &mut out);
      let s = CStr::from_ptr(Z3_get_numeral_string(self.c, out));
      let s = s.to_string_lossy();
      s.parse::<i128>().unwrap_or_else(|_| s.parse::<u128>().unwrap_or(0) as i128)
    }
  }
}

/// Bit-vector path-condition solver with an assertion stack mirrored to the path.
pub struct BvSolver {
  pub z: Z,
  cache: HashMap<E, Ast>,
  stack: Vec<E>,
  seen_vars: usize,
  pub unknowns: u64,
  /// Integers for queries that are linear: wrapping is written out, so the answers agree.
  lin: Option<Lin>,
}

struct Lin {
  z: Z,
  cache: HashMap<E, Option<Ast>>,
  stack: Vec<E>,
  seen_vars: usize,
}

impl Lin {
  fn num(&self, v: u128) -> Ast {
    unsafe {
      let s = CString::new(v.to_string()).unwrap();
      Z3_mk_numeral(self.z.c, s.as_ptr(), Z3_mk_int_sort(self.z.c))
    }
  }
  fn op(&self, f: unsafe extern "C" fn(Ctx, c_uint, *const Ast) -> Ast, x: Ast, y: Ast) -> Ast {
    unsafe { f(self.z.c, 2, [x, y].as_ptr()) }
  }
  /// The unsigned value as an integer, of a 1-bit expression as a boolean.
  fn conv(&mut self, p: &Pool, e: E) -> Option<Ast> {
    if let Some(a) = self.cache.get(&e) {
      return *a;
    }
    let r = self.conv1(p, e);
    self.cache.insert(e, r);
    r
  }
  fn conv1(&mut self, p: &Pool, e: E) -> Option<Ast> {
    let n = p.nodes[e as usize];
    let c = self.z.c;
    let bit = n.w == 1;
    let (al, ah) = p.range[n.a as usize];
    let (bl, bh) = p.range[n.b as usize];
    unsafe {
      Some(match n.op {
        Op::Const if bit => {
          if n.imm == 1 {
            Z3_mk_true(c)
          } else {
            Z3_mk_false(c)
          }
        }
        Op::Const => self.num(n.imm),
        Op::Var => {
          let s = CString::new(format!("v{}", n.imm)).unwrap();
          let t = if bit { Z3_mk_bool_sort(c) } else { Z3_mk_int_sort(c) };
          Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), t)
        }
        Op::Ite => {
          let (x, y, z) = (self.conv(p, n.a)?, self.conv(p, n.b)?, self.conv(p, n.c)?);
          Z3_mk_ite(c, x, y, z)
        }
        Op::ZExt | Op::SExt if p.w(n.a) == 1 => {
          let x = self.conv(p, n.a)?;
          let one = if n.op == Op::ZExt { 1 } else { mask(n.w) };
          Z3_mk_ite(c, x, self.num(one), self.num(0))
        }
        Op::ZExt => self.conv(p, n.a)?,
        Op::SExt => {
          let w = p.w(n.a);
          let x = self.conv(p, n.a)?;
          if ah < 1 << (w - 1) {
            x
          } else {
            let neg = self.op(Z3_mk_add, x, self.num(mask(n.w) - mask(w)));
            Z3_mk_ite(c, Z3_mk_lt(c, x, self.num(1 << (w - 1))), x, neg)
          }
        }
        Op::Extract if n.imm == 0 && !bit && ah <= mask(n.w) => self.conv(p, n.a)?,
        Op::Add if !bit && (n.w < 128 || ah.checked_add(bh).is_some()) => {
          let (x, y) = (self.conv(p, n.a)?, self.conv(p, n.b)?);
          let s = self.op(Z3_mk_add, x, y);
          if n.w == 128 || ah + bh <= mask(n.w) {
            s
          } else {
            let top = self.num(mask(n.w) + 1);
            Z3_mk_ite(c, Z3_mk_lt(c, s, top), s, self.op(Z3_mk_sub, s, top))
          }
        }
        Op::Sub if !bit && (n.w < 128 || al >= bh) => {
          let (x, y) = (self.conv(p, n.a)?, self.conv(p, n.b)?);
          let s = self.op(Z3_mk_sub, x, y);
          if al >= bh {
            s
          } else {
            let top = self.num(mask(n.w) + 1);
            Z3_mk_ite(c, Z3_mk_le(c, y, x), s, self.op(Z3_mk_add, s, top))
          }
        }
        Op::Mul if !bit && (al == ah || bl == bh) && ah.checked_mul(bh).map(|x| x <= mask(n.w)) == Some(true) => {
          let (x, y) = (self.conv(p, n.a)?, self.conv(p, n.b)?);
          self.op(Z3_mk_mul, x, y)
        }
        Op::Shl if bl == bh && bl < 64 && ah.checked_mul(1 << bl).map(|x| x <= mask(n.w)) == Some(true) => {
          let x = self.conv(p, n.a)?;
          self.op(Z3_mk_mul, x, self.num(1 << bl))
        }
        Op::And | Op::Or | Op::Xor if bit => {
          let (x, y) = (self.conv(p, n.a)?, self.conv(p, n.b)?);
          match n.op {
            Op::And => self.op(Z3_mk_and, x, y),
            Op::Or => self.op(Z3_mk_or, x, y),
            _ => Z3_mk_not(c, Z3_mk_eq(c, x, y)),
          }
        }
        Op::Eq => {
          let (x, y) = (self.conv(p, n.a)?, self.conv(p, n.b)?);
          Z3_mk_eq(c, x, y)
        }
        Op::Ult | Op::Ule if p.w(n.a) > 1 => {
          let (x, y) = (self.conv(p, n.a)?, self.conv(p, n.b)?);
          if n.op == Op::Ult {
            Z3_mk_lt(c, x, y)
          } else {
            Z3_mk_le(c, x, y)
          }
        }
        Op::Slt | Op::Sle if p.w(n.a) > 1 => {
          let w = p.w(n.a);
          let mut v = [self.conv(p, n.a)?, self.conv(p, n.b)?];
          for (x, h) in v.iter_mut().zip([ah, bh]) {
            if h >= 1 << (w - 1) {
              let neg = self.op(Z3_mk_sub, *x, self.num(mask(w) + 1));
              *x = Z3_mk_ite(c, Z3_mk_lt(c, *x, self.num(1 << (w - 1))), *x, neg);
            }
          }
          if n.op == Op::Slt {
            Z3_mk_lt(c, v[0], v[1])
          } else {
            Z3_mk_le(c, v[0], v[1])
          }
        }
        op => {
          if std::env::var("LSYM_LIN").is_ok() {
            eprintln!("lsym: not linear: {:?} w={} {:?} {:?}", op, n.w, (al, ah), (bl, bh));
          }
          return None;
        }
      })
    }
  }
  /// None: not linear.
  fn check(&mut self, p: &Pool, pc: &[E], cond: E) -> Option<(Res, Vec<u128>)> {
    for &e in pc.iter().chain([cond].iter()) {
      if e != 0 {
        self.conv(p, e)?;
      }
    }
    if self.seen_vars < p.vars.len() {
      self.z.pop(self.stack.len() as u32);
      self.stack.clear();
      for v in &p.vars[self.seen_vars..] {
        if p.w(v.node) > 1 {
          let a = self.conv(p, v.node)?;
          let (l, h) = (self.num(v.lo), self.num(v.hi));
          let (l, h) = (self.z.le(l, a), self.z.le(a, h));
          self.z.assert(l);
          self.z.assert(h);
        }
      }
      self.seen_vars = p.vars.len();
    }
    let mut k = 0;
    while k < pc.len() && k < self.stack.len() && pc[k] == self.stack[k] {
      k += 1;
    }
    self.z.pop((self.stack.len() - k) as u32);
    self.stack.truncate(k);
    for &e in &pc[k..] {
      self.z.push();
      let a = self.conv(p, e)?;
      self.z.assert(a);
      self.stack.push(e);
    }
    self.z.push();
    if cond != 0 {
      let a = self.conv(p, cond)?;
      self.z.assert(a);
    }
    let r = self.z.check(&[]);
    let mut out = vec![];
    if r == Res::Sat {
      let m = self.z.model();
      for v in p.vars.iter() {
        let a = self.conv(p, v.node)?;
        let x = if p.w(v.node) == 1 { self.z.eval_bool(m, a) as u128 } else { self.z.eval_num(m, a) as u128 };
        out.push(x.clamp(v.lo, v.hi));
      }
      self.z.model_free(m);
    }
    self.z.pop(1);
    Some((r, out))
  }
}

impl BvSolver {
  pub fn new() -> BvSolver {
    BvSolver {
      z: Z::new(None, 60_000),
      cache: HashMap::new(),
      stack: vec![],
      seen_vars: 0,
      unknowns: 0,
      lin: None,
    }
  }
  /// Decide linear queries over the integers.
  pub fn linear(&mut self) {
    let z = Z::new_with("QF_LIA", 60_000);
    self.lin = Some(Lin { z, cache: HashMap::new(), stack: vec![], seen_vars: 0 });
  }
  fn num(&self, v: u128, w: u16) -> Ast {
    unsafe {
      let t = Z3_mk_bv_sort(self.z.c, w as c_uint);
      if v <= u64::MAX as u128 {
        Z3_mk_unsigned_int64(self.z.c, v as u64, t)
      } else {
        let s = CString::new(v.to_string()).unwrap();
        Z3_mk_numeral(self.z.c, s.as_ptr(), t)
      }
    }
  }
  fn b2v(&self, b: Ast) -> Ast {
    unsafe { Z3_mk_ite(self.z.c, b, self.num(1, 1), self.num(0, 1)) }
  }
  pub fn conv(&mut self, p: &Pool, e: E) -> Ast {
    if let Some(&a) = self.cache.get(&e) {
      return a;
    }
    let n = p.nodes[e as usize];
    let c = self.z.c;
    let r = unsafe {
      match n.op {
        Op::Const => self.num(n.imm, n.w),
        Op::Var => {
          let s = CString::new(format!("v{}", n.imm)).unwrap();
          Z3_mk_const(
            c,
            Z3_mk_string_symbol(c, s.as_ptr()),
            Z3_mk_bv_sort(c, n.w as c_uint),
          )
        }
        Op::Ite => {
          let x = self.conv(p, n.a);
          let y = self.conv(p, n.b);
          let z = self.conv(p, n.c);
          let cnd = Z3_mk_eq(c, x, self.num(1, 1));
          Z3_mk_ite(c, cnd, y, z)
        }
        Op::ZExt => {
          let x = self.conv(p, n.a);
          Z3_mk_zero_ext(c, (n.w - p.w(n.a)) as c_uint, x)
        }
        Op::SExt => {
          let x = self.conv(p, n.a);
          Z3_mk_sign_ext(c, (n.w - p.w(n.a)) as c_uint, x)
        }
        Op::Extract => {
          let x = self.conv(p, n.a);
          let lo = n.imm as c_uint;
          Z3_mk_extract(c, lo + n.w as c_uint - 1, lo, x)
        }
        Op::Concat => {
          let x = self.conv(p, n.a);
          let y = self.conv(p, n.b);
          Z3_mk_concat(c, x, y)
        }
        op => {
          let x = self.conv(p, n.a);
          let y = self.conv(p, n.b);
          match op {
            Op::Add => Z3_mk_bvadd(c, x, y),
            Op::Sub => Z3_mk_bvsub(c, x, y),
            Op::Mul => Z3_mk_bvmul(c, x, y),
            Op::UDiv => Z3_mk_bvudiv(c, x, y),
            Op::URem => Z3_mk_bvurem(c, x, y),
            Op::SDiv => Z3_mk_bvsdiv(c, x, y),
            Op::SRem => Z3_mk_bvsrem(c, x, y),
            Op::Shl => Z3_mk_bvshl(c, x, y),
            Op::LShr => Z3_mk_bvlshr(c, x, y),
            Op::AShr => Z3_mk_bvashr(c, x, y),
            Op::And => Z3_mk_bvand(c, x, y),
            Op::Or => Z3_mk_bvor(c, x, y),
            Op::Xor => Z3_mk_bvxor(c, x, y),
            Op::Eq => self.b2v(Z3_mk_eq(c, x, y)),
            Op::Ult => self.b2v(Z3_mk_bvult(c, x, y)),
            Op::Ule => self.b2v(Z3_mk_bvule(c, x, y)),
            Op::Slt => self.b2v(Z3_mk_bvslt(c, x, y)),
            Op::Sle => self.b2v(Z3_mk_bvsle(c, x, y)),
            _ => unreachable!(),
          }
        }
      }
    };
    self.cache.insert(e, r);
    r
  }
  fn conv_bool(&mut self, p: &Pool, e: E) -> Ast {
    let a = self.conv(p, e);
    unsafe { Z3_mk_eq(self.z.c, a, self.num(1, 1)) }
  }
  /// Range constraints of variables are global: assert them at level 0.
  fn sync_vars(&mut self, p: &Pool) {
    if self.seen_vars == p.vars.len() {
      return;
    }
    let n = self.stack.len() as u32;
    self.z.pop(n);
    self.stack.clear();
    for v in &p.vars[self.seen_vars..] {
      let w = p.w(v.node);
      let a = self.conv(p, v.node);
      if v.lo > 0 {
        let l = self.num(v.lo, w);
        self.z.assert(unsafe { Z3_mk_bvule(self.z.c, l, a) });
      }
      if v.hi < mask(w) {
        let h = self.num(v.hi, w);
        self.z.assert(unsafe { Z3_mk_bvule(self.z.c, a, h) });
      }
    }
    self.seen_vars = p.vars.len();
  }
  fn sync(&mut self, p: &Pool, pc: &[E]) {
    self.sync_vars(p);
    let mut k = 0;
    while k < pc.len() && k < self.stack.len() && pc[k] == self.stack[k] {
      k += 1;
    }
    let n = self.stack.len() - k;
    self.z.pop(n as u32);
    self.stack.truncate(k);
    for &e in &pc[k..] {
      self.z.push();
      let a = self.conv_bool(p, e);
      self.z.assert(a);
      self.stack.push(e);
    }
  }
  /// Is pc /\ cond satisfiable? On Sat returns values of all variables.
  pub fn check(&mut self, p: &Pool, pc: &[E], cond: E) -> (Res, Vec<u128>) {
    if let Some(lin) = &mut self.lin {
      let r = lin.check(p, pc, cond);
      let (z, l) = (&mut self.z, &mut lin.z);
      z.queries += std::mem::take(&mut l.queries);
      z.sat += std::mem::take(&mut l.sat);
      z.unsat += std::mem::take(&mut l.unsat);
      z.time += std::mem::take(&mut l.time);
      z.max_time = z.max_time.max(l.max_time);
      match r {
        Some((Res::Unknown, _)) | None => {}
        Some(r) => return r,
      }
    }
    self.sync(p, pc);
    self.z.push();
    if cond != 0 {
      let a = self.conv_bool(p, cond);
      self.z.assert(a);
    }
    let r = self.z.check(&[]);
    let mut out = vec![];
    if r == Res::Sat {
      let m = self.z.model();
      for v in p.vars.iter() {
        let a = self.conv(p, v.node);
        let x = self.z.eval_num(m, a) as u128;
        out.push(x.clamp(v.lo, v.hi));
      }
      self.z.model_free(m);
    }
    if r == Res::Unknown {
      self.unknowns += 1;
    }
    self.z.pop(1);
    (r, out)
  }
}

