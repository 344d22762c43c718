//! Hash-consed bit-vector expressions (widths 1..=128) with light simplification
//! and an unsigned-interval abstraction used to decide trivial comparisons.
use std::collections::HashMap;

pub type E = u32; // 0 = "no expression" (value is concrete)

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
  Const,
  Var,
  Add,
  Sub,
  Mul,
  UDiv,
  URem,
  SDiv,
  SRem,
  Shl,
  LShr,
  AShr,
  And,
  Or,
  Xor,
  Eq,
  Ult,
  Ule,
  Slt,
  Sle,
  Ite,
  ZExt,
  SExt,
  Extract, // imm = low bit
  Concat,  // a = high, b = low
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
  pub op: Op,
  pub w: u16,
  pub a: E,
  pub b: E,
  pub c: E,
  pub imm: u128,
}

pub struct VarInfo {
  pub name: String,
  pub lo: u128,
  pub hi: u128,
  pub node: E,
}

#[derive(Default)]
pub struct Pool {
  pub nodes: Vec<Node>,
  pub range: Vec<(u128, u128)>,
  map: HashMap<Node, E>,
  pub vars: Vec<VarInfo>,
}

pub fn mask(w: u16) -> u128 {
  if w >= 128 {
    u128::MAX
  } else {
    (1u128 << w) - 1
  }
}
pub fn sext(v: u128, w: u16) -> i128 {
  if w >= 128 {
    v as i128
  } else {
    let s = 128 - w as u32;
    ((v << s) as i128) >> s
  }
}

pub fn eval_bin(op: Op, w: u16, a: u128, b: u128) -> u128 {
  let m = mask(w);
  let r = match op {
    Op::Add => a.wrapping_add(b),
    Op::Sub => a.wrapping_sub(b),
    Op::Mul => a.wrapping_mul(b),
    Op::UDiv => {
      if b == 0 {
        m
      } else {
        a / b
      }
    }
    Op::URem => {
      if b == 0 {
        a
      } else {
        a % b
      }
    }
    Op::SDiv => {
      let (x, y) = (sext(a, w), sext(b, w));
      if y == 0 {
        if x < 0 {
          1
        } else {
          m
        }
      } else {
        x.wrapping_div(y) as u128
      }
    }
    Op::SRem => {
      let (x, y) = (sext(a, w), sext(b, w));
      if y == 0 {
        a
      } else {
        x.wrapping_rem(y) as u128
      }
    }
    Op::Shl => {
      if b >= w as u128 {
        0
      } else {
        a << b
      }
    }
    Op::LShr => {
      if b >= w as u128 {
        0
      } else {
        a >> b
      }
    }
    Op::AShr => {
      let x = sext(a, w);
      if b >= w as u128 {
        (x >> 127) as u128
      } else {
        (x >> b) as u128
      }
    }
    Op::And => a & b,
    Op::Or => a | b,
    Op::Xor => a ^ b,
    Op::Eq => (a == b) as u128,
    Op::Ult => (a < b) as u128,
    Op::Ule => (a <= b) as u128,
    Op::Slt => (sext(a, w) < sext(b, w)) as u128,
    Op::Sle => (sext(a, w) <= sext(b, w)) as u128,
    _ => unreachable!(),
  };
  match op {
    Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => r & 1,
    _ => r & m,
  }
}

impl Pool {
  pub fn new() -> Pool {
    let mut p = Pool::default();
    p.nodes.push(Node { op: Op::Const, w: 0, a: 0, b: 0, c: 0, imm: 0 });
    p.range.push((0, 0));
    p
  }
  fn mk(&mut self, n: Node, r: (u128, u128)) -> E {
    if let Some(&e) = self.map.get(&n) {
      return e;
    }
    let e = self.nodes.len() as E;
    self.nodes.push(n);
    let m = mask(n.w);
    self.range.push((r.0 & m, r.1.min(m)));
    self.map.insert(n, e);
    e
  }
  pub fn w(&self, e: E) -> u16 {
    self.nodes[e as usize].w
  }
  pub fn cst(&mut self, v: u128, w: u16) -> E {
    let v = v & mask(w);
    self.mk(Node { op: Op::Const, w, a: 0, b: 0, c: 0, imm: v }, (v, v))
  }
  pub fn is_const(&self, e: E) -> Option<u128> {
    let n = &self.nodes[e as usize];
    if n.op == Op::Const {
      Some(n.imm)
    } else {
      None
    }
  }
  pub fn var(&mut self, name: &str, w: u16, lo: u128, hi: u128) -> E {
    let id = self.vars.len();
    self.vars.push(VarInfo { name: name.to_string(), lo, hi, node: 0 });
    let e = self
      .mk(Node { op: Op::Var, w, a: 0, b: 0, c: 0, imm: id as u128 }, (lo, hi));
    self.vars[id].node = e;
    e
  }
  /// Non-negative (as signed) by interval?
  fn nonneg(&self, e: E) -> bool {
    let w = self.w(e);
    self.range[e as usize].1 < (1u128 << (w - 1))
  }
  pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
    let na = self.nodes[a as usize];
    let nb = self.nodes[b as usize];
    let w = na.w;
    debug_assert_eq!(na.w, nb.w);
    if na.op == Op::Const && nb.op == Op::Const {
      let r = eval_bin(op, w, na.imm, nb.imm);
      let rw = match op {
        Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => 1,
        _ => w,
      };
      return self.cst(r, rw);
    }
    let m = mask(w);
    let (al, ah) = self.range[a as usize];
    let (bl, bh) = self.range[b as usize];
    let full = (0, m);
    match op {
      Op::Add => {
        if nb.op == Op::Const && nb.imm == 0 {
          return a;
        }
        if na.op == Op::Const {
          return self.bin(Op::Add, b, a);
        }
        // (x + c1) + c2
        if nb.op == Op::Const && na.op == Op::Add {
          if let Some(c1) = self.is_const(na.b) {
            let c = self.cst(c1.wrapping_add(nb.imm), w);
            return self.bin(Op::Add, na.a, c);
          }
        }
        let r = match (al.checked_add(bl), ah.checked_add(bh)) {
          (Some(l), Some(h)) if h <= m => (l, h),
          _ => full,
        };
        self.mk(Node { op, w, a, b, c: 0, imm: 0 }, r)
      }
      Op::Sub => {
        if a == b {
          return self.cst(0, w);
        }
        if nb.op == Op::Const {
          let c = self.cst((0u128).wrapping_sub(nb.imm), w);
          // keep range information when there is no borrow
          let e = self.bin(Op::Add, a, c);
          if al >= nb.imm && self.nodes[e as usize].op == Op::Add {
            self.range[e as usize] = (al - nb.imm, ah - nb.imm);
          }
          return e;
        }
        let r = if al >= bh { (al - bh, ah - bl) } else { full };
        self.mk(Node { op, w, a, b, c: 0, imm: 0 }, r)
      }
      Op::Mul => {
        if na.op == Op::Const {
          return self.bin(Op::Mul, b, a);
        }
        if nb.op == Op::Const {
          if nb.imm == 0 {
            return b;
          }
          if nb.imm == 1 {
            return a;
          }
        }
        let r = match ah.checked_mul(bh) {
          Some(h) if h <= m => (al * bl, h),
          _ => full,
        };
        self.mk(Node { op, w, a, b, c: 0, imm: 0 }, r)
      }
      Op::UDiv => {
        if nb.op == Op::Const && nb.imm == 1 {
          return a;
        }
        if bl > 0 && ah < bl {
          return self.cst(0, w);
        }
        let r = if bl > 0 { (al / bh, ah / bl) } else { full };
        self.mk(Node { op, w, a, b, c: 0, imm: 0 }, r)
      }
      Op::URem => {
        if bl > 0 && ah < bl {
          return a;
        }
        let r = if bh > 0 { (0, bh.saturating_sub(1)) } else { full };
        let r = if bl > 0 { r } else { full };
        self.mk(Node { op, w, a, b, c: 0, imm: 0 }, r)
      }
      Op::SDiv | Op::SRem => {
        if self.nonneg(a) && self.nonneg(b) {
          return self.bin(
            if op == Op::SDiv { Op::UDiv } else { Op::URem },
            a,
            b,
          );
        }
        self.mk(Node { op, w, a, b, c: 0, imm: 0 }, full)
      }
      Op::Shl => {
        if nb.op == Op::Const {
          if nb.imm == 0 {
            return a;
          }
          if nb.imm >= w as u128 {
            return self.cst(0, w);
          }
          let r = if ah <= (m >> nb.imm) {
            (al << nb.imm, ah << nb.imm)
          } else {
            full
          };
          return self.mk(Node { op, w, a, b, c: 0, imm: 0 }, r);
        }
        self.mk(Node { op, w, a, b, c: 0, imm: 0 }, full)
      }
      Op::LShr => {
        if nb.op == Op::Const {
          if nb.imm == 0 {
            return a;
          }
          if nb.imm >= w as u128 {
            return self.cst(0, w);
          }
          let r = (al >> nb.imm, ah >> nb.imm);
          if r.0 == r.1 {
            return self.cst(r.0, w);
          }
          return self.mk(Node { op, w, a, b, c: 0, imm: 0 }, r);
        }
        self.mk(Node { op, w, a, b, c: 0, imm: 0 }, (0, ah))
      }
      Op::AShr => {
        if self.nonneg(a) {
          return self.bin(Op::LShr, a, b);
        }
        self.mk(Node { op, w, a, b, c: 0, imm: 0 }, full)
      }
      Op::And => {
        if na.op == Op::Const {
          return self.bin(op, b, a);
        }
        if a == b {
          return a;
        }
        if nb.op == Op::Const {
          if nb.imm == 0 {
            return b;
          }
          if nb.imm == m {
            return a;
          }
          // mask wider than the value's range of set bits
          let bits = 128 - ah.leading_zeros();
          if bits < 128 {
            let need = (1u128 << bits) - 1;
            if nb.imm & need == need {
              return a;
            }
            if nb.imm & need == 0 {
              return self.cst(0, w);
            }
          }
        }
        if w == 1 && self.not(a) == b {
          return self.cst(0, 1);
        }
        self.mk(Node { op, w, a, b, c: 0, imm: 0 }, (0, ah.min(bh)))
      }
      Op::Or => {
        if na.op == Op::Const {
          return self.bin(op, b, a);
        }
        if a == b {
          return a;
        }
        if nb.op == Op::Const {
          if nb.imm == 0 {
            return a;
          }
          if nb.imm == m {
            return b;
          }
        }
        let h = ah | bh;
        let bits = 128 - h.leading_zeros();
        let hi = if bits >= 128 { u128::MAX } else { (1u128 << bits) - 1 };
        self.mk(Node { op, w, a, b, c: 0, imm: 0 }, (al.max(bl), hi.min(m)))
      }
      Op::Xor => {
        if na.op == Op::Const {
          return self.bin(op, b, a);
        }
        if a == b {
          return self.cst(0, w);
        }
        if nb.op == Op::Const {
          if nb.imm == 0 {
            return a;
          }
          // x ^ 1 ^ 1
          if na.op == Op::Xor {
            if let Some(c1) = self.is_const(na.b) {
              let c = self.cst(c1 ^ nb.imm, w);
              return self.bin(Op::Xor, na.a, c);
            }
          }
        }
        let h = ah | bh;
        let bits = 128 - h.leading_zeros();
        let hi = if bits >= 128 { u128::MAX } else { (1u128 << bits) - 1 };
        self.mk(Node { op, w, a, b, c: 0, imm: 0 }, (0, hi.min(m)))
      }
      Op::Eq => {
        if a == b {
          return self.cst(1, 1);
        }
        if ah < bl || bh < al {
          return self.cst(0, 1);
        }
        if na.op == Op::Const {
          return self.bin(op, b, a);
        }
        if nb.op == Op::Const {
          let k = nb.imm;
          if w == 1 {
            return if k == 1 { a } else { self.not(a) };
          }
          match na.op {
            Op::ZExt => {
              let iw = self.w(na.a);
              if k > mask(iw) {
                return self.cst(0, 1);
              }
              let c = self.cst(k, iw);
              return self.bin(Op::Eq, na.a, c);
            }
            Op::Add => {
              if let Some(c1) = self.is_const(na.b) {
                let c = self.cst(k.wrapping_sub(c1), w);
                return self.bin(Op::Eq, na.a, c);
              }
            }
            Op::Xor => {
              if let Some(c1) = self.is_const(na.b) {
                let c = self.cst(k ^ c1, w);
                return self.bin(Op::Eq, na.a, c);
              }
            }
            Op::Ite => {
              if let (Some(x), Some(y)) =
                (self.is_const(na.b), self.is_const(na.c))
              {
                return match (x == k, y == k) {
                  (true, true) => self.cst(1, 1),
                  (true, false) => na.a,
                  (false, true) => self.not(na.a),
                  (false, false) => self.cst(0, 1),
                };
              }
            }
            _ => {}
          }
        }
        self.mk(Node { op, w: 1, a, b, c: 0, imm: 0 }, (0, 1))
      }
      Op::Ult => {
        if a == b || al >= bh {
          return self.cst(0, 1);
        }
        if ah < bl {
          return self.cst(1, 1);
        }
        self.mk(Node { op, w: 1, a, b, c: 0, imm: 0 }, (0, 1))
      }
      Op::Ule => {
        if a == b || ah <= bl {
          return self.cst(1, 1);
        }
        if al > bh {
          return self.cst(0, 1);
        }
        self.mk(Node { op, w: 1, a, b, c: 0, imm: 0 }, (0, 1))
      }
      Op::Slt | Op::Sle => {
        if self.nonneg(a) && self.nonneg(b) {
          return self.bin(
            if op == Op::Slt { Op::Ult } else { Op::Ule },
            a,
            b,
          );
        }
        if a == b {
          return self.cst((op == Op::Sle) as u128, 1);
        }
        self.mk(Node { op, w: 1, a, b, c: 0, imm: 0 }, (0, 1))
      }
      _ => unreachable!(),
    }
  }
  pub fn not(&mut self, a: E) -> E {
    let w = self.w(a);
    let c = self.cst(mask(w), w);
    self.bin(Op::Xor, a, c)
  }
  pub fn ite(&mut self, c: E, a: E, b: E) -> E {
    if let Some(k) = self.is_const(c) {
      return if k == 1 { a } else { b };
    }
    if a == b {
      return a;
    }
    let w = self.w(a);
    if w == 1 {
      match (self.is_const(a), self.is_const(b)) {
        (Some(1), Some(0)) => return c,
        (Some(0), Some(1)) => return self.not(c),
        (Some(1), None) => return self.bin(Op::Or, c, b),
        (Some(0), None) => {
          let nc = self.not(c);
          return self.bin(Op::And, nc, b);
        }
        (None, Some(0)) => return self.bin(Op::And, c, a),
        (None, Some(1)) => {
          let nc = self.not(c);
          return self.bin(Op::Or, nc, a);
        }
        _ => {}
      }
    } else if let (Some(1), Some(0)) = (self.is_const(a), self.is_const(b)) {
      return self.zext(c, w);
    }
    let (al, ah) = self.range[a as usize];
    let (bl, bh) = self.range[b as usize];
    self.mk(
      Node { op: Op::Ite, w, a: c, b: a, c: b, imm: 0 },
      (al.min(bl), ah.max(bh)),
    )
  }
  pub fn zext(&mut self, a: E, w: u16) -> E {
    let n = self.nodes[a as usize];
    if n.w == w {
      return a;
    }
    if n.op == Op::Const {
      return self.cst(n.imm, w);
    }
    if n.op == Op::ZExt {
      return self.zext(n.a, w);
    }
    let r = self.range[a as usize];
    self.mk(Node { op: Op::ZExt, w, a, b: 0, c: 0, imm: 0 }, r)
  }
  pub fn sext(&mut self, a: E, w: u16) -> E {
    let n = self.nodes[a as usize];
    if n.w == w {
      return a;
    }
    if n.op == Op::Const {
      return self.cst(sext(n.imm, n.w) as u128, w);
    }
    if self.nonneg(a) {
      return self.zext(a, w);
    }
    self.mk(Node { op: Op::SExt, w, a, b: 0, c: 0, imm: 0 }, (0, mask(w)))
  }
  pub fn extract(&mut self, a: E, lo: u16, w: u16) -> E {
    let n = self.nodes[a as usize];
    if lo == 0 && n.w == w {
      return a;
    }
    match n.op {
      Op::Const => return self.cst(n.imm >> lo, w),
      Op::ZExt => {
        let iw = self.w(n.a);
        if lo >= iw {
          return self.cst(0, w);
        }
        if lo == 0 && w >= iw {
          return self.zext(n.a, w);
        }
        if lo + w <= iw {
          return self.extract(n.a, lo, w);
        }
      }
      Op::SExt => {
        let iw = self.w(n.a);
        if lo + w <= iw {
          return self.extract(n.a, lo, w);
        }
      }
      Op::Extract => return self.extract(n.a, lo + n.imm as u16, w),
      Op::Concat => {
        let lw = self.w(n.b);
        if lo + w <= lw {
          return self.extract(n.b, lo, w);
        }
        if lo >= lw {
          return self.extract(n.a, lo - lw, w);
        }
      }
      Op::Ite => {
        if self.is_const(n.b).is_some() && self.is_const(n.c).is_some() {
          let x = self.extract(n.b, lo, w);
          let y = self.extract(n.c, lo, w);
          return self.ite(n.a, x, y);
        }
      }
      Op::Add | Op::Sub | Op::Mul | Op::And | Op::Or | Op::Xor
        if lo == 0 && w == 32 && n.w == 64 =>
      {
        let x = self.extract(n.a, lo, w);
        let y = self.extract(n.b, lo, w);
        return self.bin(n.op, x, y);
      }
      _ => {}
    }
    let (l, h) = self.range[a as usize];
    let m = mask(w);
    if lo == 0 {
      let r = if h <= m { (l, h) } else { (0, m) };
      return self.mk(
        Node { op: Op::Extract, w, a, b: 0, c: 0, imm: lo as u128 },
        r,
      );
    }
    let r = if (h >> lo) <= m { (l >> lo, h >> lo) } else { (0, m) };
    if r.0 == r.1 {
      return self.cst(r.0, w);
    }
    self.mk(Node { op: Op::Extract, w, a, b: 0, c: 0, imm: lo as u128 }, r)
  }
  pub fn concat(&mut self, hi: E, lo: E) -> E {
    let nh = self.nodes[hi as usize];
    let nl = self.nodes[lo as usize];
    let w = nh.w + nl.w;
    if nh.op == Op::Const && nl.op == Op::Const {
      return self.cst((nh.imm << nl.w) | nl.imm, w);
    }
    if nh.op == Op::Const && nh.imm == 0 {
      return self.zext(lo, w);
    }
    // adjacent extracts of one expression
    if nh.op == Op::Extract
      && nl.op == Op::Extract
      && nh.a == nl.a
      && nl.imm + nl.w as u128 == nh.imm
    {
      return self.extract(nh.a, nl.imm as u16, w);
    }
    if nh.op == Op::Extract && nh.a == lo && nh.imm == nl.w as u128 {
      return self.extract(nh.a, 0, w);
    }
    let (hl, hh) = self.range[hi as usize];
    let (ll, lh) = self.range[lo as usize];
    self.mk(
      Node { op: Op::Concat, w, a: hi, b: lo, c: 0, imm: 0 },
      ((hl << nl.w) | ll, (hh << nl.w) | lh),
    )
  }
  /// Evaluate under an assignment of variables.
  pub fn eval(
    &self,
    e: E,
    asg: &dyn Fn(usize) -> u128,
    memo: &mut HashMap<E, u128>,
  ) -> u128 {
    if let Some(&v) = memo.get(&e) {
      return v;
    }
    let n = self.nodes[e as usize];
    let r = match n.op {
      Op::Const => n.imm,
      Op::Var => asg(n.imm as usize) & mask(n.w),
      Op::Ite => {
        if self.eval(n.a, asg, memo) == 1 {
          self.eval(n.b, asg, memo)
        } else {
          self.eval(n.c, asg, memo)
        }
      }
      Op::ZExt => self.eval(n.a, asg, memo),
      Op::SExt => {
        let v = self.eval(n.a, asg, memo);
        sext(v, self.w(n.a)) as u128 & mask(n.w)
      }
      Op::Extract => (self.eval(n.a, asg, memo) >> n.imm) & mask(n.w),
      Op::Concat => {
        let h = self.eval(n.a, asg, memo);
        let l = self.eval(n.b, asg, memo);
        (h << self.w(n.b)) | l
      }
      op => {
        let x = self.eval(n.a, asg, memo);
        let y = self.eval(n.b, asg, memo);
        eval_bin(op, self.w(n.a), x, y)
      }
    };
    memo.insert(e, r);
    r
  }
}
