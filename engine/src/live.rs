//! Live registers of a function at an instruction (backward data flow), used to compare
//! the local states of threads.
use crate::ir::*;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Default)]
pub struct Live {
  blocks: HashMap<usize, Rc<Vec<Vec<u64>>>>, // per function: live-out of each block
  at: HashMap<(usize, u32, u32, bool), Rc<Vec<u32>>>,
}

fn get(s: &[u64], r: u32) -> bool {
  s[r as usize / 64] >> (r % 64) & 1 == 1
}
fn set(s: &mut [u64], r: u32) {
  s[r as usize / 64] |= 1 << (r % 64);
}
fn clr(s: &mut [u64], r: u32) {
  s[r as usize / 64] &= !(1 << (r % 64));
}

/// Effect of one instruction, backwards.
fn back(i: &Inst, s: &mut [u64]) {
  let mut defs: Vec<u32> = vec![];
  let mut uses: Vec<Opnd> = vec![];
  match i {
    Inst::Bin { a, b, dst, .. } | Inst::Icmp { a, b, dst, .. } => {
      defs.push(*dst);
      uses.extend([*a, *b]);
    }
    Inst::Cast { a, dst, .. } => {
      defs.push(*dst);
      uses.push(*a);
    }
    Inst::Load { p, f, dst } => {
      defs.extend((0..f.len() as u32).map(|k| dst + k));
      uses.push(*p);
    }
    Inst::Store { p, v, .. } => {
      uses.push(*p);
      uses.extend(v.iter().copied());
    }
    Inst::Alloca { count, dst, .. } => {
      defs.push(*dst);
      uses.push(*count);
    }
    Inst::Gep { base, idx, dst, .. } => {
      defs.push(*dst);
      uses.push(*base);
      uses.extend(idx.iter().map(|x| x.0));
    }
    Inst::Call { c, args, dst, nret, .. } => {
      defs.extend((0..*nret).map(|k| dst + k));
      if let Callee::Ptr(o) = c {
        uses.push(*o);
      }
      uses.extend(args.iter().copied());
    }
    Inst::Copy { src, dst } => {
      defs.extend((0..src.len() as u32).map(|k| dst + k));
      uses.extend(src.iter().copied());
    }
    Inst::Select { c, a, b, dst, .. } => {
      defs.extend((0..a.len() as u32).map(|k| dst + k));
      uses.push(*c);
      uses.extend(a.iter().copied());
      uses.extend(b.iter().copied());
    }
    Inst::CondBr(c, _, _) => uses.push(*c),
    Inst::Switch { v, .. } => uses.push(*v),
    Inst::Ret(v) => uses.extend(v.iter().copied()),
    Inst::AtomicRmw { p, v, dst, .. } => {
      defs.push(*dst);
      uses.extend([*p, *v]);
    }
    Inst::CmpXchg { p, c, n, dst, .. } => {
      defs.extend([*dst, dst + 1]);
      uses.extend([*p, *c, *n]);
    }
    // what a slot holds does not survive the start or the end of its lifetime
    Inst::Lifetime { p } => {
      if let Opnd::R(r) = p {
        defs.push(*r);
      }
    }
    Inst::Br(_) | Inst::Unreachable | Inst::Unsupported(_) => {}
  }
  for d in defs {
    clr(s, d);
  }
  for u in uses {
    if let Opnd::R(r) = u {
      set(s, r);
    }
  }
}

fn term_of(f: &Func, b: usize) -> usize {
  let mut i = f.blocks[b].start as usize;
  loop {
    match &f.code[i] {
      Inst::Br(_) | Inst::CondBr(..) | Inst::Switch { .. } | Inst::Ret(_) | Inst::Unreachable => return i,
      Inst::Unsupported(_) if i + 1 >= f.code.len() => return i,
      _ => i += 1,
    }
  }
}
fn succ(i: &Inst) -> Vec<u32> {
  match i {
    Inst::Br(b) => vec![*b],
    Inst::CondBr(_, a, b) => vec![*a, *b],
    Inst::Switch { cases, def, .. } => {
      let mut v: Vec<u32> = cases.iter().map(|c| c.1).collect();
      v.push(*def);
      v
    }
    _ => vec![],
  }
}

impl Live {
  fn outs(&mut self, f: &Rc<Func>) -> Rc<Vec<Vec<u64>>> {
    if let Some(v) = self.blocks.get(&f.id) {
      return v.clone();
    }
    let nb = f.blocks.len();
    let w = f.nregs as usize / 64 + 1;
    let terms: Vec<usize> = (0..nb).map(|b| term_of(f, b)).collect();
    let mut out = vec![vec![0u64; w]; nb];
    let mut inn = vec![vec![0u64; w]; nb]; // before the phis' definitions are removed
    loop {
      let mut ch = false;
      for b in (0..nb).rev() {
        let mut o = vec![0u64; w];
        for s in succ(&f.code[terms[b]]) {
          let sb = &f.blocks[s as usize];
          let mut i = inn[s as usize].clone();
          if let Some((_, list)) = sb.phis.iter().find(|x| x.0 as usize == b) {
            for (d, _) in list.iter() {
              clr(&mut i, *d);
            }
            for (_, u) in list.iter() {
              if let Opnd::R(r) = u {
                set(&mut i, *r);
              }
            }
          }
          for k in 0..w {
            o[k] |= i[k];
          }
        }
        let mut s = o.clone();
        let mut i = terms[b] as i64;
        while i >= f.blocks[b].start as i64 {
          back(&f.code[i as usize], &mut s);
          i -= 1;
        }
        if s != inn[b] || o != out[b] {
          ch = true;
          inn[b] = s;
          out[b] = o;
        }
      }
      if !ch {
        break;
      }
    }
    let r = Rc::new(out);
    self.blocks.insert(f.id, r.clone());
    r
  }
  /// Registers live at ip in block bb. `inside`: the call at ip is under way (its
  /// arguments are gone, its result is not there yet).
  pub fn at(&mut self, f: &Rc<Func>, bb: u32, ip: u32, inside: bool) -> Rc<Vec<u32>> {
    let k = (f.id, bb, ip, inside);
    if let Some(v) = self.at.get(&k) {
      return v.clone();
    }
    let outs = self.outs(f);
    let mut s = outs[bb as usize].clone();
    let mut i = term_of(f, bb as usize) as i64;
    while i > ip as i64 {
      back(&f.code[i as usize], &mut s);
      i -= 1;
    }
    if inside {
      if let Inst::Call { dst, nret, .. } = &f.code[ip as usize] {
        for k in 0..*nret {
          clr(&mut s, dst + k);
        }
      }
    } else {
      back(&f.code[ip as usize], &mut s);
    }
    let v: Rc<Vec<u32>> = Rc::new((0..f.nregs).filter(|r| get(&s, *r)).collect());
    self.at.insert(k, v.clone());
    v
  }
}
