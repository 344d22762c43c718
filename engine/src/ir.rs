//! Parser for the subset of textual LLVM IR that rustc emits, lowering each
//! function (lazily) to a flat scalar instruction list.
use crate::expr::{eval_bin, mask, sext, Op};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
  Void,
  Int(u16),
  Ptr,
  Arr(u64, Rc<Ty>),
  Struct(Rc<Vec<Ty>>, bool),
  Vec(u64, Rc<Ty>),
  Float(u16),
  Other,
}

impl Ty {
  pub fn align(&self) -> u64 {
    match self {
      Ty::Void | Ty::Other => 1,
      Ty::Int(w) | Ty::Float(w) => {
        let b = (((*w as u64) + 7) / 8).next_power_of_two();
        b.min(16)
      }
      Ty::Ptr => 8,
      Ty::Arr(_, t) => t.align(),
      Ty::Struct(f, packed) => {
        if *packed {
          1
        } else {
          f.iter().map(|t| t.align()).max().unwrap_or(1)
        }
      }
      Ty::Vec(n, t) => (n * t.store_size()).next_power_of_two().max(1),
    }
  }
  pub fn store_size(&self) -> u64 {
    match self {
      Ty::Int(w) | Ty::Float(w) => ((*w as u64) + 7) / 8,
      _ => self.size(),
    }
  }
  pub fn size(&self) -> u64 {
    match self {
      Ty::Void | Ty::Other => 0,
      Ty::Int(w) | Ty::Float(w) => {
        let s = ((*w as u64) + 7) / 8;
        let a = self.align();
        (s + a - 1) / a * a
      }
      Ty::Ptr => 8,
      Ty::Arr(n, t) => n * t.size(),
      Ty::Struct(f, packed) => {
        let mut o = 0;
        for t in f.iter() {
          if !packed {
            let a = t.align();
            o = (o + a - 1) / a * a;
          }
          o += t.size();
        }
        if !packed {
          let a = self.align();
          o = (o + a - 1) / a * a;
        }
        o
      }
      Ty::Vec(n, t) => n * t.store_size(),
    }
  }
  pub fn field_off(&self, i: usize) -> u64 {
    match self {
      Ty::Struct(f, packed) => {
        let mut o = 0;
        for (k, t) in f.iter().enumerate() {
          if !packed {
            let a = t.align();
            o = (o + a - 1) / a * a;
          }
          if k == i {
            return o;
          }
          o += t.size();
        }
        o
      }
      Ty::Arr(_, t) => t.size() * i as u64,
      Ty::Vec(_, t) => t.store_size() * i as u64,
      _ => 0,
    }
  }
  pub fn elem(&self, i: usize) -> Ty {
    match self {
      Ty::Struct(f, _) => f[i].clone(),
      Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
      _ => Ty::Other,
    }
  }
  pub fn count(&self) -> usize {
    match self {
      Ty::Struct(f, _) => f.len(),
      Ty::Arr(n, _) | Ty::Vec(n, _) => *n as usize,
      _ => 0,
    }
  }
  pub fn width(&self) -> u16 {
    match self {
      Ty::Int(w) | Ty::Float(w) => *w,
      Ty::Ptr => 64,
      _ => 0,
    }
  }
  /// Scalar leaves: (byte offset, bit width)
  pub fn flat(&self, base: u64, out: &mut Vec<(u32, u16)>) {
    match self {
      Ty::Void | Ty::Other => {}
      Ty::Int(_) | Ty::Ptr | Ty::Float(_) => out.push((base as u32, self.width())),
      _ => {
        for i in 0..self.count() {
          self.elem(i).flat(base + self.field_off(i), out);
        }
      }
    }
  }
  pub fn nflat(&self) -> usize {
    match self {
      Ty::Void | Ty::Other => 0,
      Ty::Int(_) | Ty::Ptr | Ty::Float(_) => 1,
      Ty::Struct(f, _) => f.iter().map(|t| t.nflat()).sum(),
      Ty::Arr(n, t) | Ty::Vec(n, t) => *n as usize * t.nflat(),
    }
  }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Opnd {
  R(u32),
  C(u128),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred {
  Eq,
  Ne,
  Ult,
  Ule,
  Ugt,
  Uge,
  Slt,
  Sle,
  Sgt,
  Sge,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cast {
  Trunc,
  ZExt,
  SExt,
  Copy,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Rmw {
  Xchg,
  Add,
  Sub,
  And,
  Or,
  Xor,
  Nand,
  UMax,
  UMin,
  Max,
  Min,
}

#[derive(Clone, Debug)]
pub enum Callee {
  Func(usize),
  Ptr(Opnd),
  Intr(Rc<str>),
}

#[derive(Clone, Debug)]
pub enum Inst {
  Bin { op: Op, w: u16, a: Opnd, b: Opnd, dst: u32 },
  Icmp { p: Pred, w: u16, a: Opnd, b: Opnd, dst: u32 },
  Cast { k: Cast, from: u16, to: u16, a: Opnd, dst: u32 },
  Load { p: Opnd, f: Box<[(u32, u16)]>, dst: u32 },
  Store { p: Opnd, f: Box<[(u32, u16)]>, v: Box<[Opnd]> },
  Alloca { size: u64, align: u64, count: Opnd, dst: u32 },
  Gep { base: Opnd, off: u64, idx: Box<[(Opnd, u16, u64)]>, dst: u32 },
  Call { c: Callee, args: Box<[Opnd]>, widths: Box<[u16]>, dst: u32, nret: u32, goto: u32 },
  Copy { src: Box<[Opnd]>, dst: u32 },
  Select { c: Opnd, a: Box<[Opnd]>, b: Box<[Opnd]>, w: Box<[u16]>, dst: u32 },
  Br(u32),
  CondBr(Opnd, u32, u32),
  Switch { v: Opnd, w: u16, cases: Box<[(u128, u32)]>, def: u32 },
  Ret(Box<[Opnd]>),
  Unreachable,
  AtomicRmw { op: Rmw, w: u16, p: Opnd, v: Opnd, dst: u32 },
  CmpXchg { w: u16, p: Opnd, c: Opnd, n: Opnd, dst: u32 },
  Lifetime { p: Opnd },
  Unsupported(Rc<str>),
}

#[derive(Debug, Default)]
pub struct Block {
  pub start: u32,
  pub phis: Vec<(u32, Box<[(u32, Opnd)]>)>,
}

#[derive(Debug)]
pub struct Func {
  pub name: Rc<str>,
  pub id: usize,
  pub nregs: u32,
  pub nparams: u32,
  pub blocks: Vec<Block>,
  pub code: Vec<Inst>,
}

pub struct GlobalDef {
  pub name: Rc<str>,
  pub size: u64,
  pub data: Vec<u8>,
  pub is_const: bool,
  pub tls: bool,
  pub external: bool,
}

pub struct FuncDef {
  pub name: Rc<str>,
  pub body: Option<(usize, usize)>, // byte range of "define ... }"
}

pub struct Module {
  pub text: Vec<u8>,
  pub funcs: Vec<FuncDef>,
  pub globals: Vec<GlobalDef>,
  pub fmap: HashMap<Rc<str>, usize>,
  pub gmap: HashMap<Rc<str>, usize>,
  pub types: HashMap<String, Ty>,
  pub parsed: Vec<Option<Rc<Func>>>,
}

pub const FUNC_BASE: u64 = 0x7F00_0000_0000_0000;
pub fn func_addr(i: usize) -> u64 {
  FUNC_BASE + ((i as u64) << 4)
}
/// Object `id` lives at address `id << 28`.
pub const OBJ_SHIFT: u32 = 28;
pub fn global_addr(i: usize) -> u64 {
  ((i as u64) + 1) << OBJ_SHIFT
}

struct Lex<'a> {
  s: &'a [u8],
  p: usize,
}

impl<'a> Lex<'a> {
  fn new(s: &'a [u8]) -> Lex<'a> {
    Lex { s, p: 0 }
  }
  fn ws(&mut self) {
    while self.p < self.s.len() && (self.s[self.p] as char).is_whitespace() {
      self.p += 1;
    }
  }
  fn peek(&mut self) -> u8 {
    self.ws();
    if self.p < self.s.len() {
      self.s[self.p]
    } else {
      0
    }
  }
  fn eat(&mut self, c: u8) -> bool {
    if self.peek() == c {
      self.p += 1;
      true
    } else {
      false
    }
  }
  fn eat_s(&mut self, w: &str) -> bool {
    self.ws();
    let b = w.as_bytes();
    if self.s[self.p..].starts_with(b) {
      let e = self.p + b.len();
      let last = b[b.len() - 1];
      if is_id(last) && e < self.s.len() && is_id(self.s[e]) {
        return false;
      }
      self.p = e;
      true
    } else {
      false
    }
  }
  fn ident(&mut self) -> &'a str {
    self.ws();
    let st = self.p;
    while self.p < self.s.len() && is_id(self.s[self.p]) {
      self.p += 1;
    }
    std::str::from_utf8(&self.s[st..self.p]).unwrap()
  }
  fn peek_ident(&mut self) -> &'a str {
    let sv = self.p;
    let r = self.ident();
    self.p = sv;
    r
  }
  /// name after % or @ (possibly quoted)
  fn name(&mut self) -> String {
    if self.p < self.s.len() && self.s[self.p] == b'"' {
      self.p += 1;
      let st = self.p;
      while self.s[self.p] != b'"' {
        self.p += 1;
      }
      let r = String::from_utf8_lossy(&self.s[st..self.p]).into_owned();
      self.p += 1;
      r
    } else {
      let st = self.p;
      while self.p < self.s.len()
        && (is_id(self.s[self.p]) || self.s[self.p] == b'-')
      {
        self.p += 1;
      }
      String::from_utf8_lossy(&self.s[st..self.p]).into_owned()
    }
  }
  fn skip_balanced(&mut self) {
    // at an opening bracket
    self.ws();
    let mut d = 0;
    while self.p < self.s.len() {
      match self.s[self.p] {
        b'(' | b'[' | b'{' | b'<' => d += 1,
        b')' | b']' | b'}' | b'>' => {
          d -= 1;
          if d == 0 {
            self.p += 1;
            return;
          }
        }
        b'"' => {
          self.p += 1;
          while self.s[self.p] != b'"' {
            self.p += 1;
          }
        }
        _ => {}
      }
      self.p += 1;
    }
  }
  fn number(&mut self) -> i128 {
    self.ws();
    let st = self.p;
    if self.p < self.s.len() && self.s[self.p] == b'-' {
      self.p += 1;
    }
    while self.p < self.s.len() && self.s[self.p].is_ascii_digit() {
      self.p += 1;
    }
    let t = std::str::from_utf8(&self.s[st..self.p]).unwrap();
    t.parse::<i128>()
      .unwrap_or_else(|_| t.parse::<u128>().map(|x| x as i128).unwrap_or(0))
  }
  fn rest(&self) -> String {
    String::from_utf8_lossy(&self.s[self.p..(self.p + 120).min(self.s.len())])
      .into_owned()
  }
}

fn is_id(c: u8) -> bool {
  c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$'
}

fn is_type_word(w: &str) -> bool {
  matches!(
    w,
    "void" | "ptr" | "label" | "metadata" | "half" | "float" | "double" | "opaque" | "fp128" | "x86_fp80" | "token"
  ) || (w.len() > 1
    && w.as_bytes()[0] == b'i'
    && w[1..].bytes().all(|c| c.is_ascii_digit()))
}

type PR<T> = Result<T, String>;

impl Module {
  pub fn load(text: Vec<u8>) -> Module {
    let mut m = Module {
      text,
      funcs: vec![],
      globals: vec![],
      fmap: HashMap::new(),
      gmap: HashMap::new(),
      types: HashMap::new(),
      parsed: vec![],
    };
    let mut pos = 0;
    let n = m.text.len();
    let mut glines: Vec<(usize, usize)> = vec![];
    let mut aliases: Vec<(String, usize, usize)> = vec![];
    while pos < n {
      let e = m.text[pos..].iter().position(|&c| c == b'\n').map(|x| pos + x).unwrap_or(n);
      let line = &m.text[pos..e];
      if line.starts_with(b"define ") {
        let mut q = e;
        loop {
          // body ends with a line that is exactly "}"
          let nl = m.text[q + 1..].iter().position(|&c| c == b'\n').map(|x| q + 1 + x).unwrap_or(n);
          if &m.text[q + 1..nl] == b"}" {
            q = nl;
            break;
          }
          q = nl;
        }
        let name: Rc<str> = fn_name(line).into();
        m.fmap.insert(name.clone(), m.funcs.len());
        m.funcs.push(FuncDef { name, body: Some((pos, q)) });
        pos = q + 1;
        continue;
      } else if line.starts_with(b"declare ") {
        let name: Rc<str> = fn_name(line).into();
        m.fmap.insert(name.clone(), m.funcs.len());
        m.funcs.push(FuncDef { name, body: None });
      } else if line.starts_with(b"@") {
        let mut lx = Lex::new(line);
        lx.p = 1;
        let nm = lx.name();
        let l = String::from_utf8_lossy(line);
        if l.contains("= alias ") || l.contains(" alias ") && !l.contains(" global ") && !l.contains(" constant ") {
          aliases.push((nm, pos, e));
        } else {
          glines.push((pos, e));
          let name: Rc<str> = nm.into();
          m.gmap.insert(name.clone(), m.globals.len());
          m.globals.push(GlobalDef {
            name,
            size: 0,
            data: vec![],
            is_const: false,
            tls: false,
            external: false,
          });
        }
      } else if line.starts_with(b"%") && line.windows(8).any(|w| w == b" = type ") {
        let mut lx = Lex::new(line);
        lx.p = 1;
        let nm = lx.name();
        lx.eat(b'=');
        lx.eat_s("type");
        let t = { m.ty(&mut lx) }.unwrap_or(Ty::Other);
        m.types.insert(nm, t);
      }
      pos = e + 1;
    }
    for (nm, a, b) in aliases {
      // @x = ... alias ty, ptr @target
      let l = String::from_utf8_lossy(&m.text[a..b]).into_owned();
      if let Some(i) = l.rfind('@') {
        let mut lx = Lex::new(l.as_bytes());
        lx.p = i + 1;
        let t = lx.name();
        if let Some(&f) = m.fmap.get(t.as_str()) {
          m.fmap.insert(nm.into(), f);
        }
      }
    }
    m.parsed = (0..m.funcs.len()).map(|_| None).collect();
    let text = std::mem::take(&mut m.text);
    for (i, (a, b)) in glines.iter().enumerate() {
      if let Err(e) = m.parse_global(i, &text[*a..*b]) {
        // left as an external object of size 0: any access is reported
        if std::env::var("LSYM_DEBUG").is_ok() {
          eprintln!("global {}: {}", m.globals[i].name, e);
        }
      }
    }
    m.text = text;
    m
  }

  fn parse_global(&mut self, i: usize, line: &[u8]) -> PR<()> {
    let mut lx = Lex::new(line);
    lx.p = 1;
    lx.name();
    lx.eat(b'=');
    let mut external = false;
    let mut tls = false;
    let is_const;
    loop {
      let w = lx.ident();
      match w {
        "global" => {
          is_const = false;
          break;
        }
        "constant" => {
          is_const = true;
          break;
        }
        "external" | "extern_weak" => external = true,
        "thread_local" => {
          tls = true;
          if lx.peek() == b'(' {
            lx.skip_balanced();
          }
        }
        "" => return Err(format!("global? {}", lx.rest())),
        _ => {
          if lx.peek() == b'(' {
            lx.skip_balanced();
          }
        }
      }
    }
    let t = self.ty(&mut lx)?;
    let g = &mut self.globals[i];
    g.is_const = is_const;
    g.tls = tls;
    g.external = external;
    g.size = t.size();
    if external {
      g.data = vec![0; t.size() as usize];
      return Ok(());
    }
    let mut data = vec![0u8; t.size() as usize];
    self.init(&mut lx, &t, &mut data, 0)?;
    self.globals[i].data = data;
    Ok(())
  }

  fn init(&self, lx: &mut Lex, t: &Ty, data: &mut [u8], off: usize) -> PR<()> {
    match t {
      Ty::Int(_) | Ty::Ptr | Ty::Float(_) => {
        let v = self.const_scalar(lx, t)?;
        let n = t.store_size() as usize;
        for k in 0..n {
          data[off + k] = (v >> (8 * k)) as u8;
        }
        Ok(())
      }
      _ => {
        if lx.eat_s("zeroinitializer") || lx.eat_s("undef") || lx.eat_s("poison") {
          return Ok(());
        }
        if lx.peek() == b'c' {
          lx.p += 1;
          if !lx.eat(b'"') {
            return Err("c-string".into());
          }
          let mut o = off;
          while lx.s[lx.p] != b'"' {
            let c = lx.s[lx.p];
            if c == b'\\' {
              if lx.s[lx.p + 1] == b'\\' {
                data[o] = b'\\';
                lx.p += 2;
              } else {
                let h = std::str::from_utf8(&lx.s[lx.p + 1..lx.p + 3]).unwrap();
                data[o] = u8::from_str_radix(h, 16).map_err(|e| e.to_string())?;
                lx.p += 3;
              }
            } else {
              data[o] = c;
              lx.p += 1;
            }
            o += 1;
          }
          lx.p += 1;
          return Ok(());
        }
        // bracketed list
        let packed = lx.eat(b'<');
        if !(lx.eat(b'{') || lx.eat(b'[')) && !packed {
          return Err(format!("init: {}", lx.rest()));
        }
        for i in 0..t.count() {
          if i > 0 {
            lx.eat(b',');
          }
          let et = self.ty(lx)?;
          self.init(lx, &et, data, off + t.field_off(i) as usize)?;
        }
        let _ = lx.eat(b'}') || lx.eat(b']');
        if packed {
          lx.eat(b'>');
        }
        Ok(())
      }
    }
  }

  fn ty(&self, lx: &mut Lex) -> PR<Ty> {
    let c = lx.peek();
    let t = match c {
      b'[' => {
        lx.p += 1;
        let n = lx.number() as u64;
        if !lx.eat_s("x") {
          return Err("array type".into());
        }
        let e = self.ty(lx)?;
        lx.eat(b']');
        Ty::Arr(n, Rc::new(e))
      }
      b'{' => {
        lx.p += 1;
        let mut f = vec![];
        while !lx.eat(b'}') {
          f.push(self.ty(lx)?);
          lx.eat(b',');
        }
        Ty::Struct(Rc::new(f), false)
      }
      b'<' => {
        lx.p += 1;
        if lx.peek() == b'{' {
          lx.p += 1;
          let mut f = vec![];
          while !lx.eat(b'}') {
            f.push(self.ty(lx)?);
            lx.eat(b',');
          }
          lx.eat(b'>');
          Ty::Struct(Rc::new(f), true)
        } else {
          let n = lx.number() as u64;
          if !lx.eat_s("x") {
            return Err("vector type".into());
          }
          let e = self.ty(lx)?;
          lx.eat(b'>');
          Ty::Vec(n, Rc::new(e))
        }
      }
      b'%' => {
        lx.p += 1;
        let n = lx.name();
        self.types.get(&n).cloned().ok_or(format!("type %{}", n))?
      }
      _ => {
        let w = lx.ident();
        match w {
          "void" => Ty::Void,
          "ptr" => {
            if lx.eat_s("addrspace") {
              lx.skip_balanced();
            }
            Ty::Ptr
          }
          "label" | "metadata" | "token" | "opaque" => Ty::Other,
          "half" => Ty::Float(16),
          "float" => Ty::Float(32),
          "double" => Ty::Float(64),
          "fp128" => Ty::Float(128),
          "x86_fp80" => Ty::Float(80),
          _ if w.starts_with('i') && w.len() > 1 => {
            Ty::Int(w[1..].parse().map_err(|_| format!("type {}", w))?)
          }
          _ => return Err(format!("type '{}' at {}", w, lx.rest())),
        }
      }
    };
    Ok(t)
  }

  /// Constant scalar of type t
  fn const_scalar(&self, lx: &mut Lex, t: &Ty) -> PR<u128> {
    let m = mask(t.width().max(1));
    let c = lx.peek();
    if c == b'@' {
      lx.p += 1;
      let n = lx.name();
      return self.sym_addr(&n).map(|x| x as u128);
    }
    if c == b'-' || c.is_ascii_digit() {
      if let Ty::Float(w) = t {
        // decimal or hex float
        let st = lx.p;
        while lx.p < lx.s.len()
          && (is_id(lx.s[lx.p]) || lx.s[lx.p] == b'-' || lx.s[lx.p] == b'+')
        {
          lx.p += 1;
        }
        let tx = std::str::from_utf8(&lx.s[st..lx.p]).unwrap();
        if let Some(h) = tx.strip_prefix("0x") {
          let v = u64::from_str_radix(h, 16).map_err(|e| e.to_string())?;
          return Ok(if *w == 32 {
            (f64::from_bits(v) as f32).to_bits() as u128
          } else {
            v as u128
          });
        }
        let v: f64 = tx.parse().map_err(|_| "float".to_string())?;
        return Ok(if *w == 32 {
          (v as f32).to_bits() as u128
        } else {
          v.to_bits() as u128
        });
      }
      return Ok(lx.number() as u128 & m);
    }
    let w = lx.ident();
    match w {
      "true" => Ok(1),
      "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" => Ok(0),
      "getelementptr" => {
        while lx.peek() != b'(' {
          let x = lx.ident();
          if x.is_empty() {
            return Err("gep const".into());
          }
          if x == "inrange" {
            lx.skip_balanced();
            // inrange(-16, 8) consumed
          }
        }
        lx.eat(b'(');
        let st = self.ty(lx)?;
        lx.eat(b',');
        let pt = self.ty(lx)?;
        let base = self.const_scalar(lx, &pt)?;
        let mut cur = st;
        let mut off: i128 = 0;
        let mut first = true;
        while lx.eat(b',') {
          let it = self.ty(lx)?;
          let v = self.const_scalar(lx, &it)?;
          let iv = sext(v, it.width());
          if first {
            off += iv * cur.size() as i128;
            first = false;
          } else {
            off += cur.field_off(iv as usize) as i128;
            cur = cur.elem(iv as usize);
          }
        }
        lx.eat(b')');
        Ok((base as i128 + off) as u128 & mask(64))
      }
      "ptrtoint" | "inttoptr" | "bitcast" | "addrspacecast" | "trunc" | "zext" | "sext" => {
        lx.eat(b'(');
        let st = self.ty(lx)?;
        let v = self.const_scalar(lx, &st)?;
        lx.eat_s("to");
        let tt = self.ty(lx)?;
        lx.eat(b')');
        Ok(match w {
          "sext" => sext(v, st.width()) as u128 & mask(tt.width()),
          _ => v & mask(tt.width()),
        })
      }
      "add" | "sub" | "xor" | "mul" | "and" | "or" | "shl" | "lshr" => {
        while lx.peek() != b'(' {
          lx.ident();
        }
        lx.eat(b'(');
        let t1 = self.ty(lx)?;
        let a = self.const_scalar(lx, &t1)?;
        lx.eat(b',');
        let t2 = self.ty(lx)?;
        let b = self.const_scalar(lx, &t2)?;
        lx.eat(b')');
        Ok(eval_bin(binop(w).unwrap(), t1.width(), a, b))
      }
      _ => Err(format!("const '{}' {}", w, lx.rest())),
    }
  }

  pub fn sym_addr(&self, n: &str) -> PR<u64> {
    if let Some(&i) = self.gmap.get(n) {
      return Ok(global_addr(i));
    }
    if let Some(&i) = self.fmap.get(n) {
      return Ok(func_addr(i));
    }
    Err(format!("unknown symbol @{}", n))
  }

  pub fn func(&mut self, i: usize) -> Result<Rc<Func>, String> {
    if let Some(f) = &self.parsed[i] {
      return Ok(f.clone());
    }
    let (a, b) = self.funcs[i]
      .body
      .ok_or_else(|| format!("call of external function {}", self.funcs[i].name))?;
    let text = std::mem::take(&mut self.text);
    let r = FnParser::new(self, i).parse(&text[a..b]);
    self.text = text;
    let f = Rc::new(r.map_err(|e| format!("parse {}: {}", self.funcs[i].name, e))?);
    self.parsed[i] = Some(f.clone());
    Ok(f)
  }
}

fn fn_name(line: &[u8]) -> String {
  // first '@' outside parentheses of attributes is the function name
  let mut lx = Lex::new(line);
  let mut d = 0i32;
  while lx.p < line.len() {
    match line[lx.p] {
      b'(' => d += 1,
      b')' => d -= 1,
      b'"' => {
        lx.p += 1;
        while line[lx.p] != b'"' {
          lx.p += 1;
        }
      }
      b'@' if d == 0 => {
        lx.p += 1;
        return lx.name();
      }
      _ => {}
    }
    lx.p += 1;
  }
  String::new()
}

fn binop(w: &str) -> Option<Op> {
  Some(match w {
    "add" => Op::Add,
    "sub" => Op::Sub,
    "mul" => Op::Mul,
    "udiv" => Op::UDiv,
    "urem" => Op::URem,
    "sdiv" => Op::SDiv,
    "srem" => Op::SRem,
    "shl" => Op::Shl,
    "lshr" => Op::LShr,
    "ashr" => Op::AShr,
    "and" => Op::And,
    "or" => Op::Or,
    "xor" => Op::Xor,
    _ => return None,
  })
}

struct FnParser<'m> {
  m: &'m Module,
  id: usize,
  regs: HashMap<String, (u32, Ty)>,
  // forward references get slots when their definition is parsed; operands that
  // are used before definition (phis, loops) are patched in a second pass.
  nregs: u32,
  labels: HashMap<String, u32>,
  blocks: Vec<Block>,
  code: Vec<Inst>,
}

impl<'m> FnParser<'m> {
  fn new(m: &'m Module, id: usize) -> FnParser<'m> {
    FnParser {
      m,
      id,
      regs: HashMap::new(),
      nregs: 0,
      labels: HashMap::new(),
      blocks: vec![],
      code: vec![],
    }
  }
  fn ty(&self, lx: &mut Lex) -> PR<Ty> {
    self.m.ty(lx)
  }
  fn def(&mut self, n: &str, t: &Ty) -> u32 {
    if let Some((s, _)) = self.regs.get(n) {
      return *s;
    }
    let s = self.nregs;
    self.nregs += t.nflat().max(1) as u32;
    self.regs.insert(n.to_string(), (s, t.clone()));
    s
  }
  fn attrs(&self, lx: &mut Lex) {
    loop {
      let c = lx.peek();
      if c == b'"' {
        // string attribute
        lx.p += 1;
        while lx.s[lx.p] != b'"' {
          lx.p += 1;
        }
        lx.p += 1;
        if lx.eat(b'=') {
          lx.ws();
          lx.p += 1;
          while lx.s[lx.p] != b'"' {
            lx.p += 1;
          }
          lx.p += 1;
        }
        continue;
      }
      if c == b'#' {
        lx.p += 1;
        lx.ident();
        continue;
      }
      let w = lx.peek_ident();
      if w.is_empty() || is_type_word(w) || !w.as_bytes()[0].is_ascii_alphabetic() {
        return;
      }
      if matches!(
        w,
        "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer"
          | "getelementptr" | "ptrtoint" | "inttoptr" | "splat" | "none" | "asm"
          | "add" | "sub" | "xor" | "trunc"
      ) {
        return;
      }
      lx.ident();
      if w == "align" && lx.peek() != b'(' {
        lx.number();
      } else if lx.p < lx.s.len() && lx.s[lx.p] == b'(' {
        lx.skip_balanced();
      }
    }
  }
  /// operand of type t, flattened
  fn val(&self, lx: &mut Lex, t: &Ty) -> PR<Vec<Opnd>> {
    let c = lx.peek();
    if c == b'%' {
      lx.p += 1;
      let n = lx.name();
      let (s, _) = self
        .regs
        .get(&n)
        .ok_or_else(|| format!("undefined register %{}", n))?;
      let k = t.nflat().max(1);
      return Ok((0..k as u32).map(|i| Opnd::R(s + i)).collect());
    }
    match t {
      Ty::Int(_) | Ty::Ptr | Ty::Float(_) => {
        Ok(vec![Opnd::C(self.m.const_scalar(lx, t)?)])
      }
      Ty::Void | Ty::Other => {
        // metadata etc.
        lx.ident();
        Ok(vec![])
      }
      _ => {
        if lx.eat_s("zeroinitializer") || lx.eat_s("undef") || lx.eat_s("poison") {
          return Ok(vec![Opnd::C(0); t.nflat()]);
        }
        if lx.eat_s("splat") {
          lx.eat(b'(');
          let et = self.ty(lx)?;
          let v = self.val(lx, &et)?;
          lx.eat(b')');
          let mut r = vec![];
          for _ in 0..t.count() {
            r.extend(v.iter().copied());
          }
          return Ok(r);
        }
        let mut data = vec![0u8; t.size() as usize];
        let sv = lx.p;
        if lx.peek() == b'c' {
          self.m.init(lx, t, &mut data, 0)?;
          let mut f = vec![];
          t.flat(0, &mut f);
          return Ok(
            f.iter()
              .map(|(o, w)| {
                let n = (*w as usize + 7) / 8;
                let mut v = 0u128;
                for k in 0..n {
                  v |= (data[*o as usize + k] as u128) << (8 * k);
                }
                Opnd::C(v)
              })
              .collect(),
          );
        }
        lx.p = sv;
        let packed = lx.eat(b'<');
        if !(lx.eat(b'{') || lx.eat(b'[')) && !packed {
          return Err(format!("aggregate const {}", lx.rest()));
        }
        let mut r = vec![];
        for i in 0..t.count() {
          if i > 0 {
            lx.eat(b',');
          }
          let et = self.ty(lx)?;
          r.extend(self.val(lx, &et)?);
        }
        let _ = lx.eat(b'}') || lx.eat(b']');
        if packed {
          lx.eat(b'>');
        }
        Ok(r)
      }
    }
  }
  fn val1(&self, lx: &mut Lex, t: &Ty) -> PR<Opnd> {
    self.val(lx, t)?.first().copied().ok_or("empty operand".into())
  }
  fn label(&mut self, lx: &mut Lex) -> PR<u32> {
    lx.eat_s("label");
    if !lx.eat(b'%') {
      return Err(format!("label {}", lx.rest()));
    }
    let n = lx.name();
    self.labels.get(&n).copied().ok_or(format!("label %{}", n))
  }

  fn parse(mut self, text: &[u8]) -> PR<Func> {
    // ---- header
    let hl = text.iter().position(|&c| c == b'\n').unwrap();
    let header = &text[..hl];
    let mut lx = Lex::new(header);
    // find "@name(" at depth 0
    let mut d = 0i32;
    while lx.p < header.len() {
      match header[lx.p] {
        b'(' => d += 1,
        b')' => d -= 1,
        b'@' if d == 0 => break,
        _ => {}
      }
      lx.p += 1;
    }
    lx.p += 1;
    lx.name();
    lx.eat(b'(');
    let mut argno = 0;
    while !lx.eat(b')') {
      if lx.eat_s("...") {
        continue;
      }
      let t = self.ty(&mut lx)?;
      self.attrs(&mut lx);
      let n = if lx.eat(b'%') { lx.name() } else { format!("{}", argno) };
      argno += 1;
      let _ = self.def(&n, &t);
      lx.eat(b',');
    }
    let nparams = self.nregs;
    // ---- logical lines
    let body = &text[hl + 1..];
    let mut lines: Vec<(bool, Vec<u8>)> = vec![]; // (is_label, text)
    {
      let mut in_switch = false;
      for l in body.split(|&c| c == b'\n') {
        if l.is_empty() || l == b"}" {
          continue;
        }
        // strip trailing comment (labels carry "; preds")
        if l[0] != b' ' {
          let mut lx = Lex::new(l);
          if l[0] == b';' {
            continue;
          }
          let n = lx.name();
          lines.push((true, n.into_bytes()));
          continue;
        }
        let tr = trim(l);
        if tr.starts_with(b";") || tr.starts_with(b"#dbg") {
          continue;
        }
        if in_switch {
          let last = lines.last_mut().unwrap();
          last.1.push(b' ');
          last.1.extend_from_slice(tr);
          if tr.starts_with(b"]") {
            in_switch = false;
          }
          continue;
        }
        if tr.starts_with(b"to label") || tr.starts_with(b"cleanup") || tr.starts_with(b"catch ") || tr.starts_with(b"filter ") {
          let last = lines.last_mut().unwrap();
          last.1.push(b' ');
          last.1.extend_from_slice(tr);
          continue;
        }
        if tr.starts_with(b"switch ") && !tr.contains(&b']') {
          in_switch = true;
        }
        lines.push((false, tr.to_vec()));
      }
    }
    if lines.is_empty() || !lines[0].0 {
      // implicit entry label = number of unnamed params
      let mut k = 0u32;
      while self.regs.contains_key(&k.to_string()) {
        k += 1;
      }
      lines.insert(0, (true, k.to_string().into_bytes()));
    }
    for (is, t) in &lines {
      if *is {
        let n = String::from_utf8_lossy(t).into_owned();
        let i = self.labels.len() as u32;
        self.labels.insert(n, i);
        self.blocks.push(Block::default());
      }
    }
    // ---- pass 1: result types -> registers
    for (is, t) in &lines {
      if *is {
        continue;
      }
      if t[0] == b'%' {
        let mut lx = Lex::new(t);
        lx.p = 1;
        let n = lx.name();
        lx.eat(b'=');
        let ty = self.result_type(&mut lx).map_err(|e| {
          format!("{} in: {}", e, String::from_utf8_lossy(t))
        })?;
        self.def(&n, &ty);
      }
    }
    // ---- pass 2
    let mut cur = 0usize;
    let mut first = true;
    let mut phis: Vec<(u32, Vec<(u32, Vec<Opnd>)>)> = vec![];
    for (is, t) in &lines {
      if *is {
        if !first {
          self.flush_phis(cur, &mut phis);
          cur += 1;
        }
        first = false;
        self.blocks[cur].start = self.code.len() as u32;
        continue;
      }
      let r = self.inst(t, &mut phis);
      if let Err(e) = r {
        let s = format!("{}: {}", e, String::from_utf8_lossy(&t[..t.len().min(200)]));
        self.code.push(Inst::Unsupported(s.into()));
      }
    }
    self.flush_phis(cur, &mut phis);
    Ok(Func {
      name: self.m.funcs[self.id].name.clone(),
      id: self.id,
      nregs: self.nregs,
      nparams,
      blocks: self.blocks,
      code: self.code,
    })
  }

  fn flush_phis(&mut self, cur: usize, phis: &mut Vec<(u32, Vec<(u32, Vec<Opnd>)>)>) {
    if phis.is_empty() {
      return;
    }
    let mut by: HashMap<u32, Vec<(u32, Opnd)>> = HashMap::new();
    let mut order = vec![];
    for (dst, inc) in phis.drain(..) {
      for (blk, v) in inc {
        if !by.contains_key(&blk) {
          order.push(blk);
        }
        let e = by.entry(blk).or_default();
        for (i, o) in v.iter().enumerate() {
          if !e.iter().any(|(d, _)| *d == dst + i as u32) {
            e.push((dst + i as u32, *o));
          }
        }
      }
    }
    for b in order {
      let v = by.remove(&b).unwrap();
      self.blocks[cur].phis.push((b, v.into_boxed_slice()));
    }
  }

  fn skip_call_prefix(&self, lx: &mut Lex) {
    let _ = lx.eat_s("tail") || lx.eat_s("musttail") || lx.eat_s("notail");
  }

  fn result_type(&self, lx: &mut Lex) -> PR<Ty> {
    self.skip_call_prefix(lx);
    let op = lx.ident();
    match op {
      "icmp" | "fcmp" => {
        let mut w = lx.ident();
        while matches!(w, "samesign" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") {
          w = lx.ident();
        }
        let t = self.ty(lx)?;
        Ok(match t {
          Ty::Vec(n, _) => Ty::Vec(n, Rc::new(Ty::Int(1))),
          _ => Ty::Int(1),
        })
      }
      "load" => {
        let _ = lx.eat_s("atomic");
        let _ = lx.eat_s("volatile");
        self.ty(lx)
      }
      "alloca" | "getelementptr" => {
        // vector GEPs are not produced
        Ok(Ty::Ptr)
      }
      "trunc" | "zext" | "sext" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast" | "uitofp" | "sitofp"
      | "fptoui" | "fptosi" | "fpext" | "fptrunc" | "addrspacecast" => {
        // <flags> ty val to ty
        while matches!(lx.peek_ident(), "nuw" | "nsw" | "nneg") {
          lx.ident();
        }
        // find last " to "
        let s = &lx.s[lx.p..];
        let k = rfind(s, b" to ").ok_or("cast")?;
        lx.p += k + 4;
        self.ty(lx)
      }
      "phi" | "freeze" => {
        while matches!(lx.peek_ident(), "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") {
          lx.ident();
        }
        self.ty(lx)
      }
      "select" => {
        let ct = self.ty(lx)?;
        self.val(lx, &ct).ok();
        // skip condition operand textually: up to ','
        let s = &lx.s[lx.p..];
        let k = s.iter().position(|&c| c == b',').ok_or("select")?;
        lx.p += k + 1;
        self.ty(lx)
      }
      "call" | "invoke" => {
        self.attrs(lx);
        self.ty(lx)
      }
      "landingpad" => self.ty(lx),
      "extractvalue" => {
        let t = self.ty(lx)?;
        // skip operand
        let s = &lx.s[lx.p..];
        let k = s.iter().rposition(|&c| c == b',');
        // indices: parse from after the operand; operand is %name or constant
        lx.ws();
        if lx.peek() == b'%' {
          lx.p += 1;
          lx.name();
        } else if let Some(k) = k {
          lx.p += k;
        }
        let mut cur = t;
        while lx.eat(b',') {
          if lx.peek() == b'!' {
            break;
          }
          let i = lx.number() as usize;
          cur = cur.elem(i);
        }
        Ok(cur)
      }
      "insertvalue" => self.ty(lx),
      "extractelement" => Ok(self.ty(lx)?.elem(0)),
      "insertelement" => self.ty(lx),
      "shufflevector" => {
        // <n x T> a, <n x T> b, <m x i32> mask
        let t = self.ty(lx)?;
        let s = &lx.s[lx.p..];
        let k = rfind(s, b", <").ok_or("shuffle")?;
        lx.p += k + 2;
        let mt = self.ty(lx)?;
        Ok(Ty::Vec(mt.count() as u64, Rc::new(t.elem(0))))
      }
      "atomicrmw" => {
        let _ = lx.eat_s("volatile");
        lx.ident();
        let pt = self.ty(lx)?;
        let _ = pt;
        let s = &lx.s[lx.p..];
        let k = s.iter().position(|&c| c == b',').ok_or("rmw")?;
        lx.p += k + 1;
        self.ty(lx)
      }
      "cmpxchg" => {
        let _ = lx.eat_s("weak");
        let _ = lx.eat_s("volatile");
        let _ = self.ty(lx)?;
        let s = &lx.s[lx.p..];
        let k = s.iter().position(|&c| c == b',').ok_or("cmpxchg")?;
        lx.p += k + 1;
        let t = self.ty(lx)?;
        Ok(Ty::Struct(Rc::new(vec![t, Ty::Int(1)]), false))
      }
      _ => {
        // binary operators, fneg
        while matches!(
          lx.peek_ident(),
          "nuw" | "nsw" | "exact" | "disjoint" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc"
        ) {
          lx.ident();
        }
        self.ty(lx)
      }
    }
  }

  fn inst(&mut self, t: &[u8], phis: &mut Vec<(u32, Vec<(u32, Vec<Opnd>)>)>) -> PR<()> {
    let mut lx = Lex::new(t);
    let lx = &mut lx;
    let mut dst = 0u32;
    let mut dty = Ty::Void;
    if lx.peek() == b'%' {
      lx.p += 1;
      let n = lx.name();
      let (s, ty) = self.regs[&n].clone();
      dst = s;
      dty = ty;
      lx.eat(b'=');
    }
    self.skip_call_prefix(lx);
    let op = lx.ident().to_string();
    match op.as_str() {
      "ret" => {
        let t = self.ty(lx)?;
        let v = if t == Ty::Void { vec![] } else { self.val(lx, &t)? };
        self.code.push(Inst::Ret(v.into()));
      }
      "br" => {
        if lx.peek_ident() == "label" {
          let l = self.label(lx)?;
          self.code.push(Inst::Br(l));
        } else {
          let t = self.ty(lx)?;
          let c = self.val1(lx, &t)?;
          lx.eat(b',');
          let a = self.label(lx)?;
          lx.eat(b',');
          let b = self.label(lx)?;
          self.code.push(Inst::CondBr(c, a, b));
        }
      }
      "switch" => {
        let t = self.ty(lx)?;
        let v = self.val1(lx, &t)?;
        lx.eat(b',');
        let def = self.label(lx)?;
        lx.eat(b'[');
        let mut cases = vec![];
        while !lx.eat(b']') {
          let ct = self.ty(lx)?;
          let c = self.m.const_scalar(lx, &ct)?;
          lx.eat(b',');
          let l = self.label(lx)?;
          cases.push((c, l));
        }
        self.code.push(Inst::Switch { v, w: t.width(), cases: cases.into(), def });
      }
      "unreachable" => self.code.push(Inst::Unreachable),
      "resume" => self.code.push(Inst::Unsupported("resume".into())),
      "landingpad" => self.code.push(Inst::Unsupported("landingpad".into())),
      "fence" => {}
      "icmp" => {
        let mut w = lx.ident();
        if w == "samesign" {
          w = lx.ident();
        }
        let p = match w {
          "eq" => Pred::Eq,
          "ne" => Pred::Ne,
          "ult" => Pred::Ult,
          "ule" => Pred::Ule,
          "ugt" => Pred::Ugt,
          "uge" => Pred::Uge,
          "slt" => Pred::Slt,
          "sle" => Pred::Sle,
          "sgt" => Pred::Sgt,
          "sge" => Pred::Sge,
          _ => return Err(format!("icmp {}", w)),
        };
        let t = self.ty(lx)?;
        let a = self.val(lx, &t)?;
        lx.eat(b',');
        let b = self.val(lx, &t)?;
        let w = match &t {
          Ty::Vec(_, e) => e.width(),
          _ => t.width(),
        };
        for i in 0..a.len() {
          self.code.push(Inst::Icmp { p, w, a: a[i], b: b[i], dst: dst + i as u32 });
        }
      }
      "load" => {
        let _ = lx.eat_s("atomic");
        let _ = lx.eat_s("volatile");
        let t = self.ty(lx)?;
        lx.eat(b',');
        let pt = self.ty(lx)?;
        let p = self.val1(lx, &pt)?;
        let mut f = vec![];
        t.flat(0, &mut f);
        self.code.push(Inst::Load { p, f: f.into(), dst });
      }
      "store" => {
        let _ = lx.eat_s("atomic");
        let _ = lx.eat_s("volatile");
        let t = self.ty(lx)?;
        let v = self.val(lx, &t)?;
        lx.eat(b',');
        let pt = self.ty(lx)?;
        let p = self.val1(lx, &pt)?;
        let mut f = vec![];
        t.flat(0, &mut f);
        self.code.push(Inst::Store { p, f: f.into(), v: v.into() });
      }
      "alloca" => {
        let t = self.ty(lx)?;
        let mut count = Opnd::C(1);
        let mut align = t.align();
        while lx.eat(b',') {
          if lx.eat_s("align") {
            align = lx.number() as u64;
          } else {
            let ct = self.ty(lx)?;
            count = self.val1(lx, &ct)?;
          }
        }
        self.code.push(Inst::Alloca { size: t.size(), align, count, dst });
      }
      "getelementptr" => {
        while matches!(lx.peek_ident(), "inbounds" | "nuw" | "nusw") {
          lx.ident();
        }
        let st = self.ty(lx)?;
        lx.eat(b',');
        let pt = self.ty(lx)?;
        let base = self.val1(lx, &pt)?;
        let mut off: i128 = 0;
        let mut idx = vec![];
        let mut cur = st;
        let mut first = true;
        while lx.eat(b',') {
          if lx.peek() == b'!' {
            break;
          }
          let it = self.ty(lx)?;
          let v = self.val1(lx, &it)?;
          let scale = if first { cur.size() } else { 0 };
          match v {
            Opnd::C(c) => {
              let iv = sext(c, it.width());
              if first {
                off += iv * scale as i128;
              } else {
                off += cur.field_off(iv as usize) as i128;
              }
              if !first {
                cur = cur.elem(iv as usize);
              }
            }
            Opnd::R(_) => {
              if first {
                idx.push((v, it.width(), scale));
              } else {
                let e = cur.elem(0);
                idx.push((v, it.width(), e.size()));
                cur = e;
              }
            }
          }
          first = false;
        }
        self.code.push(Inst::Gep { base, off: off as u64, idx: idx.into(), dst });
      }
      "phi" => {
        let t = self.ty(lx)?;
        let mut inc = vec![];
        loop {
          if !lx.eat(b'[') {
            break;
          }
          let v = self.val(lx, &t)?;
          lx.eat(b',');
          let l = self.label(lx)?;
          lx.eat(b']');
          inc.push((l, v));
          if !lx.eat(b',') || lx.peek() == b'!' {
            break;
          }
        }
        phis.push((dst, inc));
      }
      "select" => {
        let ct = self.ty(lx)?;
        let c = self.val(lx, &ct)?;
        lx.eat(b',');
        let t = self.ty(lx)?;
        let a = self.val(lx, &t)?;
        lx.eat(b',');
        let t2 = self.ty(lx)?;
        let b = self.val(lx, &t2)?;
        let mut f = vec![];
        t.flat(0, &mut f);
        let w: Vec<u16> = f.iter().map(|x| x.1).collect();
        if c.len() > 1 {
          for i in 0..c.len() {
            self.code.push(Inst::Select {
              c: c[i],
              a: vec![a[i]].into(),
              b: vec![b[i]].into(),
              w: vec![w[i]].into(),
              dst: dst + i as u32,
            });
          }
        } else {
          self.code.push(Inst::Select { c: c[0], a: a.into(), b: b.into(), w: w.into(), dst });
        }
      }
      "freeze" => {
        let t = self.ty(lx)?;
        let v = self.val(lx, &t)?;
        self.code.push(Inst::Copy { src: v.into(), dst });
      }
      "trunc" | "zext" | "sext" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast" => {
        while matches!(lx.peek_ident(), "nuw" | "nsw" | "nneg") {
          lx.ident();
        }
        let t = self.ty(lx)?;
        let v = self.val(lx, &t)?;
        lx.eat_s("to");
        let tt = self.ty(lx)?;
        if op == "bitcast" {
          let mut fa = vec![];
          t.flat(0, &mut fa);
          let mut fb = vec![];
          tt.flat(0, &mut fb);
          if fa.len() == fb.len() && fa.iter().zip(&fb).all(|(x, y)| x.1 == y.1) {
            self.code.push(Inst::Copy { src: v.into(), dst });
          } else if fb.len() == 1 {
            // vector -> integer: build with shifts
            let w = fb[0].1;
            let mut acc: Option<u32> = None;
            let ew = fa[0].1;
            for (i, o) in v.iter().enumerate() {
              let z = self.tmp();
              self.code.push(Inst::Cast { k: Cast::ZExt, from: ew, to: w, a: *o, dst: z });
              let s = self.tmp();
              self.code.push(Inst::Bin {
                op: Op::Shl,
                w,
                a: Opnd::R(z),
                b: Opnd::C((i as u128) * ew as u128),
                dst: s,
              });
              match acc {
                None => acc = Some(s),
                Some(a) => {
                  let r = self.tmp();
                  self.code.push(Inst::Bin { op: Op::Or, w, a: Opnd::R(a), b: Opnd::R(s), dst: r });
                  acc = Some(r);
                }
              }
            }
            self.code.push(Inst::Copy { src: vec![Opnd::R(acc.unwrap())].into(), dst });
          } else if fa.len() == 1 {
            let w = fa[0].1;
            for (i, (_, ew)) in fb.iter().enumerate() {
              let s = self.tmp();
              self.code.push(Inst::Bin {
                op: Op::LShr,
                w,
                a: v[0],
                b: Opnd::C((i as u128) * *ew as u128),
                dst: s,
              });
              self.code.push(Inst::Cast {
                k: Cast::Trunc,
                from: w,
                to: *ew,
                a: Opnd::R(s),
                dst: dst + i as u32,
              });
            }
          } else {
            return Err("bitcast".into());
          }
          return Ok(());
        }
        let sc = |t: &Ty| match t {
          Ty::Vec(_, e) => e.width(),
          _ => t.width(),
        };
        let (from, to) = (sc(&t), sc(&tt));
        let k = match op.as_str() {
          "sext" => Cast::SExt,
          _ if to < from => Cast::Trunc,
          _ if to == from => Cast::Copy,
          _ => Cast::ZExt,
        };
        for i in 0..v.len() {
          self.code.push(Inst::Cast { k, from, to, a: v[i], dst: dst + i as u32 });
        }
      }
      "extractvalue" => {
        let t = self.ty(lx)?;
        let v = self.val(lx, &t)?;
        let mut cur = t;
        let mut st = 0usize;
        while lx.eat(b',') {
          if lx.peek() == b'!' {
            break;
          }
          let i = lx.number() as usize;
          for k in 0..i {
            st += cur.elem(k).nflat();
          }
          cur = cur.elem(i);
        }
        let n = cur.nflat();
        self.code.push(Inst::Copy { src: v[st..st + n].to_vec().into(), dst });
      }
      "insertvalue" => {
        let t = self.ty(lx)?;
        let mut v = self.val(lx, &t)?;
        lx.eat(b',');
        let et = self.ty(lx)?;
        let e = self.val(lx, &et)?;
        let mut cur = t;
        let mut st = 0usize;
        while lx.eat(b',') {
          if lx.peek() == b'!' {
            break;
          }
          let i = lx.number() as usize;
          for k in 0..i {
            st += cur.elem(k).nflat();
          }
          cur = cur.elem(i);
        }
        for (k, x) in e.iter().enumerate() {
          v[st + k] = *x;
        }
        self.code.push(Inst::Copy { src: v.into(), dst });
      }
      "extractelement" => {
        let t = self.ty(lx)?;
        let v = self.val(lx, &t)?;
        lx.eat(b',');
        let it = self.ty(lx)?;
        match self.val1(lx, &it)? {
          Opnd::C(i) => self.code.push(Inst::Copy { src: vec![v[i as usize]].into(), dst }),
          _ => return Err("extractelement index".into()),
        }
      }
      "insertelement" => {
        let t = self.ty(lx)?;
        let mut v = self.val(lx, &t)?;
        lx.eat(b',');
        let et = self.ty(lx)?;
        let e = self.val1(lx, &et)?;
        lx.eat(b',');
        let it = self.ty(lx)?;
        match self.val1(lx, &it)? {
          Opnd::C(i) => {
            v[i as usize] = e;
            self.code.push(Inst::Copy { src: v.into(), dst })
          }
          _ => return Err("insertelement index".into()),
        }
      }
      "shufflevector" => {
        let t = self.ty(lx)?;
        let a = self.val(lx, &t)?;
        lx.eat(b',');
        let t2 = self.ty(lx)?;
        let b = self.val(lx, &t2)?;
        lx.eat(b',');
        let mt = self.ty(lx)?;
        let mk = self.val(lx, &mt)?;
        let src: Vec<Opnd> = mk
          .iter()
          .map(|o| match o {
            Opnd::C(i) => {
              let i = *i as usize;
              if i < a.len() {
                a[i]
              } else {
                b[i - a.len()]
              }
            }
            r => *r,
          })
          .collect();
        self.code.push(Inst::Copy { src: src.into(), dst });
      }
      "atomicrmw" => {
        let _ = lx.eat_s("volatile");
        let k = match lx.ident() {
          "xchg" => Rmw::Xchg,
          "add" => Rmw::Add,
          "sub" => Rmw::Sub,
          "and" => Rmw::And,
          "or" => Rmw::Or,
          "xor" => Rmw::Xor,
          "nand" => Rmw::Nand,
          "umax" => Rmw::UMax,
          "umin" => Rmw::UMin,
          "max" => Rmw::Max,
          "min" => Rmw::Min,
          o => return Err(format!("rmw {}", o)),
        };
        let pt = self.ty(lx)?;
        let p = self.val1(lx, &pt)?;
        lx.eat(b',');
        let t = self.ty(lx)?;
        let v = self.val1(lx, &t)?;
        self.code.push(Inst::AtomicRmw { op: k, w: t.width(), p, v, dst });
      }
      "cmpxchg" => {
        let _ = lx.eat_s("weak");
        let _ = lx.eat_s("volatile");
        let pt = self.ty(lx)?;
        let p = self.val1(lx, &pt)?;
        lx.eat(b',');
        let t = self.ty(lx)?;
        let c = self.val1(lx, &t)?;
        lx.eat(b',');
        let t2 = self.ty(lx)?;
        let n = self.val1(lx, &t2)?;
        self.code.push(Inst::CmpXchg { w: t.width(), p, c, n, dst });
      }
      "call" | "invoke" => {
        self.attrs(lx);
        let rt = self.ty(lx)?;
        if lx.peek() == b'(' {
          lx.skip_balanced(); // vararg signature
        }
        if lx.eat_s("asm") {
          // inline asm (black_box etc.): treat as no-op when it has no result
          if rt == Ty::Void {
            return Ok(());
          }
          return Err("asm".into());
        }
        let c = lx.peek();
        let callee = if c == b'@' {
          lx.p += 1;
          let n = lx.name();
          if n.starts_with("llvm.") {
            Callee::Intr(n.as_str().into())
          } else {
            match self.m.fmap.get(n.as_str()) {
              Some(&i) => {
                if self.m.funcs[i].body.is_none() || n.starts_with("vm_") {
                  Callee::Intr(n.as_str().into())
                } else {
                  Callee::Func(i)
                }
              }
              None => return Err(format!("callee {}", n)),
            }
          }
        } else {
          Callee::Ptr(self.val1(lx, &Ty::Ptr)?)
        };
        if !lx.eat(b'(') {
          return Err("call args".into());
        }
        let mut args = vec![];
        let mut widths = vec![];
        while !lx.eat(b')') {
          let t = self.ty(lx)?;
          if t == Ty::Other {
            // metadata argument: skip to ',' or ')'
            let mut d = 0;
            while lx.p < lx.s.len() {
              match lx.s[lx.p] {
                b'(' | b'{' | b'[' => d += 1,
                b')' | b'}' | b']' => {
                  if d == 0 {
                    break;
                  }
                  d -= 1;
                }
                b',' if d == 0 => break,
                _ => {}
              }
              lx.p += 1;
            }
          } else {
            self.attrs(lx);
            let v = self.val(lx, &t)?;
            let mut f = vec![];
            t.flat(0, &mut f);
            args.extend(v);
            widths.extend(f.iter().map(|x| x.1));
          }
          lx.eat(b',');
        }
        let mut goto = u32::MAX;
        if op == "invoke" {
          // attributes, then: to label %x unwind label %y
          let s = &lx.s[lx.p..];
          let k = find(s, b"to label").ok_or("invoke")?;
          lx.p += k + 2;
          goto = self.label(lx)?;
        }
        if let Callee::Intr(n) = &callee {
          if n.starts_with("llvm.lifetime") {
            if let Some(p) = args.last() {
              self.code.push(Inst::Lifetime { p: *p });
            }
          }
          if n.starts_with("llvm.lifetime")
            || n.starts_with("llvm.dbg")
            || n.starts_with("llvm.experimental.noalias")
            || n.starts_with("llvm.assume")
            || n.starts_with("llvm.invariant")
            || n.starts_with("llvm.prefetch")
            || n.starts_with("llvm.x86.sse2.pause")
          {
            if goto != u32::MAX {
              self.code.push(Inst::Br(goto));
            }
            return Ok(());
          }
        }
        let nret = if rt == Ty::Void { 0 } else { dty.nflat().max(rt.nflat()) as u32 };
        self.code.push(Inst::Call {
          c: callee,
          args: args.into(),
          widths: widths.into(),
          dst,
          nret: if dty == Ty::Void { 0 } else { nret },
          goto,
        });
        if goto != u32::MAX {
          self.code.push(Inst::Br(goto));
        }
      }
      _ => {
        if let Some(o) = binop(&op) {
          while matches!(lx.peek_ident(), "nuw" | "nsw" | "exact" | "disjoint") {
            lx.ident();
          }
          let t = self.ty(lx)?;
          let a = self.val(lx, &t)?;
          lx.eat(b',');
          let b = self.val(lx, &t)?;
          let w = match &t {
            Ty::Vec(_, e) => e.width(),
            _ => t.width(),
          };
          for i in 0..a.len() {
            self.code.push(Inst::Bin { op: o, w, a: a[i], b: b[i], dst: dst + i as u32 });
          }
        } else {
          return Err("opcode".into());
        }
      }
    }
    Ok(())
  }
  fn tmp(&mut self) -> u32 {
    let r = self.nregs;
    self.nregs += 1;
    r
  }
}

fn trim(l: &[u8]) -> &[u8] {
  let mut a = 0;
  let mut b = l.len();
  while a < b && (l[a] == b' ' || l[a] == b'\t') {
    a += 1;
  }
  while b > a && (l[b - 1] == b' ' || l[b - 1] == b'\r') {
    b -= 1;
  }
  &l[a..b]
}
fn find(s: &[u8], n: &[u8]) -> Option<usize> {
  s.windows(n.len()).position(|w| w == n)
}
fn rfind(s: &[u8], n: &[u8]) -> Option<usize> {
  s.windows(n.len()).rposition(|w| w == n)
}
