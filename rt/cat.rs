//! Catalogue of single-source operators i64 -> i64 with their reference semantics.
use super::*;

pub const MAP: i64 = 0;
pub const FILTER: i64 = 1;
pub const TAKE: i64 = 2;
pub const TAKE_LAST: i64 = 3;
pub const TAKE_WHILE: i64 = 4;
pub const SKIP: i64 = 5;
pub const SKIP_LAST: i64 = 6;
pub const SKIP_WHILE: i64 = 7;
pub const FIRST: i64 = 8;
pub const LAST: i64 = 9;
pub const ELEMENT_AT: i64 = 10;
pub const DISTINCT: i64 = 11;
pub const SCAN: i64 = 12;
pub const REDUCE: i64 = 13;
pub const COUNT: i64 = 14;
pub const SUM: i64 = 15;
pub const SUM_COUNT: i64 = 16;
pub const MIN: i64 = 17;
pub const MAX: i64 = 18;
pub const ALL: i64 = 19;
pub const CONTAINS: i64 = 20;
pub const DEFAULT: i64 = 21;
pub const IGNORE: i64 = 22;
pub const START_WITH: i64 = 23;
pub const BUFFER: i64 = 24;
pub const MATERIALIZE: i64 = 25;
pub const DEMAT: i64 = 26;
pub const TAP: i64 = 27;
pub const TO_ANY: i64 = 28;
pub const WINDOW: i64 = 29;
pub const GROUP: i64 = 30;
pub const NOPS: i64 = 31;

/// Largest parameter (0..=pmax) of an operator.
pub fn pmax(op: i64) -> i64 {
  match op {
    FILTER | TAKE_WHILE | SKIP_WHILE | ALL => 5,
    TAKE | TAKE_LAST | SKIP | SKIP_LAST => 5,
    ELEMENT_AT | BUFFER | WINDOW => 4,
    CONTAINS => 3,
    START_WITH => 2,
    GROUP => 1,
    _ => 0,
  }
}

pub fn matcode(m: &Material<i64>) -> i64 {
  match m {
    Material::Next(x) => *x * 4,
    Material::Error(e) => errcode(e) * 4 + 1,
    Material::Complete => 2,
  }
}

pub fn key(p: i64, x: i64) -> i64 {
  if p == 0 {
    x & 1
  } else {
    x
  }
}

/// The real operator (library code).
pub fn apply(op: i64, p: i64, o: &Observable<'static, i64>) -> Observable<'static, i64> {
  match op {
    MAP => o.map(|x| x * 3 + 1),
    FILTER => o.filter(move |x| pred(p, x)),
    TAKE => o.take(p as usize),
    TAKE_LAST => o.take_last(p as usize),
    TAKE_WHILE => o.take_while(move |x| pred(p, x)),
    SKIP => o.skip(p as usize),
    SKIP_LAST => o.skip_last(p as usize),
    SKIP_WHILE => o.skip_while(move |x| pred(p, x)),
    FIRST => o.first(),
    LAST => o.last(),
    ELEMENT_AT => o.element_at(p as usize + 1),
    DISTINCT => o.distinct_until_changed(),
    SCAN => o.scan(|(a, b)| a * 2 + b),
    REDUCE => o.reduce(|(a, b)| a * 2 + b),
    COUNT => o.count().map(|x| x as i64),
    SUM => o.sum(),
    SUM_COUNT => o.sum_and_count().map(|(s, n)| s * 100 + n as i64),
    MIN => o.min(),
    MAX => o.max(),
    ALL => o.all(move |x| pred(p, x)).map(|b| b as i64),
    CONTAINS => o.contains(p).map(|b| b as i64),
    DEFAULT => o.default_if_empty(77),
    IGNORE => o.ignore_elements(),
    START_WITH => o.start_with(50..(50 + p)),
    BUFFER => o.buffer_with_count(p as usize + 1).map(|v| enc(&v)),
    MATERIALIZE => o.materialize().map(|m| matcode(&m)),
    DEMAT => o.materialize().dematerialize(),
    TAP => o.tap(|_| {}, |_| {}, || {}),
    TO_ANY => o.map_to_any().map(|a| *a.downcast_ref::<i64>().unwrap()),
    // every window: its number of items once it completes, tagged per item
    WINDOW => o
      .window_with_count(p as usize + 1)
      .flat_map(|w| w.materialize().map(|m| matcode(&m))),
    GROUP => o
      .group_by(move |x| key(p, x))
      .flat_map(|g| g.scan(|(a, b)| a * 10 + b)),
    _ => o.clone(),
  }
}

/// Reference semantics on the events seen so far (end == SILENT: not ended yet).
pub fn refop(op: i64, p: i64, q: &Sq) -> Sq {
  let n = q.items.len();
  let mut out: Vec<i64> = Vec::with_capacity(n + 4);
  let mut end = q.end;
  match op {
    MAP => {
      for x in &q.items {
        out.push(*x * 3 + 1);
      }
    }
    FILTER => {
      for x in &q.items {
        if pred(p, *x) {
          out.push(*x);
        }
      }
    }
    TAKE => {
      let k = p as usize;
      for x in q.items.iter().take(k) {
        out.push(*x);
      }
      if n >= k {
        end = COMPLETE;
      }
    }
    TAKE_LAST | LAST => {
      let k = if op == LAST { 1 } else { p as usize };
      if end == COMPLETE {
        let s = if n > k { n - k } else { 0 };
        for x in &q.items[s..] {
          out.push(*x);
        }
      }
    }
    TAKE_WHILE => {
      for x in &q.items {
        if !pred(p, *x) {
          end = COMPLETE;
          break;
        }
        out.push(*x);
      }
    }
    SKIP => {
      let k = p as usize;
      for i in k..n {
        out.push(q.items[i]);
      }
    }
    SKIP_LAST => {
      let k = p as usize;
      for i in k..n {
        out.push(q.items[i - k]);
      }
    }
    SKIP_WHILE => {
      let mut on = false;
      for x in &q.items {
        if !on && !pred(p, *x) {
          on = true;
        }
        if on {
          out.push(*x);
        }
      }
    }
    FIRST => {
      if n >= 1 {
        out.push(q.items[0]);
        end = COMPLETE;
      }
    }
    ELEMENT_AT => {
      let k = p as usize + 1;
      if n >= k {
        out.push(q.items[k - 1]);
        end = COMPLETE;
      }
    }
    DISTINCT => {
      let mut last: Option<i64> = None;
      for x in &q.items {
        match last {
          Some(l) if l == *x => {}
          _ => out.push(*x),
        }
        last = Some(*x);
      }
    }
    SCAN | REDUCE => {
      let mut acc: Option<i64> = None;
      for x in &q.items {
        let v = match acc {
          None => *x,
          Some(a) => a * 2 + *x,
        };
        acc = Some(v);
        if op == SCAN {
          out.push(v);
        }
      }
      if op == REDUCE && end == COMPLETE {
        if let Some(v) = acc {
          out.push(v);
        }
      }
    }
    COUNT => {
      if end == COMPLETE {
        out.push(n as i64);
      }
    }
    SUM | SUM_COUNT => {
      if end == COMPLETE && n > 0 {
        let mut s = 0;
        for x in &q.items {
          s += *x;
        }
        out.push(if op == SUM { s } else { s * 100 + n as i64 });
      }
    }
    MIN | MAX => {
      if end == COMPLETE && n > 0 {
        let mut s = q.items[0];
        for x in &q.items {
          if (op == MIN && *x < s) || (op == MAX && *x > s) {
            s = *x;
          }
        }
        out.push(s);
      }
    }
    ALL | CONTAINS => {
      let mut hit = false;
      for x in &q.items {
        let h = if op == ALL { !pred(p, *x) } else { *x == p };
        if h {
          hit = true;
          break;
        }
      }
      if hit {
        out.push((op == CONTAINS) as i64);
        end = COMPLETE;
      } else if end == COMPLETE {
        out.push((op == ALL) as i64);
      } else if end >= ERR && op == CONTAINS {
        // the crate's own test pins this down: an error means "not contained"
        out.push(0);
        end = COMPLETE;
      }
    }
    DEFAULT => {
      for x in &q.items {
        out.push(*x);
      }
      if n == 0 && end == COMPLETE {
        out.push(77);
      }
    }
    IGNORE => {}
    START_WITH => {
      for k in 0..p {
        out.push(50 + k);
      }
      for x in &q.items {
        out.push(*x);
      }
    }
    BUFFER => {
      let k = p as usize + 1;
      let mut i = 0;
      while i + k <= n {
        out.push(enc(&q.items[i..i + k]));
        i += k;
      }
      if i < n && end == COMPLETE {
        out.push(enc(&q.items[i..]));
      }
    }
    MATERIALIZE => {
      for x in &q.items {
        out.push(*x * 4);
      }
      if end == COMPLETE {
        out.push(2);
      } else if end >= ERR {
        out.push((end - ERR) * 4 + 1);
        end = COMPLETE;
      }
    }
    WINDOW => {
      let k = p as usize + 1;
      for i in 0..n {
        out.push(q.items[i] * 4);
        if (i + 1) % k == 0 {
          out.push(2);
        }
      }
      if n % k != 0 && end == COMPLETE {
        out.push(2);
      } else if n % k != 0 && end >= ERR {
        out.push((end - ERR) * 4 + 1);
      }
    }
    GROUP => {
      let mut acc: Vec<(i64, i64)> = Vec::with_capacity(n);
      for x in &q.items {
        let k = key(p, *x);
        let mut f = false;
        for a in acc.iter_mut() {
          if a.0 == k {
            a.1 = a.1 * 10 + *x;
            out.push(a.1);
            f = true;
            break;
          }
        }
        if !f {
          acc.push((k, *x));
          out.push(*x);
        }
      }
    }
    _ => {
      for x in &q.items {
        out.push(*x);
      }
    }
  }
  Sq { items: out, end }
}
