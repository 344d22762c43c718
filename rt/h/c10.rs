//! C10 bounds: every call sequence of 5 calls (thorough 6; two observers 7) over
//! {subscribe, unsubscribe_i, next(symbolic 0..2), complete, error(symbolic)} with up to 3
//! observers on each of the four subject types, observers attached directly and through
//! map, take, take_last, scan and default_if_empty, both HashMap orders, compared with a
//! model after every call; unsubscribing twice, calls after the terminal and subscribing
//! after it included. AsyncSubject: an observer that joined after the last item may or
//! may not be given it (the statement fixes only what is handed out and when).
use vh::*;

struct Ob {
  r: Rec,
  s: Subscription<'static>,
  raw: Sq,     // what the subject itself owes it
  gone: bool,  // unsubscribed
  since: bool, // AsyncSubject: an item was pushed since it joined
}

struct Model {
  k: i64,
  latest: i64,
  any: bool,
  hist: Vec<i64>,
  end: i64,
}

fn run(k: i64, through: i64, l: i64, nobs: usize) {
  let sb = AnySbj::new(k);
  let (op, p) = match through {
    0 => (-1, 0),
    1 => (cat::MAP, 0),
    2 => (cat::TAKE, 2),
    3 => (cat::TAKE_LAST, 1),
    4 => (cat::SCAN, 0),
    _ => (cat::DEFAULT, 0),
  };
  let o = if op < 0 { sb.observable() } else { cat::apply(op, p, &sb.observable()) };
  let mut m = Model { k, latest: 9, any: false, hist: Vec::with_capacity(8), end: SILENT };
  let mut obs: Vec<Ob> = Vec::with_capacity(4);
  for step in 0..l {
    let e = choose(0, 3 + nobs as i64);
    match e {
      0 | 1 | 2 => {
        let v = if e == 0 { item() } else { sym(0, 9) };
        sb.send(e, v);
        // the model
        let dead = m.end != SILENT && k != 0;
        if !dead {
          for b in obs.iter_mut() {
            if b.gone || b.raw.end != SILENT {
              continue;
            }
            match e {
              0 => {
                b.since = true;
                if k != 3 {
                  b.raw.items.push(v)
                }
              }
              1 => {
                if k == 3 && m.any && b.since {
                  b.raw.items.push(m.latest);
                }
                b.raw.end = COMPLETE
              }
              _ => b.raw.end = ERR + v,
            }
          }
          match e {
            0 => {
              m.latest = v;
              m.any = true;
              m.hist.push(v);
            }
            1 => m.end = COMPLETE,
            _ => m.end = ERR + v,
          }
        }
      }
      3 => {
        assume(obs.len() < nobs);
        let r = Rec::new();
        let s = r.sub(&o);
        let mut raw = Sq::empty();
        match k {
          1 => {
            if m.end == SILENT {
              raw.items.push(m.latest)
            } else {
              raw.end = m.end
            }
          }
          2 => {
            raw.items = m.hist.clone();
            raw.end = m.end;
          }
          _ => {}
        }
        if k == 3 && m.end != SILENT {
          // outside: joining an AsyncSubject after its end
          assume(false);
        }
        obs.push(Ob { r, s, raw, gone: false, since: false });
      }
      _ => {
        let i = (e - 4) as usize;
        assume(i < obs.len());
        obs[i].s.unsubscribe();
        obs[i].gone = true;
      }
    }
    for b in obs.iter() {
      // an observer that left keeps what it had: its raw sequence stopped growing
      let w = if op < 0 { b.raw.clone() } else { cat::refop(op, p, &b.raw) };
      let mut ok = b.r.is(&w);
      if k == 3 && m.any && !b.since && b.raw.end == COMPLETE {
        let mut q = b.raw.clone();
        q.items.push(m.latest);
        ok |= b.r.is(&if op < 0 { q } else { cat::refop(op, p, &q) });
      }
      check(ok, "an observer did not receive exactly what the subject owes it");
      check(b.s.is_subscribed() == (!b.gone && b.r.end() == SILENT), "is_subscribed is wrong");
    }
  }
  for b in obs.iter() {
    b.r.logit();
  }
  cover("end");
}

const T: i64 = if cfg!(thorough) { 1 } else { 0 };

//@ shards=8 tshards=16 cover=end key=1 cost=8
#[no_mangle]
pub extern "C" fn h_c10_direct() {
  let k = pick(0, 7);
  map_order(k >= 4);
  run(k % 4, 0, 5 + T, 3);
}
//@ shards=10 tshards=20 cover=end key=1 cost=8
#[no_mangle]
pub extern "C" fn h_c10_through() {
  let k = pick(0, 19);
  run(k % 4, 1 + k / 4, 5 + T, 2);
}
//@ shards=4 tshards=4 cover=end key=1 cost=9
#[no_mangle]
pub extern "C" fn h_c10_long() {
  run(pick(0, 3), 0, 6 + T, 2);
}

/// Every observer sees the calls in the same order although callbacks run in between.
//@ cover=end key=2
#[no_mangle]
pub extern "C" fn h_c10_many() {
  let k = pick(0, 3);
  map_order(pick(0, 1) == 1);
  let sb = AnySbj::new(k);
  let n = pick(1, 5) as usize;
  let mut rs = Vec::with_capacity(8);
  let mut ss = Vec::with_capacity(8);
  for _ in 0..n {
    let r = Rec::new();
    ss.push(r.sub(&sb.observable()));
    rs.push(r);
  }
  let gone = choose(0, n as i64);
  let q = script(3, 9);
  for (i, x) in q.items.iter().enumerate() {
    if i == 1 && (gone as usize) < n {
      ss[gone as usize].unsubscribe();
    }
    sb.send(0, *x);
  }
  if q.end != SILENT {
    sb.send(if q.end == COMPLETE { 1 } else { 2 }, if q.end == COMPLETE { 0 } else { q.end - ERR });
  }
  for i in 0..n {
    let mut w = Sq::empty();
    if k == 1 {
      w.items.push(9)
    }
    let left = i as i64 == gone && q.items.len() > 1;
    for (j, x) in q.items.iter().enumerate() {
      if !(left && j >= 1) {
        w.items.push(*x)
      }
    }
    w.end = if left { SILENT } else { q.end };
    if k == 3 {
      let last = w.items.last().copied();
      w.items.clear();
      if let (Some(x), true) = (last, w.end == COMPLETE) {
        w.items.push(x)
      }
    }
    rs[i].expect(&w, "an observer did not receive exactly the events of its time");
    rs[i].logit();
  }
  cover("end");
}

/// Subscribing and leaving from inside callbacks: the ones not involved are not affected.
//@ cover=end key=3
#[no_mangle]
pub extern "C" fn h_c10_inside() {
  let k = pick(0, 2);
  map_order(pick(0, 1) == 1);
  let what = pick(0, 2); // 0 join, 1 leave, 2 both
  let sb = AnySbj::new(k);
  let (a, b, c) = (Rec::new(), Rec::new(), Rec::new());
  let h: Sh<Option<Subscription<'static>>> = Sh::new(None);
  let hc: Sh<Option<Subscription<'static>>> = Sh::new(None);
  let (a1, h1, hc1, c1, sb1) = (a.clone(), h.clone(), hc.clone(), c.clone(), sb.clone());
  let at = choose(1, 2);
  let sa = sb.observable().subscribe(
    move |x| {
      a1.next(x);
      if a1.d().items.len() as i64 == at + (k == 1) as i64 {
        if what != 1 {
          *hc1.m() = Some(c1.sub(&sb1.observable()));
        }
        if what != 0 {
          if let Some(s) = h1.m().clone() {
            s.unsubscribe();
          }
        }
      }
    },
    |_| {},
    || {},
  );
  *h.m() = Some(sa.clone());
  let _sb = b.sub(&sb.observable());
  let mut vs = Vec::with_capacity(4);
  for _ in 0..3 {
    let v = sym(0, 9);
    vs.push(v);
    sb.send(0, v);
  }
  sb.send(1, 0);
  let mut w = Sq::new(vs.clone(), COMPLETE);
  if k == 1 {
    w.items.insert(0, 9)
  }
  b.expect(&w, "an observer not involved did not receive every event once");
  if what != 0 {
    let n = at as usize + (k == 1) as usize;
    a.expect(&Sq::new(w.items[..n].to_vec(), SILENT), "the observer that left inside its callback");
  }
  if what != 1 {
    // the joiner: everything after the event it joined in; that event itself once or not at all
    let d = c.d();
    let tail = &vs[at as usize..];
    check(d.end == COMPLETE && d.late == 0, "the joiner missed the terminal");
    let got = &d.items[..];
    let mut ok = false;
    for skip in 0..2usize {
      let mut e: Vec<i64> = Vec::with_capacity(6);
      if k == 2 {
        for x in vs[..at as usize].iter() {
          e.push(*x)
        }
      } else if skip == 0 {
        e.push(vs[at as usize - 1])
      }
      for x in tail {
        e.push(*x)
      }
      if e.len() == got.len() {
        let mut same = true;
        for i in 0..e.len() {
          same &= e[i] == got[i];
        }
        ok |= same;
      }
    }
    check(ok, "the joiner did not receive exactly the later events");
  }
  *h.m() = None;
  *hc.m() = None;
  b.logit();
  cover("end");
}
