//! C13 bounds: publish, ref_count and replay over a source that emits a prefix of 0..2
//! symbolic items (ending or not) inside each subscription and then follows the history;
//! every call sequence of 5-6 calls (thorough 6-7) over {subscribe, unsubscribe_i, connect,
//! disconnect, next, complete, error} with up to 3 subscribers (some of them take(1)),
//! compared after every call: what each subscriber got, how often the source was
//! subscribed, how many of those subscriptions live. Outside: connecting a publish that
//! is already connected; the history a replay offers after its last subscriber left an
//! unfinished source (either everything or a fresh start is accepted).
use vh::*;

/// Emits the prefix inside subscribe, then is driven by hand.
#[derive(Clone)]
struct Src {
  raw: Raw,
  pre: Sq,
}
impl Src {
  fn observable(&self) -> Observable<'static, i64> {
    let me = self.clone();
    Observable::create(move |s| {
      *me.raw.subs.m() += 1;
      me.raw.obs.m().push(s.clone());
      for x in me.pre.items.iter() {
        s.next(*x);
      }
      finish(&s, me.pre.end);
    })
  }
}

struct Ob {
  r: Rec,
  s: Subscription<'static>,
  want: Sq,
  alt: Sq,
  active: bool,
  take: bool,
}
impl Ob {
  fn give(&mut self, kind: i64, v: i64) {
    if !self.active {
      return;
    }
    for w in [&mut self.want, &mut self.alt] {
      match kind {
        0 => w.items.push(v),
        1 => w.end = COMPLETE,
        _ => w.end = ERR + v,
      }
    }
    if kind != 0 {
      self.active = false;
    } else if self.take {
      self.want.end = COMPLETE;
      self.alt.end = COMPLETE;
      self.active = false;
    }
  }
}

fn prefix(l: i64) -> Sq {
  let n = choose(0, l);
  let mut items = Vec::with_capacity(2);
  for _ in 0..n {
    items.push(item());
  }
  let e = choose(0, 2);
  Sq::new(items, if e == 2 { ERR + 4 } else { e })
}

fn active(obs: &Vec<Ob>) -> usize {
  obs.iter().filter(|o| o.active).count()
}

fn settle(obs: &Vec<Ob>, src: &Src, subs: i64, connected: bool) {
  check(*src.raw.subs.m() == subs, "the source was subscribed a wrong number of times");
  check(src.raw.live() == connected as i64, "wrong number of live source subscriptions");
  for o in obs.iter() {
    check(o.r.is(&o.want) || o.r.is(&o.alt), "a subscriber did not receive exactly its share");
    check(o.s.is_subscribed() == o.active, "is_subscribed is wrong");
  }
}

fn counted(replay: bool, l: i64, nobs: usize, plen: i64) {
  map_order(pick(0, 1) == 1);
  let takes = pick(0, 1) == 1;
  let src = Src { raw: Raw::new(), pre: prefix(plen) };
  let (rc, rp);
  let o = if replay {
    rp = src.observable().replay();
    rp.observable()
  } else {
    rc = src.observable().ref_count();
    rc.observable()
  };
  let mut obs: Vec<Ob> = Vec::with_capacity(4);
  let mut connected = false;
  let mut subs = 0;
  let mut hist: Vec<i64> = Vec::with_capacity(8); // since the last fresh start
  let mut ever: Vec<i64> = Vec::with_capacity(8);
  let mut end = SILENT;
  for _ in 0..l {
    let e = choose(0, 3 + nobs as i64);
    match e {
      0 | 1 | 2 => {
        assume(connected);
        let v = item();
        src.raw.polite(e, v);
        if e == 0 {
          hist.push(v);
          ever.push(v);
        } else {
          connected = false;
          end = if e == 1 { COMPLETE } else { ERR + v };
        }
        for o in obs.iter_mut() {
          o.give(e, v);
        }
      }
      3 => {
        assume(obs.len() < nobs);
        let r = Rec::new();
        let take = takes && obs.len() == 0;
        let s = r.sub(&if take { o.take(1) } else { o.clone() });
        obs.push(Ob { r, s, want: Sq::empty(), alt: Sq::empty(), active: true, take });
        let me = obs.len() - 1;
        if replay {
          for x in hist.iter() {
            obs[me].give(0, *x);
          }
          if end != SILENT && obs[me].active {
            obs[me].want.end = end;
            obs[me].alt.end = end;
            obs[me].active = false;
          }
          if !take && end == SILENT {
            obs[me].alt.items = ever.clone();
          }
        }
        if !connected && active(&obs) == 1 && obs[me].active {
          subs += 1;
          connected = true;
          for x in src.pre.items.iter() {
            if connected {
              hist.push(*x);
              ever.push(*x);
              obs[me].give(0, *x);
              connected = active(&obs) > 0;
            }
          }
          if connected && src.pre.end != SILENT {
            connected = false;
            end = src.pre.end;
            let end = src.pre.end;
            obs[me].give(if end == COMPLETE { 1 } else { 2 }, if end == COMPLETE { 0 } else { end - ERR });
          }
        } else if replay && take && !connected && end == SILENT {
          // history alone satisfied it; nothing was connected
        }
        if !replay {
          end = SILENT;
        }
      }
      _ => {
        let i = (e - 4) as usize;
        assume(i < obs.len());
        obs[i].s.unsubscribe();
        obs[i].active = false;
      }
    }
    if active(&obs) == 0 {
      if end == SILENT {
        hist.clear();
      }
      connected = false;
    }
    settle(&obs, &src, subs, connected);
  }
  for o in obs.iter() {
    o.r.logit();
  }
  log("subs", subs);
  cover("end");
}

const T: i64 = if cfg!(thorough) { 1 } else { 0 };

//@ shards=2 cover=end key=2 cost=6
#[no_mangle]
pub extern "C" fn h_c13_ref_count() {
  counted(false, 6 + T, 3, 1);
}
//@ shards=2 cover=end key=2 cost=6
#[no_mangle]
pub extern "C" fn h_c13_replay() {
  counted(true, 6 + T, 3, 1);
}
//@ shards=2 cover=end key=2 cost=6
#[no_mangle]
pub extern "C" fn h_c13_ref_count2() {
  counted(false, 5 + T, 2, 2);
}
//@ shards=2 cover=end key=2 cost=6
#[no_mangle]
pub extern "C" fn h_c13_replay2() {
  counted(true, 5 + T, 2, 2);
}

/// publish
//@ shards=2 cover=end,conn key=2 cost=7
#[no_mangle]
pub extern "C" fn h_c13_publish() {
  map_order(pick(0, 1) == 1);
  let src = Src { raw: Raw::new(), pre: prefix(1 + T) };
  let p = src.observable().publish();
  let o = p.observable();
  let mut obs: Vec<Ob> = Vec::with_capacity(4);
  let mut con: Option<Subscription<'static>> = None;
  let (mut connected, mut subs) = (false, 0);
  let nobs = 2;
  for _ in 0..(5 + T) {
    let e = choose(0, 5 + nobs as i64);
    match e {
      0 | 1 | 2 => {
        assume(connected);
        let v = item();
        src.raw.polite(e, v);
        if e != 0 {
          connected = false;
        }
        for o in obs.iter_mut() {
          o.give(e, v);
        }
      }
      3 => {
        assume(obs.len() < nobs);
        let r = Rec::new();
        let s = r.sub(&o);
        obs.push(Ob { r, s, want: Sq::empty(), alt: Sq::empty(), active: true, take: false });
      }
      4 => {
        assume(!connected);
        con = Some(p.connect());
        cover("conn");
        subs += 1;
        connected = true;
        for x in src.pre.items.iter() {
          for o in obs.iter_mut() {
            o.give(0, *x);
          }
        }
        let end = src.pre.end;
        if end != SILENT {
          connected = false;
          for o in obs.iter_mut() {
            o.give(if end == COMPLETE { 1 } else { 2 }, if end == COMPLETE { 0 } else { end - ERR });
          }
        }
      }
      5 => {
        if let Some(c) = &con {
          c.unsubscribe();
          check(!c.is_subscribed(), "the connection is still subscribed");
        } else {
          assume(false);
        }
        connected = false;
      }
      _ => {
        let i = (e - 6) as usize;
        assume(i < obs.len());
        obs[i].s.unsubscribe();
        obs[i].active = false;
      }
    }
    if let Some(c) = &con {
      check(c.is_subscribed() == connected, "the connection's is_subscribed is wrong");
    }
    settle(&obs, &src, subs, connected);
  }
  for o in obs.iter() {
    o.r.logit();
  }
  cover("end");
}

/// Several observables of one connectable, operators in front and behind.
//@ shards=3 cover=end key=3 cost=4
#[no_mangle]
pub extern "C" fn h_c13_ops() {
  let k = pick(0, 2);
  let up = pick(0, cat::NOPS - 1);
  let down = pick(0, 3);
  assume(up != cat::WINDOW && up != cat::GROUP);
  let pu = if cat::pmax(up) > 0 { 1 } else { 0 };
  let (dop, pd) = match down {
    0 => (cat::MAP, 0),
    1 => (cat::TAKE_LAST, 1),
    2 => (cat::COUNT, 0),
    _ => (cat::SCAN, 0),
  };
  let q = script(2, 2);
  let raw = Raw::new();
  let u = cat::apply(up, pu, &raw.observable());
  let (p, rc, rp);
  let (a, b): (Observable<'static, i64>, Observable<'static, i64>);
  let mut con = None;
  let (ra, rb) = (Rec::new(), Rec::new());
  match k {
    0 => {
      p = u.publish();
      a = p.observable();
      b = p.observable();
      let _1 = ra.sub(&cat::apply(dop, pd, &a));
      let _2 = rb.sub(&cat::apply(dop, pd, &b));
      check(*raw.subs.m() == 0, "publish subscribed before connect");
      con = Some(p.connect());
    }
    1 => {
      assume(up != cat::START_WITH);
      rc = u.ref_count();
      a = rc.observable();
      b = rc.observable();
      let _1 = ra.sub(&cat::apply(dop, pd, &a));
      let _2 = rb.sub(&cat::apply(dop, pd, &b));
    }
    _ => {
      rp = u.replay();
      a = rp.observable();
      b = rp.observable();
      let _1 = ra.sub(&cat::apply(dop, pd, &a));
      let _2 = rb.sub(&cat::apply(dop, pd, &b));
    }
  }
  let early = up == cat::TAKE && pu == 0;
  for x in q.items.iter() {
    raw.polite(0, *x);
  }
  if q.end != SILENT {
    raw.polite(if q.end == COMPLETE { 1 } else { 2 }, if q.end == COMPLETE { 0 } else { q.end - ERR });
  }
  check(*raw.subs.m() <= 1, "the source was subscribed more than once");
  let w = cat::refop(dop, pd, &cat::refop(up, pu, &q));
  ra.expect(&w, "the first subscriber");
  rb.expect(&w, "the second subscriber");
  if k == 2 {
    let rc = Rec::new();
    rc.sub(&cat::apply(dop, pd, &b));
    rc.expect(&w, "a late subscriber of replay");
  }
  if let Some(c) = con {
    c.unsubscribe();
    check(raw.live() == 0, "disconnecting did not stop the source");
  }
  ra.logit();
  cover("end");
}

/// Subscribing from inside a callback while the source is being connected.
//@ shards=2 cover=end key=2 cost=2
#[no_mangle]
pub extern "C" fn h_c13_nested() {
  let replay = pick(0, 1) == 1;
  let pre = prefix(2);
  let src = Src { raw: Raw::new(), pre: pre.clone() };
  let (rc, rp);
  let o = if replay {
    rp = src.observable().replay();
    rp.observable()
  } else {
    rc = src.observable().ref_count();
    rc.observable()
  };
  let (a, b) = (Rec::new(), Rec::new());
  let at = choose(1, 2);
  let (a1, a2, a3, b1, o1) = (a.clone(), a.clone(), a.clone(), b.clone(), o.clone());
  let done = Sh::new(0usize);
  let d1 = done.clone();
  let live = Sh::new(0i64);
  let (l1, raw1) = (live.clone(), src.raw.clone());
  let _s = o.subscribe(
    move |x| {
      a1.next(x);
      if a1.d().items.len() as i64 == at && *d1.m() == 0 {
        *d1.m() = a1.d().items.len();
        b1.sub(&o1);
        let n = raw1.live();
        if n > *l1.m() {
          *l1.m() = n;
        }
      }
    },
    move |e| a2.error(e),
    move || a3.complete(),
  );
  let v = item();
  src.raw.polite(0, v);
  let mut all = pre.clone();
  if pre.end == SILENT {
    all.items.push(v);
  }
  a.expect(&all, "the first subscriber");
  check(*live.m() <= 1, "two source subscriptions at once");
  if *done.m() > 0 {
    if replay {
      b.expect(&all, "a subscriber that joined during the connection");
    } else {
      let n = *done.m();
      b.expect(&Sq::new(all.items[n..].to_vec(), all.end), "a subscriber that joined during the connection");
    }
    check(*src.raw.subs.m() == 1, "the source was subscribed more than once");
  }
  a.logit();
  cover("end");
}
