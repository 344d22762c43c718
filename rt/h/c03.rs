//! C03 bounds: merge, zip, combine_latest, amb, concat, sequence_equal, flat_map over
//! 1..4 sources, take_until, skip_until, sample, on_error_resume_next over 2: all
//! orders of 5 events (2 sources; thorough 6), 4 (3 sources; thorough 5), 3 (4 sources;
//! thorough 4), items symbolic 0..2, hot sources compared after every event; sources that
//! run inside subscribe (scripts of 0..2 items, thorough 3, any ending, polite or not)
//! alone and mixed with hot ones; every catalogue operator downstream and upstream;
//! two combinators nested; ready_set_go. Errors of the trigger of take_until, skip_until
//! and sample are outside (the statement speaks of its items).
use vh::*;

fn tri(k: i64) -> bool {
  matches!(k, TAKE_UNTIL | SKIP_UNTIL | SAMPLE)
}

/// Draws one well-formed event of n hot sources; None when it is not allowed.
fn draw(k: i64, n: i64, t: &Trace) -> Ev {
  let e = choose(0, n * 3 - 1);
  let (src, kind) = ((e / 3) as usize, e % 3);
  assume(!t.ended(src));
  assume(!(tri(k) && src == 1 && kind == 2));
  Ev { src, kind, v: if kind == 0 { item() } else { 3 + src as i64 }, one: false }
}

fn hot(n: i64, l: i64, subject: bool) {
  let k = pick(0, NMULTI - 1);
  assume(k != SWITCH && (n == 2 || !two_only(k)) && !(n == 1 && k == FLAT_MAP));
  map_order(pick(0, 1) == 1);
  let t = Trace::new();
  let (mut raws, mut sbs, mut srcs) = (Vec::with_capacity(4), Vec::with_capacity(4), Vec::with_capacity(4));
  for _ in 0..n {
    if subject {
      let s = Sbj::new();
      srcs.push(s.observable());
      sbs.push(s);
    } else {
      let r = Raw::new();
      srcs.push(r.observable());
      raws.push(r);
    }
  }
  let o = build(k, &srcs);
  let r = Rec::new();
  let _s = r.sub(&o);
  check(any_of(&r, &wants(k, n as usize, t.evs())), "something was delivered before any event");
  for _ in 0..l {
    let e = draw(k, n, &t);
    t.push(e.src, e.kind, e.v);
    if subject {
      ssend(&sbs[e.src], e.kind, e.v);
    } else {
      raws[e.src].polite(e.kind, e.v);
    }
    check(any_of(&r, &wants(k, n as usize, t.evs())), "the output differs from the definition for this order of events");
  }
  r.logit();
  cover("end");
}

const T: i64 = if cfg!(thorough) { 1 } else { 0 };

//@ shards=12 tshards=12 cover=end key=1 cost=9
#[no_mangle]
pub extern "C" fn h_c03_hot2() {
  hot(2, 5 + T, true);
}
//@ shards=12 cover=end key=1 cost=5
#[no_mangle]
pub extern "C" fn h_c03_hot2_raw() {
  hot(2, 4, false);
}
//@ shards=12 tshards=12 cover=end key=1 cost=8
#[no_mangle]
pub extern "C" fn h_c03_hot3() {
  hot(3, 4 + T, true);
}
//@ shards=12 tshards=12 cover=end key=1 cost=6
#[no_mangle]
pub extern "C" fn h_c03_hot4() {
  hot(4, 3 + T, false);
}
//@ cover=end key=1
#[no_mangle]
pub extern "C" fn h_c03_hot1() {
  hot(1, 4, true);
}

/// Sources that run inside subscribe, mixed with hot ones.
//@ shards=12 tshards=12 cover=end key=1 cost=8
#[no_mangle]
pub extern "C" fn h_c03_cold() {
  let k = pick(0, NMULTI - 1);
  assume(k != SWITCH);
  let n = if two_only(k) { 2 } else { pick(2, 3) };
  let modes = pick(0, 2 * n); // 0: all cold; 2i+1 / 2i+2: source i hot (others impolite / polite)
  let len = if cfg!(thorough) && n == 2 { 3 } else if n == 2 { 2 } else { 1 };
  let t = Trace::new();
  let s = Sbj::new();
  let mut srcs = Vec::with_capacity(4);
  let mut hot = -1;
  for i in 0..n {
    if modes == 2 * i + 1 || modes == 2 * i + 2 {
      hot = i;
      srcs.push(s.observable());
    } else {
      let q = script(len, 1);
      assume(!(tri(k) && i == 1 && q.end >= ERR));
      srcs.push(traced(&t, i as usize, &q, modes % 2 == 0));
    }
  }
  let o = build(k, &srcs);
  let r = Rec::new();
  let _s = r.sub(&o);
  check(any_of(&r, &wants(k, n as usize, t.evs())), "the output over sources that run inside subscribe differs");
  if hot >= 0 {
    for _ in 0..2 {
      let kind = choose(0, 2);
      assume(!t.ended(hot as usize));
      assume(!(tri(k) && hot == 1 && kind == 2));
      let v = if kind == 0 { sym(0, 1) } else { 3 };
      t.push(hot as usize, kind, v);
      ssend(&s, kind, v);
      check(any_of(&r, &wants(k, n as usize, t.evs())), "the output over hot and cold sources differs");
    }
  }
  r.logit();
  cover("end");
}

fn pp(op: i64) -> i64 {
  if cat::pmax(op) > 0 {
    1
  } else {
    0
  }
}

/// An operator of the catalogue behind a combinator.
//@ shards=12 tshards=12 cover=end key=2 cost=7
#[no_mangle]
pub extern "C" fn h_c03_down() {
  let k = pick(0, NMULTI - 1);
  assume(k != SWITCH);
  let op = pick(0, cat::NOPS - 1);
  let p = if cfg!(thorough) && cat::pmax(op) > 0 { pick(0, 1) } else { pp(op) };
  let t = Trace::new();
  let (a, b) = (Sbj::new(), Sbj::new());
  let o = cat::apply(op, p, &build(k, &[a.observable(), b.observable()]));
  let r = Rec::new();
  let _s = r.sub(&o);
  for _ in 0..3 {
    let e = draw(k, 2, &t);
    t.push(e.src, e.kind, e.v);
    ssend(if e.src == 0 { &a } else { &b }, e.kind, e.v);
    let ws = wants(k, 2, t.evs());
    let mut ok = false;
    for w in ws.iter() {
      ok |= r.is(&cat::refop(op, p, w));
    }
    check(ok, "an operator behind a combinator delivers something else");
  }
  r.logit();
  cover("end");
}

/// Adds to the trace what source `src` newly says after its input grew.
fn delta(t: &Trace, src: usize, before: &Sq, after: &Sq) {
  for i in before.items.len()..after.items.len() {
    t.push(src, 0, after.items[i]);
  }
  if before.end == SILENT && after.end == COMPLETE {
    t.push(src, 1, 0);
  } else if before.end == SILENT && after.end >= ERR {
    t.push(src, 2, after.end - ERR);
  }
}

/// An operator of the catalogue in front of either input of a combinator.
//@ shards=12 tshards=12 cover=end key=3 cost=7
#[no_mangle]
pub extern "C" fn h_c03_up() {
  let k = pick(0, NMULTI - 1);
  assume(k != SWITCH);
  let op = pick(0, cat::NOPS - 1);
  assume(op != cat::START_WITH);
  let side = pick(0, 1) as usize;
  // the second input of these is subscribed later
  assume(side == 0 || !matches!(k, CONCAT | FLAT_MAP | RESUME));
  let p = pp(op);
  let t = Trace::new();
  let sb = [Sbj::new(), Sbj::new()];
  let mut srcs = Vec::with_capacity(2);
  srcs.push(sb[0].observable());
  srcs.push(sb[1].observable());
  srcs[side] = cat::apply(op, p, &srcs[side]);
  let o = build(k, &srcs);
  let r = Rec::new();
  let _s = r.sub(&o);
  let mut q = [Sq::empty(), Sq::empty()];
  for _ in 0..3 {
    let e = choose(0, 5);
    let (src, kind) = ((e / 3) as usize, e % 3);
    assume(q[src].end == SILENT);
    assume(!(tri(k) && src == 1 && kind == 2));
    let v = if kind == 0 { item() } else { 3 };
    let before = if src == side { cat::refop(op, p, &q[src]) } else { q[src].clone() };
    match kind {
      0 => q[src].items.push(v),
      1 => q[src].end = COMPLETE,
      _ => q[src].end = ERR + v,
    }
    let after = if src == side { cat::refop(op, p, &q[src]) } else { q[src].clone() };
    delta(&t, src, &before, &after);
    ssend(&sb[src], kind, v);
    check(any_of(&r, &wants(k, 2, t.evs())), "a combinator over an operator's output delivers something else");
  }
  r.logit();
  cover("end");
}

/// A combinator as the first input of another one.
//@ shards=12 tshards=12 cover=end key=2 cost=8
#[no_mangle]
pub extern "C" fn h_c03_nest() {
  let k = pick(0, NMULTI - 1);
  let j = pick(0, NMULTI - 1);
  assume(k != SWITCH && j != SWITCH);
  assume(!matches!(j, ZIP | LATEST | SEQ_EQ)); // completion time not fixed by the definition
  let sb = [Sbj::new(), Sbj::new(), Sbj::new()];
  let inner = build(j, &[sb[0].observable(), sb[1].observable()]);
  let o = build(k, &[inner, sb[2].observable()]);
  let r = Rec::new();
  let _s = r.sub(&o);
  let (ti, to) = (Trace::new(), Trace::new());
  for _ in 0..(3 + T) {
    let e = choose(0, 8);
    let (src, kind) = ((e / 3) as usize, e % 3);
    let v = if kind == 0 { item() } else { 3 };
    if src < 2 {
      assume(!ti.ended(src));
      assume(!(tri(j) && src == 1 && kind == 2));
      let b = wants(j, 2, ti.evs());
      ti.push(src, kind, v);
      let a = wants(j, 2, ti.evs());
      delta(&to, 0, &b[0], &a[0]);
    } else {
      assume(!to.ended(1));
      assume(!(tri(k) && kind == 2));
      to.push(1, kind, v);
    }
    ssend(&sb[src], kind, v);
    check(any_of(&r, &wants(k, 2, to.evs())), "nested combinators deliver something else");
  }
  r.logit();
  cover("end");
}

/// ready_set_go misses nothing its action emits, whatever lies between.
//@ cover=end key=2
#[no_mangle]
pub extern "C" fn h_c03_ready_set_go() {
  let op = pick(0, cat::NOPS - 1);
  let p = pp(op);
  let n = pick(1, 2);
  let q = script(3, 2);
  let s = Sbj::new();
  let src = s.observable();
  let runs = Sh::new(0i64);
  let (s2, q2, runs2) = (s.clone(), q.clone(), runs.clone());
  let act = move || {
    *runs2.m() += 1;
    for x in q2.items.iter() {
      s2.next(*x);
    }
    sfinish(&s2, q2.end);
  };
  let o = if n == 1 {
    cat::apply(op, p, &utils::ready_set_go(act, src))
  } else {
    utils::ready_set_go(act, cat::apply(op, p, &src))
  };
  let r = Rec::new();
  let _s = r.sub(&o);
  check(*runs.m() == 1, "the action did not run exactly once");
  r.expect(&cat::refop(op, p, &q), "ready_set_go lost or changed what its action emitted");
  r.logit();
  cover("end");
}
