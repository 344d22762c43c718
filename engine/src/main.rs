mod conc;
mod expr;
mod ir;
mod json;
mod live;
mod sched;
mod seq;
mod vm;
mod z3;

use json::*;
use std::time::{Duration, Instant};

fn main() {
  // deep recursion in expression conversion / evaluation
  let h = std::thread::Builder::new()
    .stack_size(1 << 30)
    .spawn(real_main)
    .unwrap();
  std::process::exit(h.join().unwrap_or(3));
}

fn real_main() -> i32 {
  let args: Vec<String> = std::env::args().collect();
  let get = |k: &str| -> Option<String> {
    args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned())
  };
  let mode = args.get(1).cloned().unwrap_or_default();
  let ll = get("--ll").expect("--ll");
  let entry = get("--entry").expect("--entry");
  let secs: u64 = get("--time").and_then(|x| x.parse().ok()).unwrap_or(600);
  let seed: u64 = get("--seed").and_then(|x| x.parse().ok()).unwrap_or(1);
  let out = get("--out");
  let text = std::fs::read(&ll).expect("read ll");
  let t0 = Instant::now();
  let m = ir::Module::load(text);
  let mut vm = vm::Vm::new(m);
  if let Some(b) = get("--budget").and_then(|x| x.parse().ok()) {
    vm.budget = b;
  }
  let deadline = t0 + Duration::from_secs(secs);
  let js = match mode.as_str() {
    "seq" => run_seq(&mut vm, &entry, deadline, seed, t0, &args),
    "conc" => run_conc(&mut vm, &entry, deadline, seed, t0, &args),
    _ => panic!("mode"),
  };
  match out {
    Some(f) => std::fs::write(f, js).unwrap(),
    None => println!("{}", js),
  }
  0
}

pub fn failure_json(f: &seq::Failure) -> String {
  format!(
    "{{\"kind\":{},\"msg\":{},\"values\":{},\"log\":{},\"sched\":{},\"marks\":{}}}",
    esc(&f.kind),
    esc(&f.msg),
    nums(&f.values),
    log(&f.log),
    nums(&f.sched),
    arr(&f.marks, |m| format!("[{},{},{},{}]", m[0], m[1], m[2], m[3]))
  )
}

fn funcs_json(vm: &vm::Vm) -> String {
  let mut v: Vec<String> = vm
    .funcs_used
    .iter()
    .map(|i| vm.m.funcs[*i].name.to_string())
    .collect();
  v.sort();
  arr(&v, |s| esc(s))
}

fn run_seq(
  vm: &mut vm::Vm,
  entry: &str,
  deadline: Instant,
  seed: u64,
  t0: Instant,
  args: &[String],
) -> String {
  let mut q = seq::Seq::new(vm, deadline, seed);
  let get = |k: &str| -> Option<String> {
    args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned())
  };
  if let Some(n) = get("--max-failures").and_then(|x| x.parse().ok()) {
    q.max_failures = n;
  }
  if args.iter().any(|a| a == "--linear") {
    q.s.linear();
  }
  if let Some(n) = get("--key-picks").and_then(|x| x.parse().ok()) {
    q.key_picks = n;
  }
  if let Some(s) = get("--shard") {
    let v: Vec<i64> = s.split('/').map(|x| x.parse().unwrap()).collect();
    q.shard = (v[0], v[1]);
  }
  if let Err(e) = q.explore(entry) {
    q.res.errors.push(e);
    q.res.complete = false;
  }
  let r = std::mem::take(&mut q.res);
  let (zq, zs, zu, zt, zm) = (q.s.z.queries, q.s.z.sat, q.s.z.unsat, q.s.z.time, q.s.z.max_time);
  drop(q);
  format!(
    "{{\"entry\":{},\"complete\":{},\"paths\":{},\"pruned\":{},\"forks\":{},\"checks\":{},\"checks_solver\":{},\"checks_true\":{},\"max_steps\":{},\"insts\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"solver_s\":{:.3},\"solver_max_s\":{:.3},\"wall_s\":{:.3},\"failures\":{},\"errors\":{},\"samples\":{},\"covers\":[{}],\"funcs\":{}}}",
    esc(entry),
    r.complete,
    r.paths,
    r.pruned,
    r.forks,
    r.checks,
    r.checks_solver,
    vm.checks_true,
    r.max_steps,
    vm.insts,
    zq,
    zs,
    zu,
    zt,
    zm,
    t0.elapsed().as_secs_f64(),
    arr(&r.failures, failure_json),
    arr(&r.errors, |s| esc(s)),
    arr(&r.samples, |s| format!(
      "{{\"values\":{},\"log\":{},\"sched\":{}}}",
      nums(&s.values),
      log(&s.log),
      nums(&s.sched)
    )),
    r.covers.iter().map(|(k, v)| format!("[{},{}]", esc(k), v)).collect::<Vec<_>>().join(","),
    funcs_json(vm)
  )
}

fn run_conc(
  vm: &mut vm::Vm,
  entry: &str,
  deadline: Instant,
  seed: u64,
  t0: Instant,
  args: &[String],
) -> String {
  let get = |k: &str| -> Option<String> {
    args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned())
  };
  let mut shard = (0, 1);
  let mut q = seq::Seq::new(vm, deadline, seed);
  q.stop_at_concurrent = true;
  if let Some(s) = get("--shard") {
    let v: Vec<i64> = s.split('/').map(|x| x.parse().unwrap()).collect();
    shard = (v[0] as usize, v[1] as usize);
  }
  if let Err(e) = q.explore(entry) {
    q.res.errors.push(e);
    q.res.complete = false;
  }
  let mut r = std::mem::take(&mut q.res);
  let mut states = vec![];
  for (i, s) in std::mem::take(&mut q.conc_states).into_iter().enumerate() {
    if i % shard.1 != shard.0 {
      continue;
    }
    let v = q.vals(&s);
    states.push((s, v));
  }
  let (zq, zs, zu, zt, zm) = (q.s.z.queries, q.s.z.sat, q.s.z.unsat, q.s.z.time, q.s.z.max_time);
  drop(q);
  if r.paths > 0 {
    r.errors.push("a path of a concurrent harness ended without concurrent()".into());
  }
  let mut res = conc::ConcResult::default();
  let max_nodes = get("--nodes").and_then(|x| x.parse().ok()).unwrap_or(4000);
  let max_failures: usize = get("--max-failures").and_then(|x| x.parse().ok()).unwrap_or(3);
  let stime: u64 = get("--stime").and_then(|x| x.parse().ok()).unwrap_or(100_000);
  let total = states.len();
  for (i, (s, v)) in states.into_iter().enumerate() {
    // every scenario gets its share of what is left
    let now = Instant::now();
    let share = deadline.saturating_duration_since(now) / (total - i) as u32;
    let most = share.max(Duration::from_secs(5)).min(Duration::from_secs(stime));
    let deadline = now + most;
    let what = s
      .log
      .iter()
      .filter(|l| !l.0.starts_with('@'))
      .map(|l| l.0.clone())
      .collect::<Vec<_>>()
      .join(" ");
    for c in s.covers.iter() {
      *res.covers.entry(c.clone()).or_insert(0) += 1;
    }
    let vals = v.clone();
    let t1 = Instant::now();
    let before = res.errors.len() + res.failures.len();
    let (n0, q0) = (res.nodes, res.queries);
    let e = {
      let mut c = conc::Conc::new(vm, s, v, deadline, seed, &mut res);
      c.max_nodes = max_nodes;
      c.explore()
    };
    if let Err(e) = e {
      res.errors.push(format!("{} [values {:?} {}]", e, vals, what));
    }
    if std::env::var("LSYM_CONC").is_ok() {
      eprintln!(
        "scenario {:?} {}: {} nodes {} queries {:.2}s {}",
        vals,
        what,
        res.nodes - n0,
        res.queries - q0,
        t1.elapsed().as_secs_f64(),
        if res.errors.len() + res.failures.len() > before { "!" } else { "" }
      );
    }
    if res.failures.len() >= max_failures {
      break;
    }
  }
  r.failures.extend(res.failures);
  r.errors.extend(res.errors);
  let complete = r.complete && r.errors.is_empty() && (res.closed + res.unclosed.len() as u64 == res.scenarios || !r.failures.is_empty());
  for (k, v) in res.covers {
    *r.covers.entry(k).or_insert(0) += v;
  }
  format!(
    "{{\"entry\":{},\"complete\":{},\"paths\":{},\"pruned\":{},\"forks\":{},\"scenarios\":{},\"closed\":{},\"unclosed\":{},\"nodes\":{},\"max_nodes\":{},\"runs\":{},\"rounds\":{},\"checks\":{},\"instances\":{},\"insts\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"solver_s\":{:.3},\"solver_max_s\":{:.3},\"wall_s\":{:.3},\"failures\":{},\"errors\":{},\"samples\":{},\"covers\":[{}],\"funcs\":{}}}",
    esc(entry),
    complete,
    r.paths,
    r.pruned,
    r.forks,
    res.scenarios,
    res.closed,
    arr(&res.unclosed, |s| esc(s)),
    res.nodes,
    res.max_nodes,
    res.runs,
    res.rounds,
    r.checks + res.props,
    res.instances,
    vm.insts,
    zq + res.queries,
    zs + res.sat,
    zu + res.unsat,
    zt + res.solver_s,
    if zm > res.solver_max_s { zm } else { res.solver_max_s },
    t0.elapsed().as_secs_f64(),
    arr(&r.failures, failure_json),
    arr(&r.errors, |s| esc(s)),
    arr(&res.samples, |s| format!(
      "{{\"values\":{},\"log\":{},\"sched\":{},\"marks\":{}}}",
      nums(&s.values),
      log(&s.log),
      nums(&s.sched),
      arr(&s.marks, |m| format!("[{},{},{},{}]", m[0], m[1], m[2], m[3]))
    )),
    r.covers.iter().map(|(k, v)| format!("[{},{}]", esc(k), v)).collect::<Vec<_>>().join(","),
    funcs_json(vm)
  )
}
