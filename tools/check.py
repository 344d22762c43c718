#!/usr/bin/env python3
"""Decide one property: check.py Cxx [--tier quick|thorough]  (run in /verif).

exit 0: held on everything explored;  exit 1 + VIOLATION line: broken;  2: check error."""
import concurrent.futures, glob, json, os, re, subprocess, sys, time, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B

VERIF = B.VERIF
T0 = time.time()


def entries_of(mod):
    """Entries with their //@ key=value options."""
    out, opts = [], {}
    for line in open(os.path.join(B.RT, "h", mod + ".rs")):
        m = re.match(r"\s*//@\s*(.*)", line)
        if m:
            opts.update(kv.split("=", 1) for kv in m.group(1).split() if "=" in kv)
        m = re.match(r'\s*pub extern "C" fn (h_\w+)\(\)', line)
        if m:
            out.append((m.group(1), opts))
            opts = {}
    return out


# What the engine cannot interpret is left out, and said so, rather than judged.
LIMITS = re.compile(r"unsupported instruction|call of external function|intrinsic |not supported|recursion deeper|engine timed out|\(killed\)")


def replay(nat, entry, f, timeout=10, conc=False):
    cmd = [nat, "--entry", entry, "--values", ",".join(map(str, f["values"])),
           "--sched", ",".join(map(str, f.get("sched") or [])), "--timeout", str(timeout)] + (["--conc"] if conc else [])
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=timeout + 20)
        out, code = r.stdout, r.returncode
    except subprocess.TimeoutExpired:
        out, code = "RESULT livelock no answer", 1
    res = dict(cmd=cmd, code=code, kind="crash", msg="exit %s" % code, log=[], marks=[])
    for l in out.splitlines():
        w = l.split(" ", 2)
        if w[0] == "RESULT":
            res["kind"], res["msg"] = w[1], (w[2] if len(w) > 2 else "")
        elif w[0] == "LOG":
            res["log"].append([w[2], int(w[1])])
        elif w[0] == "MARK":
            res["marks"].append([int(x) for x in l.split()[1:]])
    return res


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else None
    limit = int(os.environ.get("LSYM_LIMIT", "780" if tier == "quick" else "14400"))
    os.environ["LSYM_TIER"] = tier
    eng = B.engine()
    mods = sorted(os.path.basename(p)[:-3] for p in glob.glob(os.path.join(B.RT, "h", prop.lower() + "*.rs")))
    if not mods:
        print("no harness for", prop)
        return 2
    known = json.load(open(os.path.join(VERIF, "known_findings.json")))
    known = [k for k in known if k["property"] == prop and k.get("status") == "open"]
    tasks, builds = [], {}
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        for mod, b in zip(mods, ex.map(lambda m: B.build(m, tier), mods)):
            builds[mod] = b
    tbuild = time.time() - T0
    for mod in mods:
        for e, o in entries_of(mod):
            if o.get("tier", "quick") == "thorough" and tier != "thorough":
                continue
            if only and not re.search(only, e):
                continue
            n = int(o.get("shards", "1"))
            if tier == "thorough":
                n = int(o.get("tshards", str(n)))
            for i in range(n):
                tasks.append((mod, e, o, i, n))
    tmp = os.path.join(B.CACHE, "run", prop + "-" + tier)
    os.makedirs(tmp, exist_ok=True)
    # longest first
    tasks.sort(key=lambda t: -float(t[2].get("cost", "1")))

    def go(t):
        mod, e, o, i, n = t
        out = os.path.join(tmp, "%s-%d.json" % (e, i))
        if os.path.exists(out):
            os.unlink(out)
        left = int(limit - (time.time() - T0))
        if left < 5:
            return None
        cmd = [eng, o.get("mode", "seq"), "--ll", builds[mod]["ll"], "--entry", e, "--time", str(left), "--seed", str(seed),
               "--out", out, "--shard", "%d/%d" % (i, n), "--max-failures", o.get("maxf", "12"), "--key-picks", o.get("key", "1")]
        if o.get("linear") != "0":
            cmd += ["--linear"]
        if "budget" in o:
            cmd += ["--budget", o["budget"]]
        if o.get("mode") == "conc":
            cmd += ["--stime", o.get("stime", "150") if tier == "quick" else o.get("tstime", "2400")]
        for k in ("nodes", "rounds", "threads"):
            if k in o:
                cmd += ["--" + k, o[k]]
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=left + 60)
        except subprocess.TimeoutExpired:
            return dict(entry=e, complete=False, errors=["engine timed out"], failures=[], samples=[], funcs=[], covers=[])
        if r.returncode != 0 or not os.path.exists(out):
            return dict(entry=e, complete=False, errors=["engine exit %d%s: %s" % (r.returncode, " (killed)" if r.returncode == -9 else "", r.stderr[-800:])], failures=[],
                        samples=[], funcs=[], covers=[])
        d = json.load(open(out))
        d["opts"], d["mod"], d["shard"] = o, mod, i
        return d

    results = []
    workers = int(os.environ.get("LSYM_JOBS", "8"))
    with concurrent.futures.ThreadPoolExecutor(workers) as ex:
        results = list(ex.map(go, tasks))
    texp = time.time() - T0 - tbuild
    errors, unclosed, covers, funcs = [], [], {}, set()
    tot = {}
    viol, knownhits = [], {}
    validated, samples, not_reproduced = 0, [], []
    jobs = []
    cut_entries = set()
    for t, d in zip(tasks, results):
        if d is None:
            unclosed.append("%s shard %d/%d: not run, out of time" % (t[1], t[3], t[4]))
            cut_entries.add(t[1])
            continue
        for x in d.get("unclosed") or []:
            unclosed.append("%s%s" % (d["entry"], x))
        for x in d["errors"]:
            if LIMITS.search(x):
                unclosed.append("%s: %s" % (d["entry"], x))
                cut_entries.add(d["entry"])
            else:
                errors.append("%s: %s" % (d["entry"], x))
        for k, v in d.items():
            if isinstance(v, (int, float)) and not isinstance(v, bool) and k not in ("shard",):
                if k.endswith("max_s") or k == "max_steps":
                    tot[k] = max(tot.get(k, 0), v)
                else:
                    tot[k] = tot.get(k, 0) + v
        if not d["complete"] and not d["failures"] and not d["errors"]:
            unclosed.append("%s shard %d/%d: out of time" % (t[1], t[3], t[4]))
            cut_entries.add(d["entry"])
        for c, n in d["covers"]:
            covers[(d["entry"], c)] = covers.get((d["entry"], c), 0) + n
        funcs.update(d["funcs"])
        for s in d["samples"]:
            jobs.append(("sample", d, s))
        for f in d["failures"]:
            jobs.append(("fail", d, f))

    def rp(j):
        k, d, f = j
        return replay(builds[d["mod"]]["native"], d["entry"], f, 4 if f.get("kind") == "livelock" else 20, d["opts"].get("mode") == "conc")

    # at most 3 failures per entry and message are replayed; samples up to 40
    seen, keep, ns = {}, [], 0
    for j in jobs:
        if j[0] == "fail":
            k = (j[1]["entry"], j[2]["msg"])
            if any(re.search(x["entry"], k[0]) for x in known):
                keep.append(j)
                continue
            seen[k] = seen.get(k, 0) + 1
            if seen[k] <= 3:
                keep.append(j)
        elif ns < 48:
            ns += 1
            keep.append(j)
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        reps = list(ex.map(rp, keep))
    for n, (j, r) in enumerate(zip(keep, reps)):
        if j[0] == "sample" and r["kind"] == "livelock":
            reps[n] = rp(j)  # no answer in time: the machine may have been busy
    rdir = os.path.join(B.CACHE, "replay")
    os.makedirs(rdir, exist_ok=True)
    for old in glob.glob(os.path.join(rdir, prop + "-*.json")):
        os.unlink(old)
    for (kind, d, f), r in zip(keep, reps):
        if kind == "sample":
            same = r["kind"] == "ok" and r["log"] == [list(x) for x in f["log"]]
            if "marks" in f and f["marks"] and same:
                same = r["marks"] == [list(x) for x in f["marks"]]
            if same:
                validated += 1
                if len(samples) < 6:
                    samples.append(dict(entry=d["entry"], values=f["values"], schedule=f.get("sched"), observed=f["log"][:40], native="same"))
            else:
                errors.append("%s: native run of a passing path differs from the model: values %s sched %s model %s native %s %s %s"
                              % (d["entry"], f["values"], f.get("sched"), f["log"], r["kind"], r["msg"], r["log"]))
        else:
            # the native program must fail too (or show the same marks, for
            # violations decided over marks by the solver)
            ok = r["code"] == 1 or (f["kind"] == "marks" and r["kind"] == "ok" and r["marks"] == [list(x) for x in f["marks"]])
            if not ok:
                not_reproduced.append("%s: %s values=%s sched=%s native: %s %s" % (d["entry"], f["msg"], f["values"], f.get("sched"), r["kind"], r["msg"]))
                continue
            hit = None
            for x in known:
                if re.search(x["entry"], d["entry"]) and re.search(x["msg"], f["msg"]) and f["values"][: len(x.get("picks", []))] == x.get("picks", []):
                    hit = x
            if hit:
                knownhits[hit["id"]] = hit
                continue
            p = os.path.join(rdir, "%s-%d.json" % (prop, len(viol)))
            json.dump(dict(property=prop, entry=d["entry"], message=f["msg"], values=f["values"], schedule=f.get("sched"),
                           model_log=f["log"], native=r, command=" ".join(r["cmd"])), open(p, "w"), indent=1)
            viol.append((p, d["entry"], f["msg"], f["values"]))
    for t, d in zip(tasks, results):
        want = t[2].get("cover")
        if want and d is not None and not d["failures"] and t[1] not in cut_entries:
            for c in want.split(","):
                if covers.get((t[1], c), 0) == 0:
                    m = "%s: cover '%s' not reached (vacuous)" % (t[1], c)
                    if m not in errors:
                        errors.append(m)
    if tot.get("paths", 0) + tot.get("scenarios", 0) == 0 and not viol:
        errors.append("nothing was explored")
    states = int(tot.get("paths", 0) + tot.get("nodes", 0))
    ev = dict(
        property=prop, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=states, transitions=int(tot.get("insts", 0)), traces_validated_against_impl=validated,
            samples=samples or [dict(note="no sample")],
            entries=sorted(set(t[1] for t in tasks)),
            paths=int(tot.get("paths", 0)), forks=int(tot.get("forks", 0)), checks=int(tot.get("checks", 0)),
            checks_needing_solver=int(tot.get("checks_solver", 0)),
            checks_decided_by_path_condition=int(tot.get("checks_true", 0)),
            interleaving_nodes=int(tot.get("nodes", 0)), interleaving_executions=int(tot.get("runs", 0)),
            interleaving_states=int(tot.get("scenarios", 0)),
            solver_queries=int(tot.get("queries", 0)), solver_sat=int(tot.get("sat", 0)), solver_unsat=int(tot.get("unsat", 0)),
            solver_s=round(tot.get("solver_s", 0), 3), solver_max_s=tot.get("solver_max_s", 0),
            functions_encoded=len(funcs), library_functions=sorted(demangle(x) for x in funcs if "another_rxrust" in x),
            covers={"%s:%s" % k: v for k, v in sorted(covers.items())},
            bounds=bounds_of(mods), exhaustive=not errors and not viol and not unclosed, scenarios_closed=int(tot.get("closed", 0)),
            scenarios_cut_by_time=unclosed,
            build_s=round(tbuild, 1), explore_s=round(texp, 1), source_hash=[builds[m]["hash"] for m in mods],
            known_findings=sorted(knownhits),
        ),
        assumptions=ASSUME, wall_s=round(time.time() - T0, 1), violations=len(viol))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    for k in known:
        if k["id"] in knownhits:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for p, e, m, v in viol:
        print("%s: %s  values=%s" % (e, m, v))
        print("VIOLATION property=%s replay=%s" % (prop, p))
    for x in unclosed:
        print("CUT " + x)
    for x in not_reproduced[:10]:
        print("NOT-REPRODUCED " + x)
    for x in errors[:20]:
        print("ERROR " + x)
    print("%s %s: paths=%d nodes=%d checks=%d queries=%d solver=%.1fs validated=%d wall=%.1fs (build %.1fs)" % (
        prop, tier, tot.get("paths", 0), tot.get("nodes", 0), tot.get("checks", 0) + tot.get("checks_true", 0), tot.get("queries", 0), tot.get("solver_s", 0), validated,
        time.time() - T0, tbuild))
    if viol:
        return 1
    if errors or not_reproduced:
        return 2
    return 0


ASSUME = [
    "Threads, locks, condition variables, atomics, clocks and HashMap are the stand-ins of rt/vstd.rs (sequentially consistent; no poisoning; no spurious wake-ups; HashMap iterates in insertion order or its reverse).",
    "Memory allocation never fails; printing has no effect.",
    "LLVM IR produced by rustc nightly (opt-level 2, LTO) from the unmodified /repo/src is the code executed symbolically; violations and sampled passing paths are replayed in a native build of the same sources.",
]


def bounds_of(mods):
    out = []
    for m in mods:
        for l in open(os.path.join(B.RT, "h", m + ".rs")):
            if l.startswith("//!"):
                out.append(l[3:].strip())
    return out


def demangle(s):
    m = re.match(r"_ZN(.*)E$", s)
    if not m:
        m2 = re.findall(r"\d+([A-Za-z_]\w*)", s)
        return s[:120]
    t, out, i = m.group(1), [], 0
    while i < len(t) and t[i].isdigit():
        j = i
        while t[j].isdigit():
            j += 1
        n = int(t[i:j])
        out.append(t[j:j + n])
        i = j + n
    return "::".join(out[:-1] if out and re.match(r"h[0-9a-f]{16}$", out[-1]) else out)[:160]


if __name__ == "__main__":
    try:
        sys.exit(main())
    except B.BuildError as e:
        print("ERROR build failed:", e)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
