"""Build the symbolic IR and the native replay binary of one harness from /repo's
current source tree."""
import concurrent.futures, glob, hashlib, os, re, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("LSYM_REPO", "/repo")
CACHE = os.environ.get("LSYM_BUILD", os.path.join(VERIF, "build"))
RT = os.path.join(VERIF, "rt")


class BuildError(Exception):
    pass


def run(cmd, env=None, cwd=None):
    e = dict(os.environ)
    e.pop("RUSTFLAGS", None)
    e.pop("CARGO_ENCODED_RUSTFLAGS", None)
    if env:
        e.update(env)
    r = subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        tail = "\n".join(l for l in r.stdout.splitlines() if l.strip())[-4000:]
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), tail))
    return r.stdout


def engine():
    """The lsym binary (built offline from /verif/engine)."""
    tgt = os.path.join(CACHE, "engine")
    h = hashlib.sha256()
    for f in sorted(glob.glob(os.path.join(VERIF, "engine", "src", "*.rs"))) + [os.path.join(VERIF, "engine", "Cargo.toml")]:
        h.update(open(f, "rb").read())
    stamp = os.path.join(tgt, "stamp")
    exe = os.path.join(tgt, "release", "lsym")
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == h.hexdigest():
        return exe
    run(["cargo", "build", "--release", "--offline", "--target-dir", tgt],
        env={"RUSTUP_TOOLCHAIN": "stable"}, cwd=os.path.join(VERIF, "engine"))
    open(stamp, "w").write(h.hexdigest())
    return exe


def src_hash(extra):
    h = hashlib.sha256()
    fs = []
    for d, _, names in os.walk(os.path.join(REPO, "src")):
        fs += [os.path.join(d, n) for n in names]
    fs += [os.path.join(REPO, "Cargo.toml"), os.path.join(REPO, "README.md")]
    for f in sorted(fs) + extra:
        h.update(f.encode() + b"\0")
        h.update(open(f, "rb").read())
    return h.hexdigest()[:24]


def edition():
    t = open(os.path.join(REPO, "Cargo.toml")).read()
    m = re.search(r'^\s*edition\s*=\s*"(\d+)"', t, re.M)
    return m.group(1) if m else "2015"


def build(mod, tier="quick"):
    """Returns dict(ll=..., native=..., entries=[...], hash=...)."""
    rtf = [os.path.join(RT, f) for f in ("vstd.rs", "arc.rs", "more.rs", "vrt.rs", "vh.rs", "cat.rs", "multi.rs", "thr.rs", "timed.rs")]
    hf = os.path.join(RT, "h", mod + ".rs")
    entries = re.findall(r"pub extern \"C\" fn (h_\w+)\(\)", open(hf).read())
    key = src_hash(rtf + [hf, os.path.abspath(__file__)])
    out = os.path.join(CACHE, "ir", mod + "-" + tier + "-" + key)
    cfg = ["--cfg", "thorough"] if tier == "thorough" else []
    ll = os.path.join(out, "h.ll")
    nat = os.path.join(out, "native")
    res = dict(ll=ll, native=nat, entries=entries, hash=key, dir=out)
    if os.path.exists(os.path.join(out, "ok")):
        return res
    for old in glob.glob(os.path.join(CACHE, "ir", mod + "-" + tier + "-*")):
        shutil.rmtree(old, ignore_errors=True)
    os.makedirs(out)
    ed = edition()
    common = ["--edition", ed, "-A", "warnings"]
    lib = os.path.join(REPO, "src", "lib.rs")

    def rc(env, extra):
        run(["rustc"] + extra, env=env)

    def do_ir():
        # ---- symbolic IR (nightly, whole program, LTO) ----
        d = os.path.join(out, "ir")
        os.makedirs(d)
        nenv = {"RUSTUP_TOOLCHAIN": "nightly"}
        opt = ["-C", "opt-level=2", "-C", "panic=abort", "-C", "codegen-units=1", "-C", "no-vectorize-loops",
               "-C", "no-vectorize-slp", "-C", "debug-assertions=off", "-C", "overflow-checks=on", "-Zshare-generics=n"]
        def ir(arc):
            rc(nenv, common[:2] + ["-A", "warnings", "-C", "embed-bitcode=yes", "--crate-type", "rlib", "--crate-name", "vstd",
               os.path.join(RT, "vstd.rs"), "--out-dir", d] + opt + arc)
            std = ["--extern", "std=" + os.path.join(d, "libvstd.rlib"), "-L", d]
            rc(nenv, common + ["-C", "embed-bitcode=yes", "--crate-type", "rlib", "--crate-name", "another_rxrust", lib, "--out-dir", d] + opt + std)
            rc(nenv, ["--edition", "2021", "-A", "warnings", "-C", "embed-bitcode=yes", "--crate-type", "rlib", "--crate-name", "vh",
               os.path.join(RT, "vh.rs"), "--out-dir", d] + opt + std + cfg)
            rc(nenv, ["--edition", "2021", "-A", "warnings", "--crate-type", "staticlib", "--crate-name", "h", hf, "--out-dir", d, "--extern", "vh=" + os.path.join(d, "libvh.rlib"),
               "-C", "lto=fat", "-C", "save-temps", "--emit=link"] + opt + std + cfg)
            return std
        try:
            std = ir(["--cfg", "sym_arc"])
        except BuildError as e:
            if os.environ.get("LSYM_ARC"):
                raise
            std = ir([])  # something the stand-in for Arc does not have
        bc = glob.glob(os.path.join(d, "*lto.after-restriction.bc"))
        if not bc:
            raise BuildError("no LTO bitcode was produced")
        sysroot = run(["rustc", "--print", "sysroot"], env=nenv).strip()
        tb = os.path.join(sysroot, "lib", "rustlib", "x86_64-unknown-linux-gnu", "bin")
        g = os.path.join(d, "g.bc")
        run([os.path.join(tb, "opt"), "-passes=internalize,globaldce,mergefunc,globaldce", "-internalize-public-api-list=" + ",".join(entries), bc[0], "-o", g])
        run([os.path.join(tb, "llvm-dis"), g, "-o", ll])
        shutil.rmtree(d, ignore_errors=True)

    def do_native():
        # ---- native replay binary (stable) ----
        d = os.path.join(out, "nat")
        os.makedirs(d)
        senv = {"RUSTUP_TOOLCHAIN": "stable"}
        opt = ["-C", "opt-level=1", "-C", "debug-assertions=off", "-C", "overflow-checks=on"]
        rc(senv, ["--edition", "2021", "-A", "warnings", "--crate-type", "rlib", "--crate-name", "vstd", os.path.join(RT, "vstd.rs"), "--out-dir", d] + opt)
        rc(senv, ["--edition", "2021", "-A", "warnings", "--crate-type", "rlib", "--crate-name", "vrt", os.path.join(RT, "vrt.rs"), "--out-dir", d] + opt)
        std = ["--extern", "std=" + os.path.join(d, "libvstd.rlib"), "-L", d]
        rc(senv, common + ["--crate-type", "rlib", "--crate-name", "another_rxrust", lib, "--out-dir", d] + opt + std)
        rc(senv, ["--edition", "2021", "-A", "warnings", "--crate-type", "rlib", "--crate-name", "vh", os.path.join(RT, "vh.rs"), "--out-dir", d] + opt + std + cfg)
        rc(senv, ["--edition", "2021", "-A", "warnings", "--crate-type", "rlib", "--crate-name", "h", hf, "--out-dir", d, "--extern", "vh=" + os.path.join(d, "libvh.rlib")] + opt + std + cfg)
        main = os.path.join(d, "main.rs")
        with open(main, "w") as f:
            f.write("extern crate h; extern crate vrt;\n#[global_allocator] static A: vrt::Count = vrt::Count;\n")
            f.write("fn main() { vrt::main(&[%s]); }\n" % ", ".join('("%s", h::%s as extern "C" fn())' % (e, e) for e in entries))
        rc(senv, ["--edition", "2021", "-A", "warnings", "--crate-name", "main", main, "-L", d, "-o", nat, "--extern", "h=" + os.path.join(d, "libh.rlib"), "--extern", "vrt=" + os.path.join(d, "libvrt.rlib")] + opt)
        shutil.rmtree(d, ignore_errors=True)
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        for f in [ex.submit(do_ir), ex.submit(do_native)]:
            f.result()
    open(os.path.join(out, "ok"), "w").write("")
    return res


if __name__ == "__main__":
    import time
    t = time.time()
    print(engine())
    for m in sys.argv[1:]:
        print(build(m), "%.1fs" % (time.time() - t))
