"""Builds the engine and the harness IR from /repo's current working tree."""
import fcntl, hashlib, os, re, shutil, subprocess, sys, time, glob
V = os.path.dirname(os.path.abspath(__file__))
B = os.path.join(V, "build")
TC = "stable-x86_64-unknown-linux-gnu"
RB = subprocess.run(["rustup", "which", "rustc", "--toolchain", TC], capture_output=True, text=True).stdout.strip() if shutil.which("rustup") else ""
SYSROOT = os.path.dirname(os.path.dirname(RB)) if RB else ""
LLBIN = os.path.join(SYSROOT, "lib/rustlib/x86_64-unknown-linux-gnu/bin")

class BuildError(Exception): pass

def env(target):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER"): e.pop(k, None)
    e.update(RUSTUP_TOOLCHAIN=TC, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=target, CARGO_TERM_COLOR="never")
    return e

def run(cmd, cwd, e, what, timeout=1500):
    r = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
    if r.returncode != 0: raise BuildError(f"{what} failed:\n{r.stdout[-2000:]}\n{r.stderr[-6000:]}")
    return r

def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isfile(p): files = [p]
        else:
            files = []
            for d, ds, fs in os.walk(p):
                ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
                files += [os.path.join(d, f) for f in sorted(fs)]
        for f in files:
            h.update(f.encode()); h.update(b"\0")
            with open(f, "rb") as fh: h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()

def repo_hash(): return tree_hash(["/repo/src", "/repo/Cargo.toml", "/repo/Cargo.lock"])

def engine():
    """The symbolic executor."""
    hsh = tree_hash([os.path.join(V, "engine", x) for x in ("src", "Cargo.toml", "Cargo.lock")])
    exe = os.path.join(B, "engine", "release", "llsym"); mark = os.path.join(B, "engine.hash")
    if os.path.exists(exe) and os.path.exists(mark) and open(mark).read() == hsh: return exe
    os.makedirs(B, exist_ok=True)
    e = env(os.path.join(B, "engine"))
    run(["cargo", "build", "--release", "--offline"], os.path.join(V, "engine"), e, "engine build")
    open(mark, "w").write(hsh)
    return exe

def touch_tree(d):
    for r, ds, fs in os.walk(d):
        for f in fs: os.utime(os.path.join(r, f))

ATOMIC = re.compile(r"^\s+(?:%\S+ = )?(?:atomicrmw |cmpxchg |store atomic |load atomic .*seq_cst)")
DEF = re.compile(r'^define .*? @(?:"([^"]*)"|([^\s(]+))\(')
def mark_sched(ll):
    """Marks where the schedule may change: a call of vh_sched before every atomic operation that can order threads (all but
    relaxed ones, reference counts and loads that are only acquire) in the functions of dump_syms, generic instances included."""
    out, inside, n = [], False, 0
    with open(ll) as f:
        for l in f:
            c = l[0]
            if c == "d" and l.startswith("define "):
                m = DEF.match(l); g = m.group(1) or m.group(2); inside = "9dump_syms" in g and "regex" not in g and "futures_util" not in g
            elif c == "}": inside = False
            elif inside and (" atomic" in l or "cmpxchg" in l) and ATOMIC.match(l) and " monotonic" not in l.split(", align")[0][-24:] and not ("atomicrmw sub" in l and "i64 1 release" in l):
                out.append("  call void @vh_sched()\n"); n += 1
            out.append(l)
    out.append("\ndeclare void @vh_sched()\n")
    with open(ll, "w") as f: f.writelines(out)
    return n

def harness():
    """Returns (ir path, native executable, info) for the current /repo tree."""
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        H = os.path.join(V, "harness")
        hsh = hashlib.sha256((repo_hash() + tree_hash([os.path.join(H, x) for x in ("src", "shim", "Cargo.toml", "native.c")])).encode()).hexdigest()
        out = os.path.join(B, "ir"); mark = os.path.join(out, "hash")
        ll, exe = os.path.join(out, "vh.ll"), os.path.join(out, "vh")
        if os.path.exists(mark) and open(mark).read() == hsh: return ll, exe, hsh
        t0 = time.time()
        shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
        # work on a copy of the harness crate so that Cargo.lock never lands in the committed tree
        W = os.path.join(B, "vh"); os.makedirs(W, exist_ok=True)
        shutil.rmtree(os.path.join(W, "src"), ignore_errors=True)
        shutil.copytree(os.path.join(H, "src"), os.path.join(W, "src")); shutil.copy(os.path.join(H, "Cargo.toml"), W)
        shutil.rmtree(os.path.join(W, "shim"), ignore_errors=True); shutil.copytree(os.path.join(H, "shim"), os.path.join(W, "shim"), copy_function=shutil.copy2)
        shutil.copy("/repo/Cargo.lock", os.path.join(W, "Cargo.lock"))
        touch_tree(os.path.join(W, "src"))
        native = os.path.join(out, "native.o")
        run(["gcc", "-O1", "-c", os.path.join(H, "native.c"), "-o", native], H, dict(os.environ), "native.c")
        tgt = os.path.join(B, "target")
        e = env(tgt); e["VH_LINK_DIR"] = os.path.join(out, "link"); e["RUSTFLAGS"] = "-C no-vectorize-loops -C no-vectorize-slp --cfg dump_syms_verif -A unexpected_cfgs"
        deps = os.path.join(tgt, "release", "deps")
        for f in glob.glob(os.path.join(deps, "vh-*")): os.remove(f)
        for d in glob.glob(os.path.join(tgt, "release", ".fingerprint", "vh-*")) + glob.glob(os.path.join(tgt, "release", ".fingerprint", "dump_syms-*")): shutil.rmtree(d)
        cargo = lambda *f: run(["cargo", "rustc", "--release", "--offline", "--bin", "vh", *f, "--", "-C", "save-temps", "-C", "linker-flavor=gcc", "-C", "linker=" + os.path.join(V, "tools", "link.sh"), "-C", "link-arg=" + native], W, e, "harness build")
        try: cargo()
        except BuildError as ex:
            # without the program (main.rs), whose harnesses then have no answer
            try: cargo("--no-default-features"); print(f"the program is left out: {str(ex)[-600:]}", file=sys.stderr)
            except BuildError: raise ex
        bcs = [f for f in glob.glob(os.path.join(deps, "vh-*.rcgu.bc")) if ".lto." not in os.path.basename(f) and ".no-opt" not in f]
        if len(bcs) != 1: raise BuildError(f"expected one LTO module, found {bcs}")
        run([os.path.join(LLBIN, "llvm-dis"), bcs[0], "-o", ll], B, dict(os.environ), "llvm-dis")
        mark_sched(ll)
        shutil.copy(os.path.join(tgt, "release", "vh"), exe)
        for f in glob.glob(os.path.join(deps, "vh-*")): os.remove(f)
        open(mark, "w").write(hsh)
        print(f"harness IR built in {time.time()-t0:.0f}s", file=sys.stderr)
        return ll, exe, hsh

def threaded(ll):
    """The native executable whose threads follow a recorded schedule: made from the marked IR itself."""
    out = os.path.dirname(ll); exe = os.path.join(out, "vh_thr")
    if os.path.exists(exe): return exe
    obj = os.path.join(out, "vh_thr.o")
    run([os.path.join(LLBIN, "llc"), "-O1", "-filetype=obj", "-relocation-model=pic", ll, "-o", obj], out, dict(os.environ), "llc")
    args = [obj if a == "@OBJ@" else a for a in open(os.path.join(out, "link", "args")).read().splitlines()]
    args[args.index("-o") + 1] = exe + ".tmp"
    run(["cc"] + args, out, dict(os.environ), "link"); os.remove(obj); os.rename(exe + ".tmp", exe)
    return exe

if __name__ == "__main__":
    try:
        print(engine()); print(harness())
    except BuildError as ex:
        print(ex, file=sys.stderr); sys.exit(2)
