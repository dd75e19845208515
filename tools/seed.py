#!/usr/bin/env python3
"""Developer tool: confirms planted bugs in a scratch copy (builds, stable tests pass, demo 0/non-0), then runs the checks against them.
usage: seed.py confirm ID... | seed.py detect ID...   (detect applies the patch to /repo and undoes it)"""
import json, os, shutil, subprocess, sys
V = "/verif"; S = "/tmp/seedscratch"
def sh(c, cwd=None, t=900): r = subprocess.run(["bash", "-c", c], cwd=cwd, capture_output=True, text=True, timeout=t); return r.returncode, r.stdout + r.stderr
def stable(): return set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
def fresh():
    if not os.path.exists(S): sh(f"cp -a /repo {S}")
    sh(f"git -C {S} checkout -q -- . && git -C {S} fetch -q /repo && git -C {S} reset -q --hard $(git -C /repo rev-parse HEAD)")
def build(): return sh(f". /opt/vp/env.sh; unset CARGO_TARGET_DIR; cargo build --offline && cargo test --no-run --offline", S)
def demo(i): 
    d = "/tmp/seeddemo"; shutil.rmtree("/tmp/seeddemo", ignore_errors=True); shutil.copytree(f"{V}/seeded/{i}", d)
    r = sh(f"bash {d}/demo.sh", S, 300); shutil.rmtree("/tmp/seeddemo", ignore_errors=True); return r
def confirm(ids):
    fresh(); rc, o = build(); assert rc == 0, o[-2000:]
    base = {i: demo(i) for i in ids}
    for i in ids:
        fresh(); rc, o = sh(f"git -C {S} apply {V}/seeded/{i}/patch.diff")
        if rc: print(i, "PATCH FAILS", o); continue
        rc, o = build()
        if rc: print(i, "BUILD FAILS", o[-1500:]); continue
        rc, o = sh(". /opt/vp/env.sh; unset CARGO_TARGET_DIR; cargo test --no-fail-fast --offline -- --test-threads 8", S)
        ok = {l.split()[1] for l in o.splitlines() if l.startswith("test ") and l.endswith("... ok")}
        bad = [t for t in stable() if t.split(" ")[-1].split("::",0)[-1] not in ok and not any(t.endswith(x) for x in ok)]
        d = demo(i)
        print(i, "OK" if not bad and base[i][0] == 0 and d[0] != 0 else "REJECT", f"demo base {base[i][0]} patched {d[0]} failing {bad}", "" if base[i][0] == 0 else base[i][1][-500:], flush=True)
    fresh()
def detect(ids):
    for i in ids:
        m = json.load(open(f"{V}/seeded/{i}/meta.json"))
        try:
            assert sh(f"git -C /repo apply {V}/seeded/{i}/patch.diff")[0] == 0
            ps = [m["property"]] + (sys.argv[3:] if False else [])
            for p in ps:
                rc, o = sh(f"python3 {V}/check.py {p} quick", V)
                print(i, p, {0: "MISSED", 1: "caught"}.get(rc, f"ERROR {rc}"), "|", " / ".join(l for l in o.strip().splitlines()[-3:])[:300], flush=True)
        finally: sh("git -C /repo checkout -- .")
{"confirm": confirm, "detect": detect}[sys.argv[1]](sys.argv[2:])
