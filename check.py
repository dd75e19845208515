#!/usr/bin/env python3
"""check.py <property> [quick|thorough]  -- decides one property by symbolic execution of the real code.

Exit 0: the solver discharged every assertion on every path within the bounds.
Exit 1: a counterexample was found, reproduced natively, and is reported as VIOLATION.
Other : the check itself failed (build, unsupported construct, solver or wall limit, non-reproducing model)."""
import glob, json, os, re, shutil, subprocess, sys, tempfile, time
import build, props
V = build.V

def demangle_short(n):
    m = re.findall(r"\d+([A-Za-z_][A-Za-z0-9_]*)", n)
    return "::".join(x for x in m if x)[:120] if n.startswith("_R") or n.startswith("_ZN") else n

def native(exe, entry, inputs, tier, timeout=120):
    """Replays recorded inputs against the natively compiled harness; returns (kind, text)."""
    root = "/tmp/vhfs"
    shutil.rmtree("/tmp/vhfs", ignore_errors=True); os.makedirs(root)
    e = {"PATH": "/usr/bin:/bin", "HOME": "/tmp/vhfs/home", "VH_INPUTS": inputs, "VH_TIER": str(tier), "RUST_BACKTRACE": "0"}
    try:
        r = subprocess.run([exe, entry], cwd=root, env=e, capture_output=True, timeout=timeout)
    except subprocess.TimeoutExpired: return "timeout", ""
    finally: shutil.rmtree("/tmp/vhfs", ignore_errors=True)
    t = r.stderr.decode("utf8", "replace")
    if r.returncode == 0: return "ok", t
    if r.returncode == 101: return "assert", t
    if r.returncode == -6: return "panic", t
    if r.returncode == 42: return "hang", t
    if r.returncode < 0: return "crash", t
    return f"rc{r.returncode}", t

def main():
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    P = props.PROPS[prop]; seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tn = 1 if tier == "thorough" else 0
    t0 = time.time()
    try:
        eng = build.engine(); ll, exe, hsh = build.harness()
    except build.BuildError as ex:
        print(f"ERROR build: {ex}"); return 2
    tb = time.time() - t0
    jobs = int(os.environ.get("VERIF_JOBS", "8"))
    entries = list(P["quick"]) + (list(P.get("thorough", [])) if tn else [])
    tot = dict(paths=0, done=0, infeasible=0, allowed_panics=0, forks=0, instrs=0, asserts=0, sym_branches=0, queries=0, sat=0, unsat=0, cache_hits=0, solver_s=0.0, max_query_s=0.0)
    fns, per, samples, errors, viol, validated = set(), [], [], [], [], 0
    known = [k for k in json.load(open(os.path.join(V, "known-findings.json"))).get("known", []) if k["property"] == prop]
    budget = 3400 if tn else 780
    thr = None
    if any(e in props.THREADS for e in entries):
        import concurrent.futures as cf
        thr = cf.ThreadPoolExecutor(1).submit(build.threaded, ll)
    for ent in entries:
        out = tempfile.mkdtemp(prefix="llsym.")
        te = time.time()
        left = int(budget - (time.time() - t0))
        if left < 10: errors.append(f"{ent}: no time left"); break
        r = subprocess.run([eng, "--ir", ll, "--entry", ent, "--out", out, "--jobs", str(jobs), "--wall", str(left), "--tier", str(tn)], capture_output=True, text=True)
        try: ex = thr.result() if ent in props.THREADS else exe
        except build.BuildError as e: print(f"ERROR build: {e}"); return 2
        reach = {}; d = dict(entry=ent, wall_s=round(time.time() - te, 1), paths=0, queries=0, unsat=0, solver_s=0.0)
        for f in glob.glob(out + "/stats.jsonl"):
            for l in open(f):
                s = json.loads(l)
                for k in tot: tot[k] = max(tot[k], s[k]) if k == "max_query_s" else tot[k] + s[k]
                for k in ("paths", "queries", "unsat", "solver_s"): d[k] += s[k]
                for k, v in s["reach"].items(): reach[k] = reach.get(k, 0) + v
                fns.update(demangle_short(x) for x in s["functions"])
                errors += [f"{ent}: {x}" for x in s["errors"]]
        d["reach"] = reach; d["solver_s"] = round(d["solver_s"], 2); per.append(d)
        if r.returncode == 1:
            for j in sorted(glob.glob(out + "/violation.*.json"))[:4]:
                v = json.load(open(j)); inp = j[:-5] + ".inputs"
                for _ in range(props.RETRY.get(ent, 1)):
                    k, t = native(ex, ent, inp, tn)
                    if k != "ok": break
                okk = (v["kind"] == k) or (v["kind"] == "memory" and k in ("crash", "panic")) or (v["kind"] == "hang" and k in ("hang", "timeout"))
                rd = os.path.join(V, "evidence", "replay", prop); os.makedirs(rd, exist_ok=True)
                rp = os.path.join(rd, ent + ".inputs"); shutil.copy(inp, rp)
                shutil.copy(j, rp[:-7] + ".json")
                msg = t.strip().splitlines()[-1] if t.strip() else ""
                if okk: viol.append((ent, v, rp, msg)); break
                errors.append(f"{ent}: counterexample '{v['kind']}: {v['msg'][:200]}' does not reproduce natively ({k}: {msg[:200]})")
        elif r.returncode == 4: errors.append(f"{ent}: wall limit")
        elif r.returncode != 0: errors.append(f"{ent}: engine exit {r.returncode}: {r.stderr[-600:]}")
        else:
            for w in props.REACH.get(ent, ["end"]):
                if not reach.get(w): errors.append(f"{ent}: vacuous, witness '{w}' never reached")
            for sf in sorted(glob.glob(out + "/sample.*.txt"))[: (24 if tn else 6)]:
                k, t = native(ex, ent, sf, tn)
                if k == "ok" or (k == "panic" and ent in props.MAY_PANIC): validated += 1
                else: errors.append(f"{ent}: translation disagreement on a sampled path ({k}): {t[-300:]}")
                if len(samples) < 6: samples.append({"entry": ent, "inputs": open(sf).read().splitlines()[:30]})
        shutil.rmtree(out, ignore_errors=True)
        if viol: break
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": tot["paths"], "transitions": tot["sym_branches"] + tot["forks"], "traces_validated_against_impl": validated, "samples": samples or ["none"],
                       "entries": per, "instructions_executed_symbolically": tot["instrs"], "assertions_checked": tot["asserts"],
                       "queries": tot["queries"], "queries_unsat": tot["unsat"], "queries_sat": tot["sat"], "solver_s": round(tot["solver_s"], 2), "max_query_s": tot["max_query_s"],
                       "functions_encoded": sorted(fns), "functions_encoded_count": len(fns), "bounds": P["bounds"], "outside": P.get("outside", ""), "build_s": round(tb, 1), "source_hash": hsh},
          "assumptions": P.get("assumptions", []) + props.COMMON_ASSUMPTIONS, "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    for k in known: print(f"KNOWN-FINDING: property={prop} {k['what']}")
    for ent, v, rp, msg in viol:
        print(f"{ent}: {v['kind']}: {v['msg']}\n  native: {msg}")
        print(f"VIOLATION property={prop} replay={rp}")
    if viol: return 1
    if errors:
        for x in errors: print("ERROR", x)
        return 3
    print(f"OK {prop} ({tier}): {len(entries)} harnesses, {tot['paths']} paths, {tot['queries']} solver queries ({tot['unsat']} unsat), solver {tot['solver_s']:.1f}s, {validated} paths replayed natively, {time.time()-t0:.0f}s")
    return 0

if __name__ == "__main__": sys.exit(main())
