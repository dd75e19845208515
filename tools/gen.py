#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from this catalogue and props.py (developer tool)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import props
C = []
def P(id, title, statement, over, quant, why, files, mech, observe=()):
    C.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": quant}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech], "observe_at": list(observe), "hook_needed": None}})
exec(open(os.path.join(V, "tools", "catalogue.py")).read()) if os.path.exists(os.path.join(V, "tools", "catalogue.py")) else None
C.sort(key=lambda p: p["id"])
NA = globals().get("NA", [])
open(os.path.join(V, "properties.jsonl"), "w").write("".join(json.dumps(p) + "\n" for p in C))
claimed = [p for p in C if p["id"] in props.PROPS]
man = {"version": 1, "setup_cmd": "python3 build.py", "checks": [{"property": p["id"], "quick_cmd": f"python3 check.py {p['id']} quick", "thorough_cmd": f"python3 check.py {p['id']} thorough", "evidence_file": f"evidence/{p['id']}.json",
  "technique": "bounded symbolic execution of the compiled (LLVM IR) dump_syms code with an SMT solver (z3); counterexamples replayed natively",
  "level": "model_checking", "level_note": "all paths and all values within: " + props.PROPS[p["id"]]["bounds"] + ". Trusted: rustc's IR, the llsym executor and its models of libc/file system, z3, the harness oracle; sampled paths are replayed against the native build."} for p in claimed],
  "not_applicable": [{"property": p["id"], "reason": dict(NA)[p["id"]]} for p in C if p["id"] not in props.PROPS],
  "notes": "no hooks in /repo: everything is reached through the crate's public API."}
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
