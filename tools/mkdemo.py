#!/usr/bin/env python3
"""Developer tool: turns a counterexample into a stand-alone demonstration (input files + expected output of the unchanged tool).
usage: mkdemo.py ID ENTRY INPUTS 'ARGS'   (ARGS: extra dump_syms arguments; the input files are appended)"""
import glob, os, subprocess, sys
i, ent, inp, args = sys.argv[1:5]
d = f"/verif/seeded/{i}"
os.makedirs("/tmp/vhfs", exist_ok=True)
for f in glob.glob(d + "/in*"): os.remove(f)
subprocess.run(["/verif/build/ir/vh", ent], env={"VH_INPUTS": inp, "VH_SAVE": "/tmp/vhfs/in", "VH_TIER": "0", "PATH": "/usr/bin:/bin", "HOME": "/tmp/vhfs"}, capture_output=True)
os.system(f"mv /tmp/vhfs/in* {d}/; rm -rf /tmp/vhfs")
n = len(glob.glob(d + "/in*")); files = " ".join(f"in{k}" for k in range(n)); assert n
open(d + "/demo.sh", "w").write(f"""#!/bin/bash
# dumps the input files beside this script and compares with what a correct dump_syms prints
D=$(cd "$(dirname "$0")" && pwd); B=$PWD/target/debug/dump_syms
W=$(mktemp -d) && cp "$D"/in* "$W" && cd "$W" || exit 99
timeout 60 "$B" --no-generator {args} {files} > out.sym 2> err.txt; rc=$?
diff -u "$D/expected.sym" out.sym; e=$?
cd / && rm -rf "$W"
[ $rc -eq 0 ] && [ $e -eq 0 ]
""")
subprocess.run(["bash", "-c", f"cd {d} && /repo/target/debug/dump_syms --no-generator {args} {files} > expected.sym"])
print(open(d + "/expected.sym").read())
