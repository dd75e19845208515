#!/bin/bash
# developer helper: run one harness entry and show its statistics
cd /verif && python3 build.py >/dev/null || exit 2
rm -rf /tmp/o; mkdir -p /tmp/o
time build/engine/release/llsym --ir build/ir/vh.ll --entry $1 --out /tmp/o --jobs 8 "${@:2}"; echo "exit $?"
python3 - <<'P'
import json,glob
t={}
r={}
for l in open('/tmp/o/stats.jsonl'):
    s=json.loads(l)
    for k in ('paths','done','infeasible','allowed_panics','instrs','asserts','queries','unsat','solver_s','conc_forks'): t[k]=t.get(k,0)+s[k]
    for k,v in s['reach'].items(): r[k]=r.get(k,0)+v
    for e in s['errors']: print('ERR',e[:600])
print(t,r)
for f in glob.glob('/tmp/o/violation*.json'): print(open(f).read()[:900]); print(open(f[:-5]+'.inputs').read())
P
