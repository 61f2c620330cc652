#!/bin/bash
# one.sh FEATURE ENTRY [TIMEOUT] [JOBS]: explore a single entry of an already built harness (development aid)
H=$(dirname "$(dirname "$(readlink -f "$0")")")
O=$(mktemp -d)
timeout $((${3:-60}+30)) "$H/build/engine/release/symx" "$H/build/h-$1/harness.ll" --entry "$2" --out "$O" --jobs "${4:-8}" --timeout "${3:-60}" --clock-fn cur_timestamp_millis --witnesses 1 ${MAXSTEPS:+--max-steps $MAXSTEPS}
python3 - "$O" <<'P'
import json,glob,sys
ps=[json.load(open(f)) for f in glob.glob(sys.argv[1]+"/w*.json")]
print({k:sum(p[k] for p in ps) for k in ("paths","assumed_away","forks","steps","asserts","asserts_solver","queries","solver_time","incomplete")}, "slowest", max(p["slowest"] for p in ps))
m={}
for p in ps:
    for a,b in p["fork_at"].items(): m[a]=m.get(a,0)+b
for a,b in sorted(m.items(),key=lambda x:-x[1])[:8]: print("  ",b,a[-110:])
c={}
for p in ps:
    for a,b in p["covers"].items(): c[a]=c.get(a,0)+b
print(c)
for p in ps:
    for e in p["errors"][:2]: print("ERR",e[:300])
    for v in p["violations"][:1]: print("VIO",str({k:v[k] for k in v })[:900]); 
P
rm -rf "$O"
