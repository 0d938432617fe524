#!/bin/bash
# debugging aid: run.sh ENTRY... ; compact result
cd /verif
E=""; for e in "$@"; do [[ $e == --* ]] || E="$E --entry $e"; done
F=""; for e in "$@"; do [[ $e == --* ]] && F="$F $e"; done
rm -f /tmp/o.json
engine/target/release/symx --ll ${LL:-build/hx.ll} $E $F --jobs 8 --time ${T:-300} --out /tmp/o.json >/dev/null
python3 - <<'P'
import json
d=json.load(open('/tmp/o.json'))
print("complete",d["complete"],"wall",d["wall_s"],"z3",d["z3_queries"],d["z3_s"],"dom",d["byte_domain_decided"])
for e in d["entries"]:
    print(e["entry"],{k:e[k] for k in("paths","infeasible","instrs","max_path_instrs","nfails","nerrors","checks_const","checks_solver","covers")})
    for k in("fails","errors"):
        seen={}
        for m,h in e[k]: seen.setdefault(m,[]).append(h)
        for m,h in list(seen.items())[:12]:
            print("  ",k,len(h),m); 
            for x in h[:5]: print("       ",x,bytes.fromhex(x))
P
