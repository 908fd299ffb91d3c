#!/bin/bash
# developer helper: run.sh "C08 C09" quick
cd /verif/harness; for pr in release checked; do cargo build --offline --profile $pr 2>&1 | grep -E "^(error|warning: unused)" -A7; done
for p in $1; do for pr in release checked; do echo "== $p $pr"; timeout 900 ./target/$pr/mc run $p ${2:-quick} 1 800 "$3" 2>&1 | python3 -c "
import sys,json
for l in sys.stdin:
    try: d=json.loads(l)
    except: print(l[:2000]); continue
    print({k:d[k] for k in ('jobs','jobs_done','states','transitions','replayed','distinct_outcomes_at_least','capped','wall_s','known')})
    for v in d['violations']: print('   VIOL',v['job'],'|',v['case'][:300],'|',v['what'][:400],v['reproduced'])
"; done; done
