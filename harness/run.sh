#!/bin/bash
# development aid: build and run the given properties, print a summary
cd "$(dirname "$0")"; ./build.sh 2>&1 | grep -E "^error" -A12 | head -60
for p in "$@"; do /usr/bin/time -f "$p %es %MK" ../build/harness/debug/verif-harness $p $T --seed ${SEED:-1} --out /tmp/o_$p.json; python3 - $p <<'E'
import json,sys
d=json.load(open('/tmp/o_%s.json'%sys.argv[1])); print(d['evaluations'],d['distinct'],d['per_check'])
for v in d['violations']: print("  VIOL",v['check'],v['index'],v['input'][:300],'|',v['message'][:300])
E
done
