#!/bin/bash
# developer helper: build and run oracle suites, print a summary
cd /verif/orc && cargo build --offline --release 2>&1 | grep -E "^(error|warning: unused)" -A8 | head -60
for p in $1; do timeout 900 ./target/release/orc run $p --all "${@:2}" | python3 -c "
import sys,json
d=json.load(sys.stdin)
for s in d['suites']: print(s['name'],s['cases'],s['distinct'],s['exhausted'],s['exhaustive_cases'])
for f in d['failures']: print('  FAIL',f['suite'],f['key'],'|',f['msg'][:400],'|',f['case'][:500])
print(d['wall_s'],'expired',d['expired'])"; done
