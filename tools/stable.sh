#!/bin/bash
# stable.sh [DIR] : builds DIR (default /repo) and reports whether every stable test passes
. /opt/vp/env.sh
cd "${1:-/repo}" || exit 2
log=$(mktemp); out=$(mktemp)
cargo test --workspace --no-fail-fast --offline -- --test-threads 8 >"$log" 2>&1
python3 /opt/vp/results.py "$out" "cargo:$log" >/dev/null
python3 - "$out" <<'P'
import json,sys
r=json.load(open(sys.argv[1])); st=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
bad=st-set(r['passed'])
print('stable tests: %d of %d pass'%(len(st)-len(bad),len(st)), *sorted(bad), sep='\n  ')
sys.exit(1 if bad else 0)
P
rc=$?
rm -f "$log" "$out"
exit $rc
