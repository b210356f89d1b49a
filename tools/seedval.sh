#!/bin/bash
# seedval.sh ID...: in a scratch copy of /repo, confirms that the planted bug builds, passes the stable tests, and that its demo tells it from the unchanged tree
for id in "$@"; do
  s=$(cd "$(dirname "$0")/.." && pwd)/seeded/$id
  w=$(mktemp -d /tmp/sv.XXXXXX)
  cp -a /repo "$w/repo"
  (cd "$w/repo" && bash "$s/demo.sh" > "$w/d0" 2>&1); d0=$?
  (cd "$w/repo" && git apply "$s/patch.diff") || echo "$id: PATCH DOES NOT APPLY"
  . /opt/vp/env.sh
  (cd "$w/repo" && timeout 720 cargo test --workspace --no-fail-fast --offline -- --test-threads 1 > "$w/log" 2>&1)
  python3 /opt/vp/results.py "$w/out.json" "cargo:$w/log" > /dev/null 2>&1
  t=$(python3 - "$w/out.json" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open(sys.argv[1]))
def names(x):
    if isinstance(x,dict):
        for k in ('stable','passed','tests','passing'):
            if k in x: return names(x[k])
        return list(x)
    return list(x)
want=set(names(b)); got=set(r.get('passed',r) if isinstance(r,dict) else r)
print('tests ok' if want<=got else 'TESTS FAIL %s'%sorted(want-got)[:4])
P
)
  (cd "$w/repo" && bash "$s/demo.sh" > "$w/d1" 2>&1); d1=$?
  ok=BAD; [ $d0 -eq 0 ] && [ $d1 -ne 0 ] && [ $d1 -ne 3 ] && [ "$t" = "tests ok" ] && ok=good
  echo "$id: $ok ($t; demo unchanged=$d0 patched=$d1) $(grep -m1 panicked -A1 "$w/d1" | tr '\n' ' ' | cut -c1-160)"
  [ $ok = BAD ] && cat "$w/d0" "$w/d1" | tail -n 8
  rm -rf "$w"
done
