#!/bin/bash
# dev helper: extract + verify;  run.sh [verus args]
here=$(cd "$(dirname "$0")" && pwd)
cd $here/vx && RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu cargo build --offline 2>&1 | grep -E "^error" -A9
mkdir -p /tmp/g && $here/gen.sh /tmp/g && python3 -c "
import json;m=json.load(open('/tmp/g/map.json'))
for p in m['problems']: print('PROBLEM',p['key'],p['problem'])"
cd /tmp/g && verus gen.rs --triggers-mode silent "$@" 2>&1
