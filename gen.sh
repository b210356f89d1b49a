#!/bin/bash
# gen.sh OUTDIR : extract /repo into OUTDIR/gen.rs
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=$1; repo=${REPO:-/repo}
"$here/vx/target/debug/vx" "$repo" "$here/contracts" "$out/body.rs" "$out/map.json"
cat "$here"/contracts/prelude.rs "$here"/contracts/prelude_*.rs "$here"/contracts/specs_*.rs "$here"/contracts/lemmas*.rs "$out/body.rs" "$here/contracts/tail.rs" > "$out/gen.rs"
