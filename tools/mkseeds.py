#!/usr/bin/env python3
"""writes ../seeded/<id>/ (patch.diff, demo.sh, main.rs, meta.json) from the definitions in seeds/*.py"""
import glob, json, os, subprocess, sys, tempfile, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(HERE), "seeded")
PRE = open(os.path.join(HERE, "seeds", "pre.rs")).read()
DEMO = '''#!/bin/bash
# builds main.rs against the crate in the current directory and runs it; exit 0 = the property held
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
aj_core = { path = "$repo/aj_core" }
actix = "0.13"
actix-rt = "2"
async-trait = "0.1"
serde = { version = "1", features = ["derive"] }
serde_json = "1"
chrono = "0.4"
[profile.dev]
debug = false
T
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_TARGET_DIR="$d/target"
unset RUSTFLAGS
cd "$d" && cargo build --offline -q 2> "$d/log" || { cat "$d/log"; exit 3; }
timeout 100 "$d/target/debug/demo"
rc=$?
[ $rc -eq 0 ] && echo "demo: property held" || echo "demo: property broken ($rc)"
exit $rc
'''
def main(only):
    seeds = []
    for f in sorted(glob.glob(os.path.join(HERE, "seeds", "*.py"))):
        ns = {}
        exec(compile(open(f).read(), f, "exec"), ns)
        seeds += ns["SEEDS"]
    for s in seeds:
        if only and s["id"] not in only:
            continue
        d = os.path.join(OUT, s["id"])
        os.makedirs(d, exist_ok=True)
        t = tempfile.mkdtemp()
        for k in ("a", "b"):
            subprocess.run("cd %s && mkdir %s && git -C /repo archive HEAD | tar -x -C %s" % (t, k, k), shell=True, check=True)
        for path, old, new in s["edits"]:
            p = os.path.join(t, "b", path)
            x = open(p).read()
            assert x.count(old) == 1, (s["id"], path, x.count(old), old)
            open(p, "w").write(x.replace(old, new))
        r = subprocess.run(["git", "diff", "--no-index", "--no-color", "a", "b"], cwd=t, stdout=subprocess.PIPE).stdout.decode()
        r = r.replace("a/a/", "a/").replace("b/b/", "b/")
        open(os.path.join(d, "patch.diff"), "w").write(r)
        shutil.rmtree(t)
        open(os.path.join(d, "main.rs"), "w").write(s["demo"] if s["demo"].startswith("//!") else PRE + s["demo"])
        open(os.path.join(d, "demo.sh"), "w").write(DEMO.replace("actix = ", "aj = { path = \"$repo/aj\" }\nactix = ", 1) if s["prop"] == "C19" else DEMO)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        print(s["id"])
main(sys.argv[1:])
