#!/usr/bin/env python3
"""refac.py [ID...]: behaviour-preserving edits on a copy of /repo; each must compile and stay provable.
Prints per edit: proved | demoted (functions the verifier cannot take) | ALARM (obligations that fail)."""
import json, os, re, shutil, subprocess, sys, concurrent.futures as cf
Q, J, JC, R, M, RD, A, P, PJ, T, U, E, L = ("queue.rs", "job/mod.rs", "job/job_context.rs", "job/retry.rs", "backend/mem.rs", "backend/redis.rs", "aj.rs",
    "plugin/mod.rs", "plugin/job_plugin.rs", "backend/types.rs", "util/mod.rs", "job/executable.rs", "lib.rs")
X = {}
REPO = os.environ.get("REPO", "/repo")
def r(id, *edits): X[id] = edits
for f in ("refacs.py", "refacs2.py", "refacs3.py", "refacs4.py", "refacs5.py"):
    exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), f)).read())
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")
def one(id):
    d = "/tmp/refac/" + id
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + "/g")
    subprocess.run(["cp", "-a", REPO + "/aj_core", REPO + "/aj_macro", REPO + "/aj", REPO + "/Cargo.lock", REPO + "/examples", REPO + "/Cargo.toml", d], check=True)
    for f, a, b in X[id]:
        if f[0] == "+":
            open(d + "/aj_core/src/" + f[1:], "w").write(b)
            continue
        p = d + "/aj_core/src/" + f
        s = open(p).read()
        if s.count(a) != 1:
            return id, "BAD-EDIT %d matches: %s" % (s.count(a), a[:50])
        open(p, "w").write(s.replace(a, b))
    if "--nocargo" not in sys.argv:
        c = subprocess.run(["cargo", "check", "--offline", "-q", "-p", "aj_core"], cwd=d, env=dict(ENV, CARGO_TARGET_DIR="/tmp/refac/target" ), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if c.returncode:
            return id, "DOES-NOT-COMPILE\n" + c.stdout.decode()[-1500:]
    g = subprocess.run(["bash", HERE + "/gen.sh", d + "/g"], env=dict(ENV, REPO=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if g.returncode:
        return id, "GEN " + g.stdout.decode()[-500:]
    m = json.load(open(d + "/g/map.json"))
    dem = [p["key"] + ": " + p["problem"] for p in m["problems"]]
    v = subprocess.run(["verus", "gen.rs", "--triggers-mode", "silent", "--rlimit", "40", "--num-threads", "4"], cwd=d + "/g", stdout=subprocess.PIPE, stderr=subprocess.STDOUT).stdout.decode()
    errs = [l.strip() for l in v.splitlines() if l.startswith("error") or "//@c" in l or re.match(r"^\s+--> gen.rs", l)]
    ok = "0 errors" in v
    if ok and not dem:
        shutil.rmtree(d, ignore_errors=True)
        return id, "proved"
    if ok:
        return id, "demoted " + "; ".join(dem)
    soft = m.get("soft", {})
    cur, fn = None, {}
    for i, l in enumerate(open(d + "/g/gen.rs"), 1):
        x = re.match(r"\s*//@fn (.*) \S+$", l)
        cur = x.group(1) if x else cur
        fn[i] = cur
    bad = []
    for b in re.split(r"\n(?=error)", v)[1:]:
        if b.startswith("error: aborting"):
            continue
        got = [fn.get(int(x)) for x, l in re.findall(r"^(\d+) \|(.*)$", b, re.M) if "//@c" not in l and re.search(r"[|\s]", l)]
        bad.append(next((g for g in reversed(got) if g), None))
    if soft and all(b in soft for b in bad):
        return id, "soft " + "; ".join(soft.values())
    hard = "verification results" not in v
    return id, ("VERUS-REJECTS " if hard else "ALARM ") + "; ".join(dem) + "\n    " + "\n    ".join(x[:200] for x in errs[:14])
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or list(X)
os.makedirs("/tmp/refac", exist_ok=True)
with cf.ThreadPoolExecutor(3) as ex:
    for id, t in ex.map(one, ids):
        print("%-24s %s" % (id, t), flush=True)
