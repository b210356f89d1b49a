#!/usr/bin/env python3
"""check.py PROPERTY|all quick|thorough

Decides a property of /repo's current working tree:
  1. vx extracts the functions of /repo and their contracts into one Verus file;
  2. verus discharges every obligation (function by function, unbounded);
  3. the replay harness runs the real crate against a reference model: it looks for a
     failing input when an obligation fails, and covers what the proof leaves assumed.
Exit 0: holds; exit 1 with a VIOLATION line: broken.  See DESIGN.md.
"""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("REPO", "/repo")
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true")
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR"):
    ENV.pop(k, None)
BINS = {  # bounded harness programs per property
    "C01": ["be"], "C02": ["be"], "C03": ["be", "wq"], "C15": ["be"], "C04": ["wq"],
    "C05": ["wq", "ajl"], "C06": ["wq", "ajl"], "C07": ["wq", "ajl"], "C08": ["wq", "ajl"],
    "C09": ["wq"], "C10": ["wq"], "C11": ["wq", "ajl"], "C12": ["wq", "ajl"], "C13": ["wq", "ajl"],
    "C14": ["wq", "ajl"], "C16": ["ajl"], "C17": ["ajl"], "C18": ["wq", "ajl"], "C19": ["mac"], "C20": ["start"],
    "C21": ["wq", "ajl"],
}


def sh(cmd, cwd=None, timeout=600, env=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env or ENV, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode("utf8", "replace"), (e.stderr or b"").decode("utf8", "replace")


# ---------------------------------------------------------------- proof
class Proof:
    def __init__(self):
        self.available = False
        self.why = ""
        self.errors = []        # {props, key, what, text}
        self.undecided = {}     # function key -> reason (demoted, rlimit)
        self.functions = []
        self.map = {}
        self.verified = 0
        self.nerrors = 0
        self.smt_ms = 0
        self.wall = 0.0
        self.clauses = {}       # prop -> set of clauses
        self.assumptions = []
        self.vacuity = None
        self.cmd = ""
        self.version = ""


def expand(work):
    """C19: rustc expands the programs of macros/ with /repo's macros; one file per job type"""
    out = os.path.join(work, "expanded")
    os.makedirs(out, exist_ok=True)
    d = os.path.join(HERE, "macros")
    env = dict(ENV, CARGO_TARGET_DIR=os.path.join(HERE, "replay/target"), RUSTC_WORKSPACE_WRAPPER=os.path.join(d, "wrap.sh"))
    rc, o, e = sh(["cargo", "rustc", "-q", "--lib", "--offline", "--", "-Zunpretty=expanded"], cwd=d, env=env, timeout=600)
    if rc != 0:
        return None, "the programs that use the macros are not expanded: " + e[-600:]
    with open(os.path.join(work, "expanded.rs"), "w") as f:
        f.write(o)
    rc, o, e = sh([os.path.join(HERE, "vx/target/debug/vx"), "expand", os.path.join(work, "expanded.rs"), out], timeout=120)
    if rc != 0:
        return None, "the expansion is not read: " + e[-400:]
    return out, o.strip()


def generate(out, demote, vacuity=False, extra=None):
    os.makedirs(out, exist_ok=True)
    env = dict(ENV, VX_DEMOTE=";".join(sorted(demote)))
    env.pop("VX_EXTRA", None)
    if extra:
        env["VX_EXTRA"] = extra
    if vacuity:
        env["VX_VACUITY"] = "1"
    body, mp = os.path.join(out, "body.rs"), os.path.join(out, "map.json")
    rc, o, e = sh([os.path.join(HERE, "vx/target/debug/vx"), REPO, os.path.join(HERE, "contracts"), body, mp], env=env, timeout=120)
    if rc != 0:
        return None, "extraction failed: " + (e or o)[-600:]
    c = os.path.join(HERE, "contracts")
    names = sorted(os.listdir(c))
    parts = ["prelude.rs"] + [n for n in names if re.match(r"prelude_.*\.rs$", n)] + [n for n in names if re.match(r"specs_.*\.rs$", n)] + [n for n in names if re.match(r"lemmas.*\.rs$", n)]
    gen = os.path.join(out, "gen.rs")
    with open(gen, "w") as f:
        for n in parts:
            f.write(open(os.path.join(c, n)).read())
        f.write(open(body).read())
        f.write(open(os.path.join(c, "tail.rs")).read())
    return gen, json.load(open(mp))


def verus(gen, extra=(), timeout=600):
    if "--multiple-errors" not in extra:
        extra = list(extra) + ["--multiple-errors", "30"]
    cmd = ["verus", os.path.basename(gen), "--triggers-mode", "silent", "--output-json", "--time", "--error-format=json"] + list(extra)
    rc, o, e = sh(cmd, cwd=os.path.dirname(gen), timeout=timeout)
    diags = []
    for l in e.splitlines():
        try:
            d = json.loads(l)
        except ValueError:
            continue
        if d.get("level") == "error" and d.get("spans"):
            diags.append(d)
        elif d.get("level") == "error" and "aborting" not in d.get("message", ""):
            diags.append(d)
    res = None
    i = o.find("{")
    if i >= 0:
        try:
            res = json.loads(o[i:])
        except ValueError:
            res = None
    return rc, res, diags, e, " ".join(cmd)


class Lines:
    """which function and which contract clause a line of the generated file belongs to"""

    def __init__(self, gen):
        self.fn, self.clause, self.vac = {}, {}, {}
        cur = None
        self.text = open(gen).read().split("\n")
        for i, l in enumerate(self.text, 1):
            m = re.match(r"\s*//@fn (.*) \S+$", l)
            if m:
                cur = m.group(1)
            if cur:
                self.fn[i] = cur
            if re.match(r"\s*//@endfn", l):
                cur = None
            m = re.search(r"//@c (.*)\|(\w+)\|(\d+)\|(.*)$", l)
            if m:
                self.clause[i] = (m.group(1), m.group(2), int(m.group(3)), [x for x in m.group(4).split(",") if x])
            m = re.search(r"//@vac (.*)$", l)
            if m:
                self.vac[i] = m.group(1)

    def fns(self, d):
        out = []
        for s in d.get("spans", []):
            for n in range(s["line_start"], s["line_end"] + 1):
                if n in self.fn:
                    out.append(self.fn[n])
                    break
        return out


SEMANTIC = ("postcondition not satisfied", "precondition not satisfied", "invariant not satisfied", "assertion failed",
            "possible arithmetic", "possible division", "possible bit shift", "decreases not satisfied", "could not prove termination",
            "requires not satisfied", "ensures not satisfied", "constructed value may fail", "failed", "possible overflow", "unable to prove", "not satisfied", "recommendation")


def prove(work, thorough, extra=None):
    t0 = time.time()
    p = Proof()
    demote = set()
    for attempt in range(10):
        gen, mp = generate(os.path.join(work, "p%d" % attempt), demote, extra=extra)
        if gen is None:
            p.why = mp
            return p
        rc, res, diags, raw, p.cmd = verus(gen)
        ln = Lines(gen)
        vr = (res or {}).get("verification-results", {})
        fnprops = {f["key"]: [x for x in f["props"].split(",") if x] for f in mp["functions"]}
        if "verified" in vr and not vr.get("encountered-vir-error") and (vr["verified"] + vr["errors"] > 0):
            break
        # the front end rejects something: take the functions concerned out of the proof
        new = set()
        for d in diags:
            for k in ln.fns(d)[:1]:
                if k not in demote:
                    new.add(k)
        if not new:
            p.why = "the generated file is rejected: " + "; ".join(d.get("message", "") for d in diags)[:500] + raw[-300:]
            return p
        demote |= new
    else:
        p.why = "the generated file keeps being rejected"
        return p
    if any("resource limit" in d.get("message", "").lower() for d in diags):
        # once more with four times the resources before giving a function up
        again = verus(gen, ["--rlimit", "40", "--multiple-errors", "5"], timeout=240)
        vr2 = (again[1] or {}).get("verification-results", {})
        if vr2.get("verified", 0) + vr2.get("errors", 0) > 0 and not vr2.get("encountered-vir-error"):
            rc, res, diags, raw, p.cmd = again
            vr = vr2
    p.available = True
    p.gen = gen
    p.map = mp
    p.functions = mp["functions"]
    p.verified, p.nerrors = vr["verified"], vr["errors"]
    p.version = (res.get("verus") or {}).get("version", "")
    p.smt_ms = res.get("times-ms", {}).get("smt", {}).get("smt-run", 0)
    for x in mp["problems"]:
        p.undecided[x["key"]] = x["problem"]
    for i, (k, kind, n, labels) in ln.clause.items():
        if kind == "requires":
            continue
        for l in labels:
            p.clauses.setdefault(l, set()).add((k, kind, n))
    for d in diags:
        msg = d.get("message", "")
        fns = ln.fns(d)
        prim = [s for s in d.get("spans", []) if s.get("is_primary")] or d.get("spans", [])
        # the function being verified: where a clause of another function is pointed at, it is the other span
        cl = [(s, ln.clause[n]) for s in d.get("spans", []) for n in range(s["line_start"], s["line_end"] + 1) if n in ln.clause]
        body = [ln.fn[n] for s in d.get("spans", []) for n in [s["line_start"]] if n in ln.fn and n not in ln.clause]
        key = body[0] if body else (fns[0] if fns else None)
        text = d.get("rendered") or msg
        if "rlimit" in msg.lower() or "resource limit" in msg.lower() or "timed out" in msg.lower() or "solver" in msg.lower() and "unknown" in msg.lower():
            p.undecided[key or "?"] = "rlimit: " + msg
            continue
        if key is None:
            # a lemma of the library, independent of /repo: undecided, never an alarm
            p.undecided["library: " + msg] = text[:400]
            continue
        labels = None
        if "precondition" not in msg and cl:
            ck = cl[0][1]
            if ck[0].split("#")[0] == key:
                labels = ck[3]
        if not labels:
            labels = fnprops.get(key, [])
        if key in mp.get("soft", {}):
            # the annotations were written for other loops: a failed proof decides nothing about this code
            p.undecided[key] = "lost-anchor: " + mp["soft"][key]
            continue
        p.errors.append({"props": labels, "key": key, "what": msg, "clause": "%s %s %d" % cl[0][1][:3] if cl else "", "text": text})
    scan_assumptions(p, ln)
    if True:
        gen2, mp2 = generate(os.path.join(work, "vac"), demote, vacuity=True, extra=extra)
        if gen2:
            rc, res2, diags2, _, _ = verus(gen2)
            l2 = Lines(gen2)
            want = set(l2.vac.values())
            got = set(l2.vac[n] for d in diags2 for s in d.get("spans", []) for n in [s["line_start"]] if n in l2.vac)
            p.vacuity = {"functions": len(want), "end_reachable": len(got), "vacuous": sorted(want - got)}
    if thorough:
        # the same obligations under other solver seeds
        p.seeds = []
        for seed in (7, 99, 12345):
            rc, r3, d3, _, _ = verus(gen, ["--smt-option", "smt.random_seed=%d" % seed, "--smt-option", "sat.random_seed=%d" % seed])
            v3 = (r3 or {}).get("verification-results", {})
            p.seeds.append({"seed": seed, "verified": v3.get("verified"), "errors": v3.get("errors")})
    p.wall = time.time() - t0
    return p


def scan_assumptions(p, ln):
    """every assumed item of the generated file"""
    t = ln.text
    out = []
    for i, l in enumerate(t):
        s = l.strip()
        if re.match(r"#\[verifier::external_body\]|#\[verifier\(external_body\)\]", s) or re.search(r"\baxiom fn\b|assume_specification|\badmit\(\)|\bassume\(", s):
            j = i
            while j < len(t) and not re.search(r"\b(fn|struct|assume_specification)\b", t[j]):
                j += 1
            if j < len(t):
                m = re.search(r"\b(?:fn|struct)\s+(\w+)|assume_specification.*?\[\s*([^\]]+?)\s*\]", t[j])
                name = (m.group(1) or m.group(2)) if m else t[j].strip()[:80]
                where = ln.fn.get(j + 1)
                out.append("%s%s" % (name, " (function of /repo taken out of the proof)" if where else ""))
        elif re.search(r"\buninterp spec fn\b", s):
            out.append("uninterpreted " + re.search(r"fn\s+(\w+)", s).group(1))
    p.assumptions = sorted(set(out))


# ---------------------------------------------------------------- bounded harness
def build_replay(props):
    t = time.time()
    d = os.path.join(HERE, "replay")
    bins = sorted(set(b for p in props for b in BINS[p] if b != "mac"))
    ok, log = {}, ""
    if bins:
        rc, o, log = sh(["cargo", "build", "--offline", "--bins", "--keep-going"], cwd=d, timeout=800)
    for b in bins:
        f = os.path.join(d, "target/debug", b)
        if rc == 0:
            ok[b] = os.path.exists(f)
        else:
            # which ones are up to date?
            rc1, _, e1 = sh(["cargo", "build", "--offline", "--bin", b], cwd=d, timeout=600)
            ok[b] = rc1 == 0 and os.path.exists(f)
    if "C19" in props:
        ok["mac"], ok["mac-rejected"], l = build_macros()
        log += l
    return ok, log[-1500:], time.time() - t


def build_macros():
    """the programs that use the macros; a program the macros turn into one rustc rejects is a failing input"""
    d, env = os.path.join(HERE, "macros"), dict(ENV, CARGO_TARGET_DIR=os.path.join(HERE, "replay/target"))
    rc, o, e = sh(["cargo", "build", "--offline"], cwd=d, env=env, timeout=800)
    if rc == 0:
        return os.path.exists(os.path.join(HERE, "replay/target/debug/mac")), None, ""
    for p in ("aj", "replay"):
        if sh(["cargo", "build", "--offline", "-p", p], cwd=d, env=env, timeout=600)[0] != 0:
            return False, None, e
    return False, "a program that uses the macros does not compile any more: " + "\n".join(l for l in e.splitlines() if not re.match(r"\s*(Compiling|Fresh)", l))[:2500], e


def run_bin(b, prop, seed, budget, tier, limit):
    f = os.path.join(HERE, "replay/target/debug", b)
    rc, o, e = sh([f, "--prop", prop, "--seed", str(seed), "--budget", str(budget)], env=dict(ENV, VERIF_TIER=tier), timeout=limit)
    for l in reversed(o.splitlines()):
        if l.startswith("{"):
            try:
                return json.loads(l)
            except ValueError:
                pass
    return {"crashed": rc, "output": (o + e)[-800:]}


def explore(prop, ok, seed, budget, tier):
    """run the harness programs of the property; a failing input is confirmed by running it again"""
    runs, failure, notes = [], None, []
    for b in BINS[prop]:
        if b == "mac" and ok.get("mac-rejected"):
            return runs, {"program": "macros/src", "command": "cargo build --offline (in macros/)", "what": ok["mac-rejected"]}, notes
        if not ok.get(b):
            notes.append("harness program %s does not build on this tree" % b)
            continue
        seeds = [seed] if tier == "quick" else [seed, seed + 1000, seed + 2000]
        for s in seeds:
            r = run_bin(b, prop, s, budget, tier, budget + 300)
            if "crashed" in r:
                notes.append("harness program %s ended with %s: %s" % (b, r["crashed"], r["output"][-300:]))
                continue
            if r.get("failure"):
                again = 0
                for _ in range(3):
                    r2 = run_bin(b, prop, s, budget, tier, budget + 300)
                    if r2.get("failure"):
                        again += 1
                        break
                if again:
                    failure = {"program": b, "seed": s, "command": "%s --prop %s --seed %d --budget %s" % (os.path.join(HERE, "replay/target/debug", b), prop, s, budget), **r["failure"]}
                    runs.append((b, r))
                    return runs, failure, notes
                notes.append("unconfirmed (seen once in 4 runs): " + r["failure"]["what"])
            runs.append((b, r))
    return runs, failure, notes


# ---------------------------------------------------------------- decision
def findings(prop):
    out = []
    f = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    for l in open(f) if os.path.exists(f) else []:
        if l.startswith("KNOWN-FINDING: property=%s " % prop):
            out.append(l.strip())
    return out


def decide(prop, tier, proof, ok, buildlog, seed, t0):
    mine = [e for e in proof.errors if prop in e["props"]] if proof.available else []
    cone = [f for f in proof.functions if prop in f["props"].split(",")]
    open_fns = {k: v for k, v in proof.undecided.items() if any(f["key"] == k for f in cone)}
    clauses = proof.clauses.get(prop, set())
    vacuous = [k for k in (proof.vacuity or {}).get("vacuous", []) if any(f["key"] == k for f in cone)]
    budget = {"quick": 45 if mine or open_fns or not proof.available else 12, "thorough": 150}[tier]
    runs, failure, notes = explore(prop, ok, seed, budget, tier)
    proved = proof.available and not mine and not open_fns and len(clauses) > 0 and not vacuous
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "proof" if proved else "exploration",
        "coverage": {
            "obligations": proof.verified + proof.nerrors, "discharged": proof.verified,
            "checker_cmd": proof.cmd + "   (on the file generated by vx from /repo's working tree and contracts/)",
            "trusted_base": ["Verus " + proof.version + " and its Z3", "vx, the extractor (edits listed below)", "rustc"] + ["assumed: " + a for a in proof.assumptions],
            "contract_clauses_of_this_property": len(clauses),
            "functions_of_this_property": [{"function": f["key"], "at": "%s:%d" % (f["file"], f["line"]), "kind": f["kind"]} for f in cone],
            "functions_under_contract": sum(1 for f in proof.functions if f["kind"] == "contracted"),
            "smt_ms": proof.smt_ms, "proof_wall_s": round(proof.wall, 1),
            "vacuity_guard": proof.vacuity, "solver_seeds": getattr(proof, "seeds", []),
            "extraction": {"edits": proof.map.get("edits"), "inlined_helpers": proof.map.get("inlined"), "dropped": proof.map.get("dropped"),
                           "not_under_contract": [f["key"] for f in proof.functions if f["kind"] == "uncontracted"]},
            "loops_without_measure": proof.map.get("no_measure"),
            "undischarged": [{"obligation": e["key"] + ": " + e["what"], "clause": e["clause"]} for e in mine],
            "out_of_the_verifiers_reach_on_this_tree": open_fns if proof.available else {"*": proof.why},
            "bounded_harness": [{"program": b, "evaluations": r.get("evaluations"), "distinct_nontrivial": r.get("distinct_nontrivial"), "wall_s": r.get("wall_s")} for b, r in runs],
            "evaluations": sum(r.get("evaluations") or 0 for _, r in runs),
            "distinct_nontrivial": sum(r.get("distinct_nontrivial") or 0 for _, r in runs),
            "rule": "; ".join(sorted(set(r.get("rule", "") for _, r in runs))),
            "samples": [s for _, r in runs for s in r.get("samples", [])][:4],
            "notes": notes,
        },
        "assumptions": assumptions_text(prop),
        "wall_s": round(time.time() - t0, 1),
        "violations": 0,
    }
    if prop == "C19":
        # proved for every argument value of each program; the programs themselves are samples
        progs = sorted(set(f["key"].split("/")[0] for f in cone if f["file"].startswith("@")))
        ev["level"] = "translation_validation"
        ev["coverage"].update(programs=len(progs), disagreements_checked=len(clauses), program_modules=progs, bounded="the expansions of these programs, each for all argument values; not all programs")
    lines, code = findings(prop), 0
    rp = os.path.join(HERE, "evidence", prop + ".replay.json")
    os.makedirs(os.path.dirname(rp), exist_ok=True)
    if failure or mine:
        code = 1
        ev["violations"] = 1
        with open(rp, "w") as f:
            json.dump({"property": prop, "failing_input": failure, "failed_obligations": mine, "verifier": proof.cmd}, f, indent=1)
        lines.append("VIOLATION property=%s replay=%s%s" % (prop, rp, "" if failure else " no-failing-input-found"))
        if failure:
            lines.append("  " + failure["what"][:600])
        for e in mine[:5]:
            lines.append("  failed obligation: %s: %s %s" % (e["key"], e["what"], e["clause"]))
    elif not proved and not runs:
        code = 2
        lines.append("no answer: %s; %s" % (proof.why or open_fns, buildlog))
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    lines.append("%s: %s (%d clauses of the property, %d/%d obligations, %d functions outside the verifier's reach, harness %d cases) %.0f s" % (
        prop, "violated" if code == 1 else "proved" if proved else "bounded only", len(clauses), proof.verified, proof.verified + proof.nerrors,
        len(open_fns), ev["coverage"]["evaluations"], time.time() - t0))
    for n in notes:
        lines.append("  note: " + n)
    if not proved and code == 0:
        lines.append("  bounded: " + (proof.why or json.dumps(open_fns) or str(vacuous))[:600])
    return code, lines


def assumptions_text(prop):
    f = os.path.join(HERE, "contracts", "ASSUMPTIONS.txt")
    own = ["the property is decided for the programs of macros/src, not for every program", "serde's and the standard derives are taken as correct: what they generate is dropped from the expansion (a type with serde attributes leaves the proof)", "async_trait's wrapper around an async method is taken off the expansion"] if prop == "C19" else []
    return own + [l.strip() for l in open(f) if l.strip() and not l.startswith("#")] if os.path.exists(f) else []


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(os.path.join(HERE, "target"), exist_ok=True)
    work = tempfile.mkdtemp(prefix="work-", dir=os.path.join(HERE, "target"))
    try:
        props = sorted(BINS) if prop == "all" else [prop]
        with cf.ThreadPoolExecutor(4) as ex:
            fut = ex.submit(build_replay, props)
            rc, o, e = sh(["cargo", "build", "--offline"], cwd=os.path.join(HERE, "vx"), timeout=600)
            proof, mproof = Proof(), Proof()
            if rc != 0:
                proof.why = mproof.why = "the extractor does not build: " + e[-500:]
            else:
                if props != ["C19"]:
                    proof = prove(work, tier == "thorough")
                if "C19" in props:
                    out, why = expand(work)
                    if out:
                        mproof = prove(os.path.join(work, "m"), tier == "thorough", out)
                    else:
                        mproof.why = why
            ok, buildlog, _ = fut.result()
        worst = 0
        with cf.ThreadPoolExecutor(4) as ex:
            for code, lines in ex.map(lambda p: decide(p, tier, mproof if p == "C19" else proof, ok, buildlog, seed, t0), props):
                print("\n".join(lines), flush=True)
                worst = max(worst, code)
        if os.environ.get("KEEP"):
            shutil.copytree(work, os.environ["KEEP"], dirs_exist_ok=True)
        sys.exit(worst)
    finally:
        shutil.rmtree(work, ignore_errors=True)


main()
