#!/usr/bin/env python3
"""check.py run ID [--tier quick|thorough]   decide one property on /repo's current tree
   check.py setup                            build the extractor and the harness
   check.py replay FILE                      run a replay file again

The deciding step is the verifier (Verus on functions extracted from /repo on
this run, Kani on /repo's crate itself) accepting every obligation.  Next to
it the same contract runs in executable form (harness/), on the real crate:
it supplies failing inputs, checks the assumed contracts against reality, and
stands in (labelled bounded) for a unit that could not be extracted."""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VX_REPO", "/repo")
B = os.path.join(V, "build")
VX = os.path.join(V, "vx/target/debug/vx")
HARNESS = os.path.join(V, "harness/target/debug/harness")

def env(kani=False):
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + e.get("PATH", "")
    e.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_PROFILE_DEV_DEBUG="0", CARGO_INCREMENTAL="1", RUST_BACKTRACE="0")
    e["RUSTC_WRAPPER"] = ""
    if kani:
        for k in ("RUSTUP_TOOLCHAIN", "RUSTC_WRAPPER"): e.pop(k, None)
    else:
        e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    return e

def sh(cmd, timeout, cwd=V, kani=False):
    """(rc, stdout, stderr); rc None on timeout"""
    p = subprocess.Popen(cmd, cwd=cwd, env=env(kani), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, 9)
        except ProcessLookupError: pass
        o, e = p.communicate()
        return None, o, e

def build_vx(): return sh(["cargo", "build", "--offline", "--quiet"], 600, os.path.join(V, "vx"))
def build_harness(): return sh(["cargo", "build", "--offline", "--quiet"], 700, os.path.join(V, "harness"))

# ---------------------------------------------------------------- Verus units
FAILED = ("postcondition not satisfied", "precondition not satisfied", "assertion failed", "invariant not satisfied", "possible arithmetic underflow/overflow",
          "possible division by zero", "possible bit shift underflow/overflow", "decreases not satisfied", "could not prove termination", "loop invariant not satisfied",
          "unable to prove", "assertion not satisfied", "assert_by", "requires not satisfied", "fuel", "cannot show", "possible truncation", "index out of bounds")

def classify(stderr, text):
    """split verus' errors into failed obligations (with function), undecided, unprocessable"""
    lines = text.split("\n")
    owner = []
    cur = None
    for l in lines:
        m = re.match(r"// VXFN (.*)", l)
        if m: cur = m.group(1)
        if cur is None:
            m = re.match(r"\s*pub (?:proof|broadcast proof|open spec|spec|closed spec|uninterp spec)? ?fn (\w+)", l)
            owner.append(m.group(1) if m else (owner[-1] if owner else ""))
        else: owner.append(cur)
        if l.startswith("// VXEND"): cur = None
    failed, undecided, bad = [], [], []
    for m in re.finditer(r"^error(\[E\d+\])?: (.*?)$((?:\n(?!error|warning|note: ).*)*)", stderr, re.M):
        code, msg, rest = m.group(1), m.group(2), m.group(3)
        if msg.startswith("aborting due to"): continue
        locs = [int(x) for x in re.findall(r"--> [^\n]*?:(\d+):\d+", rest)]
        fn = ""
        # the last shown location inside a contracted function names the function being checked
        nums = locs + [int(x) for x in re.findall(r"^\s*(\d+) \|", rest, re.M)]
        for n in nums:
            if n - 1 < len(owner) and owner[n - 1]: fn = owner[n - 1]; break
        item = {"function": fn, "obligation": msg, "at": (lines[locs[0] - 1].strip()[:300] if locs and locs[0] <= len(lines) else "")}
        if code is None and any(msg.startswith(f) or f in msg for f in FAILED): failed.append(item)
        elif "Resource limit" in msg or "rlimit" in msg or "timed out" in msg: undecided.append(item)
        else: bad.append(item)
    return failed, undecided, bad

TRUST = [("external_body", "trusted contract (body not checked)"), ("assume_specification", "assumed contract"), ("admit()", "admitted"), ("assume(", "assumption"), ("external_type_specification", "external type"), ("axiom", "axiom")]

def trusted(text):
    out = []
    lines = text.split("\n")
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith("//"): continue
        for k, what in TRUST:
            if k in s:
                name = ""
                for j in range(i, min(i + 6, len(lines))):
                    m = re.search(r"\b(?:fn|struct|enum)\s+(\w+)|assume_specification[^\[]*\[\s*([^\]]+)\]", lines[j])
                    if m: name = (m.group(1) or m.group(2)).strip(); break
                out.append(f"{what}: {name or s[:80]}")
    seen, r = set(), []
    for x in out:
        if x not in seen: seen.add(x); r.append(x)
    return r

def verus_unit(unit, d, quick):
    """run one unit; dict(status = proved | failed | undecided, ...)"""
    r = {"unit": unit, "status": "undecided", "failed": [], "reason": "", "obligations": 0, "discharged": 0, "functions": [], "lemmas": 0, "solver_ms": 0, "trusted": [], "cmd": ""}
    rs, rep = os.path.join(d, f"{unit}.rs"), os.path.join(d, f"{unit}.json")
    rc, o, e = sh([VX, os.path.join(V, f"units/{unit}.vrs"), "--repo", REPO, "--common", os.path.join(V, "units/common"), "--out", rs, "--report", rep], 60)
    if rc is None or not os.path.exists(rep): r["reason"] = f"extraction failed: {e[-400:]}"; return r
    report = json.load(open(rep))
    if report.get("status") != "ok": r["reason"] = report.get("reason", "extraction failed"); return r
    r["functions"] = [f["fn"] for f in report["functions"] if not f.get("trusted")]
    r["rules"] = report.get("rules", {})
    text = open(rs).read()
    r["trusted"] = trusted(text)
    rl = str(report.get("rlimit") or 60)
    log = os.path.join(d, f"{unit}.air")
    r["cmd"] = f"verus {unit}.rs --rlimit {rl}"
    probe = os.path.join(d, f"{unit}_probe.rs")
    open(probe, "w").write(re.sub(r"\bhide\([^)]*\);", "", text).replace("/*VXPROBE*/", "proof { assert(false); }"))
    with cf.ThreadPoolExecutor(2) as ex:
        fp = ex.submit(sh, ["verus", probe, "--rlimit", rl, "--triggers-mode", "silent", "--multiple-errors", "1"], 400, d)
        rc, o, e = sh(["verus", rs, "--rlimit", rl, "--log-dir", log, "--log", "air", "--output-json", "--time", "--triggers-mode", "silent", "--multiple-errors", "4"], 400, d)
        prc, po, pe = fp.result()
    open(os.path.join(d, f"{unit}.out"), "w").write(o + "\n" + e)
    for f in glob.glob(os.path.join(log, "*.air")):
        with open(f) as fh: r["obligations"] += len(re.findall(r"\(assert\s*\n\s*\(\"", fh.read()))
    shutil.rmtree(log, ignore_errors=True)
    if rc is None: r["reason"] = "verifier timed out"; return r
    try:
        j = json.loads(o[o.index("{"):])
        r["solver_ms"] = j.get("times-ms", {}).get("smt", {}).get("total", 0)
        r["verified"] = j["verification-results"].get("verified", 0)
        ok = j["verification-results"].get("success") and j["verification-results"].get("errors") == 0
    except (ValueError, KeyError): ok = False
    failed, undecided, bad = classify(e, text)
    r["output"] = e[-6000:]
    if ok and rc == 0 and r["obligations"] > 0:
        # every contracted function must be enterable under its precondition
        if prc is None: r["reason"] = "reachability probe timed out"; return r
        pf, pu, pb = classify(pe, open(probe).read())
        reached = {f["function"] for f in pf}
        vac = [f for f in r["functions"] if f not in reached]
        if pb or vac: r["reason"] = f"reachability probe: {[b['obligation'] for b in pb][:3]} not reached: {vac}"; return r
        r["probes"] = len(r["functions"])
        r["status"] = "proved"; r["discharged"] = r["obligations"]
        return r
    if bad or rc is None: r["reason"] = "not processable: " + "; ".join(f"{b['function']}: {b['obligation']}" for b in bad)[:600]; return r
    r["failed"] = failed
    if undecided: r["reason"] = "undecided: " + "; ".join(f"{b['function']}: {b['obligation']}" for b in undecided)[:600]
    r["discharged"] = max(0, r["obligations"] - len(failed) - len(undecided))
    if failed and not undecided: r["status"] = "failed"
    elif failed: r["status"] = "failed"
    else: r["reason"] = r["reason"] or f"verifier gave no result: {e[-400:]}"
    return r

# ---------------------------------------------------------------- Kani harnesses
def kani_run(names, d, timeout):
    r = {"unit": "kani", "status": "undecided", "failed": [], "reason": "", "obligations": 0, "discharged": 0, "functions": [], "solver_ms": 0, "trusted": [], "cmd": "cargo kani " + " ".join("--harness " + n for n in names)}
    td = os.path.join(V, "kani/target")
    cmd = ["cargo", "kani", "--target-dir", td, "--output-format", "regular", "-j", "4", "--output-format", "terse"] if False else ["cargo", "kani", "--target-dir", td]
    for n in names: cmd += ["--exact", "--harness", n] if False else ["--harness", n]
    rc, o, e = sh(cmd, timeout, os.path.join(V, "kani"), kani=True)
    open(os.path.join(d, "kani.out"), "w").write(o + "\n" + e)
    r["output"] = (o + e)[-6000:]
    if rc is None: r["reason"] = "kani timed out"; return r
    if "VERIFICATION:-" not in o: r["reason"] = "kani could not build or run: " + e[-500:]; return r
    blocks = re.split(r"Checking harness ", o)[1:]
    done = set()
    for b in blocks:
        name = b.split("...")[0].strip()
        done.add(name.split("::")[-1])
        m = re.search(r"\*\* (\d+) of (\d+) failed", b)
        if m: r["obligations"] += int(m.group(2)); r["discharged"] += int(m.group(2)) - int(m.group(1))
        t = re.search(r"Verification Time: ([\d.]+)s", b)
        if t: r["solver_ms"] += int(float(t.group(1)) * 1000)
        cov = re.search(r"\*\* (\d+) of (\d+) cover properties satisfied", b)
        if cov and cov.group(1) != cov.group(2): r["reason"] = f"{name}: a reachability cover is not satisfied"
        if "VERIFICATION:- FAILED" in b:
            fl = re.findall(r"Failed Checks: (.*)", b)
            if any("unwinding" in x for x in fl) or not fl: r["reason"] = f"{name}: {fl[:2]}"
            else: r["failed"].append({"function": name, "obligation": "; ".join(fl)[:400], "at": ""})
    r["functions"] = sorted(done)
    missing = [n for n in names if n not in done]
    if missing: r["reason"] = f"harnesses not run: {missing}"
    if r["failed"]: r["status"] = "failed"
    elif not r["reason"] and r["obligations"]: r["status"] = "proved"
    return r

# ---------------------------------------------------------------- one property
def findings(pid):
    out = []
    p = os.path.join(V, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid: out.append((m.group(2), m.group(3)))
    return out

def run(pid, tier):
    t0 = time.time()
    cfg = json.load(open(os.path.join(V, "checks.json")))[pid]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    d = os.path.join(B, pid)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d, exist_ok=True)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(V, "replays"), exist_ok=True)
    quick = tier == "quick"
    budget = cfg.get("budget", [40, 600])[0 if quick else 1]
    notes = []

    def search():
        rc, o, e = build_harness()
        if rc != 0: return None, f"harness does not build: {e[-500:]}"
        out = os.path.join(d, "search.json")
        rc, o, e = sh([HARNESS, "run", pid, "--seed", str(seed), "--budget", str(budget), "--max", str(3_000_000 if quick else 40_000_000), "--out", out], budget * 3 + 200)
        if not os.path.exists(out) and rc is not None and rc < 0:
            # the code took the whole process down: the same cases again, each written down before it runs
            tr = os.path.join(d, "trace.json")
            rc2, o, e = sh([HARNESS, "run", pid, "--seed", str(seed), "--budget", str(budget), "--out", out, "--trace", tr], budget * 3 + 200)
            if not os.path.exists(out) and rc2 is not None and rc2 < 0 and os.path.exists(tr):
                c = json.load(open(tr))
                return {"evaluations": 1, "distinct_nontrivial": 1, "small_scope": 0, "rule": "", "samples": [c], "known": [], "failure": {"case": c, "why": f"the process dies with signal {-rc2}"}}, ""
        if not os.path.exists(out): return None, f"harness ended with {rc}: {e[-500:]}"
        return json.load(open(out)), ""

    with cf.ThreadPoolExecutor(8) as ex:
        fs = ex.submit(search) if cfg.get("search", True) else None
        proofs = []
        if cfg.get("units"):
            rc, o, e = build_vx()
            if rc != 0: notes.append(f"extractor does not build: {e[-300:]}")
            proofs += [ex.submit(verus_unit, u, d, quick) for u in cfg["units"]]
        if cfg.get("kani"): proofs.append(ex.submit(kani_run, cfg["kani"], d, cfg.get("kani_timeout", 700)))
        proofs = [p.result() for p in proofs]
        s, serr = fs.result() if fs else (None, "no executable contract")
    if serr: notes.append(serr)

    known = findings(pid)
    violation = None
    if s:
        for key, case in s.get("known", []):
            hit = [k for k in known if k[0] == key]
            if hit: print(f"KNOWN-FINDING: property={pid} {hit[0][1]}")
            elif not violation: violation = ("case", case, f"unlisted finding {key}")
        if s.get("failure"): violation = ("case", s["failure"]["case"], s["failure"]["why"])
    failed = [(p, f) for p in proofs for f in p["failed"]]
    undecided = [p for p in proofs if p["status"] == "undecided"]
    proved = bool(proofs) and all(p["status"] == "proved" for p in proofs)
    ev = evidence(pid, tier, seed, cfg, proofs, s, proved, notes, failed, t0)
    if violation:
        body = {"property": pid, "case": violation[1], "why": violation[2], "failed_obligations": [f for _, f in failed], "how": "python3 /verif/check.py replay <this file>"}
        line = ""
    elif failed:
        body = {"property": pid, "failed_obligations": [f for _, f in failed], "verifier_output": {p["unit"]: p.get("output", "") for p, _ in failed}, "extracted_source": [os.path.join(d, p["unit"] + ".rs") for p, _ in failed], "search": "the bounded search of the executable contract found no failing input"}
        line = " no-failing-input-found"
    else: body = None
    if body is not None: ev["violations"] = 1
    json.dump(ev, open(os.path.join(V, f"evidence/{pid}.json"), "w"), indent=1)
    for p in proofs:
        print(f"{p['unit']}: {p['status']}, {p['discharged']}/{p['obligations']} obligations, {len(p['functions'])} functions" + (f" ({p['reason']})" if p["reason"] else ""))
        for f in p["failed"]: print(f"  failed obligation in {f['function']}: {f['obligation']} at {f['at'][:160]}")
    if s: print(f"executable contract: {s['evaluations']} evaluations, {s['distinct_nontrivial']} distinct non-trivial")
    for n in notes: print("note: " + n)
    if body is not None:
        h = hashlib.sha256(json.dumps(body, sort_keys=True).encode()).hexdigest()[:12]
        path = os.path.join(V, "replays", f"{pid}-{h}.json")
        json.dump(body, open(path, "w"), indent=1)
        if violation: print("  " + str(violation[2])[:600])
        print(f"VIOLATION property={pid} replay={path}{line}")
        return 1
    if not proved: print(f"proof not obtained on this tree; the bounded stand-in decides {pid} and found nothing")
    return 0

def evidence(pid, tier, seed, cfg, proofs, s, proved, notes, failed, t0):
    tb = []
    for p in proofs:
        for t in p["trusted"]:
            if t not in tb: tb.append(t)
    tb += cfg.get("trusted", [])
    cov = {
        "obligations": sum(p["obligations"] for p in proofs), "discharged": sum(p["discharged"] for p in proofs),
        "checker_cmd": "; ".join(p["cmd"] for p in proofs if p["cmd"]) or "none",
        "trusted_base": tb,
        "functions_under_contract": {p["unit"]: p["functions"] for p in proofs},
        "solver_ms": {p["unit"]: p["solver_ms"] for p in proofs},
        "back_end": {p["unit"]: ("Kani 0.68 / CBMC" if p["unit"] == "kani" else "Verus 0.2026.09.13 / Z3") for p in proofs},
        "reachability_probes": {p["unit"]: p.get("probes", 0) for p in proofs},
        "extraction_rules_applied": {p["unit"]: p.get("rules", {}) for p in proofs},
        "proof_status": {p["unit"]: p["status"] + (": " + p["reason"] if p["reason"] else "") for p in proofs},
        "failed_obligations": [f for _, f in failed],
        "not_proved": cfg.get("not_proved", []),
    }
    if s:
        cov["evaluations"] = s["evaluations"]
        cov["distinct_nontrivial"] = s["distinct_nontrivial"]
        cov["rule"] = "BOUNDED search of the executable contract on the real crate (not counted as proof): " + s["rule"]
        cov["samples"] = s["samples"]
        cov["small_scope_cases"] = s["small_scope"]
    level = cfg.get("level", "proof")
    if not proved and level == "proof": level = "exploration"
    if level == "other": cov["explanation"] = cfg.get("explanation", "")
    if not proved: cov["explanation"] = "PROOF NOT OBTAINED on this tree: " + "; ".join(p["unit"] + ": " + (p["reason"] or p["status"]) for p in proofs if p["status"] != "proved") + ". The bounded stand-in decided."
    return {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": cfg.get("assumptions", []) + notes, "wall_s": round(time.time() - t0, 1), "violations": 0}

def main():
    a = sys.argv[1:]
    if a and a[0] == "setup":
        with cf.ThreadPoolExecutor(2) as ex:
            for rc, o, e in ex.map(lambda f: f(), (build_vx, build_harness)):
                if rc != 0: print(e[-2000:]); return 1
        return 0
    if len(a) >= 2 and a[0] == "replay":
        if build_harness()[0] != 0: print("harness does not build"); return 2
        return subprocess.run([HARNESS, "replay", a[1]]).returncode
    if len(a) >= 2 and a[0] == "run":
        tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER", "quick")
        return run(a[1], tier)
    print(__doc__)
    return 2

if __name__ == "__main__":
    sys.exit(main())
