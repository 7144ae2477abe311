#!/usr/bin/env python3
"""Decide one property on /repo's current source.

1. vextract copies the contracted functions out of /repo/src and joins them with the contracts.
2. Verus has to discharge every obligation of the generated file.
3. The driver evaluates the public API of the same tree on concrete input: it replays a failed
   obligation, guards the trusted base, and stands in (bounded) where the proof gives no answer.
"""
import fcntl, glob, hashlib, json, os, re, resource, subprocess, sys, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(V, "build")
EVID = os.path.join(V, "evidence")
ID = sys.argv[1]
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
try:
    SEED = int(os.environ.get("VERIF_SEED", "0"))
except ValueError:
    SEED = 0
T0 = time.time()
LIMIT = 840.0
CFG = json.load(open(os.path.join(V, "tools", "checks.json")))
PROP = CFG["properties"][ID]


def left():
    return LIMIT - (time.time() - T0)


def sh(cmd, timeout, cwd=None, mem=None, env=None):
    def pre():
        os.setsid()
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    p = subprocess.Popen(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=pre, text=True,
                         errors="replace", env=env)
    try:
        o, e = p.communicate(timeout=max(1.0, timeout))
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        o, e = p.communicate()
        return None, o, e


class Lock:
    def __init__(self, name):
        self.path = os.path.join(BUILD, name)

    def __enter__(self):
        self.f = open(self.path, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        if os.path.isfile(p):
            h.update(p.encode() + b"\0" + open(p, "rb").read() + b"\0")
    return h.hexdigest()


def repo_files():
    r = [os.path.join(REPO, x) for x in ("Cargo.toml", "Cargo.lock", "build.rs")]
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        r += [os.path.join(d, f) for f in fs]
    return r


def build_extractor():
    with Lock("extract.lock"):
        return sh(["cargo", "build", "--offline", "--release", "-q"], min(400, left()), cwd=os.path.join(V, "extract"))


def build_driver(bins):
    """Cargo trusts time stamps, so the library is dropped whenever its content differs from the last build."""
    d = os.path.join(V, "driver")
    with Lock("driver.lock"):
        stamp = os.path.join(BUILD, "driver.stamp")
        h = tree_hash(repo_files())
        old = open(stamp).read() if os.path.exists(stamp) else ""
        if old != h:
            if os.path.isdir(os.path.join(d, "target")):
                sh(["cargo", "clean", "--offline", "-q", "-p", "tclifford", "-p", "vdriver"], 120, cwd=d)
            open(stamp, "w").write("")
        cmd = ["cargo", "build", "--offline", "-q"]
        for b in bins:
            cmd += ["--bin", b]
        rc, o, e = sh(cmd, min(500, left()), cwd=d)
        if rc == 0:
            open(stamp, "w").write(h)
        return rc, o, e


# ---------------------------------------------------------------- proof
def markers(path):
    """line -> (kind, name) of the generated item the line belongs to"""
    res, cur = [], ("other", "")
    for ln, t in enumerate(open(path), 1):
        m = re.match(r"\s*// @@(\w+) (.*)", t)
        if m:
            cur = (m.group(1), m.group(2).strip())
        res.append(cur)
    return res


def scan_assumptions(path):
    """every construct the verifier accepts without proof, found in the generated text"""
    out = []
    lines = open(path).read().split("\n")
    mk = markers(path)
    for i, t in enumerate(lines):
        c = t.split("//")[0]
        kind = None
        for pat, k in ((r"external_body", "external_body"), (r"\bassume_specification\b", "assume_specification"),
                       (r"\bassume\s*\(", "assume"), (r"\badmit\s*\(", "admit"), (r"\baxiom\s+fn\b", "axiom"),
                       (r"external_type_specification", "external_type_specification"),
                       (r"external_trait_specification", "external_trait_specification"),
                       (r"\buninterp\b", "uninterpreted"), (r"verifier::external\b", "external"),
                       (r"#\[verifier::(spinoff_prover_off|nonlinear_off)", None)):
            if k and re.search(pat, c):
                kind = k
                break
        if not kind:
            continue
        name = ""
        for u in lines[i:i + 12]:
            m = re.search(r"\b(?:fn|struct|trait|enum)\s+(\w+)", u) or re.search(r"assume_specification\s*(?:<[^>]*>)?\s*\[\s*([^\]]+)\]", u)
            if m:
                name = m.group(1).strip()
                break
        out.append((kind, name, mk[i][0], mk[i][1]))
    return out


def verify():
    """returns dict(status=proved|failed|undecided, ...)"""
    r = {"status": "undecided", "why": "", "failed": [], "obligations": 0, "discharged": 0, "smt_ms": 0, "functions": [],
         "lost": [], "assume": [], "output": "", "cmd": ""}
    if not PROP.get("proof"):
        r["why"] = "no contracts for this property"
        return r
    rc, o, e = build_extractor()
    if rc != 0:
        r["why"] = "extractor does not build: " + e[-500:]
        return r
    work = os.path.join(BUILD, ID)
    os.makedirs(work, exist_ok=True)
    gen, rep = os.path.join(work, ID + ".rs"), os.path.join(work, "report.json")
    for f in (gen, rep):
        if os.path.exists(f):
            os.remove(f)
    vx = os.path.join(V, "extract", "target", "release", "vextract")
    rc, o, e = sh([vx, os.path.join(REPO, "src"), os.path.join(V, "contracts"), os.path.join(V, "verus"), ID, gen, rep], 60)
    if os.path.exists(rep):
        try:
            j = json.load(open(rep))
            r["functions"], r["lost"], r["dropped"] = j["functions"], j["lost"], j["dropped"]
        except Exception as x:
            r["why"] = "report: %r" % x
    if rc != 0:
        r["why"] = "extraction: " + (e.strip() or "exit %s" % rc)[-1500:]
        return r
    r["assume"] = scan_assumptions(gen)
    mk = markers(gen)
    rl = PROP.get("rlimit", 30)
    one = run_verus(r, gen, mk, work, ["--rlimit", str(rl)])
    r["attempts"] = 1
    if one in ("failed", "unsettled") and left() > 240:
        # the solver gets a second chance before an obligation counts as failed
        first = {(f["kind"], f["where"]) for f in r["failed"]}
        keep = {k: r[k] for k in ("failed", "why", "output", "names_bad") if k in r}
        two = run_verus(r, gen, mk, work, ["--rlimit", str(3 * rl), "--smt-option", "smt.random_seed=7"])
        r["attempts"] = 2
        if two == "failed" and one == "failed":
            both = [f for f in r["failed"] if (f["kind"], f["where"]) in first]
            if not both:
                r["why"] = "different obligations fail with different solver seeds: " + ", ".join(sorted(x[1] for x in first))[:300]
                two = "unsettled"
            r["failed"] = both
        elif two in ("broken", "unsettled"):
            r.update(keep)
            two = one
        one = two
    if one == "failed":
        r["status"] = "failed"
        return r
    if one != "ok":
        return r
    want = PROP.get("min_obligations", 1)
    if r["verified"] < want:
        r["why"] = "only %d obligations, at least %d expected" % (r["verified"], want)
        return r
    nf = len([f for f in r["functions"] if f["mode"] == "verified"])
    if nf < PROP.get("min_functions", 1):
        r["why"] = "only %d functions under contract, at least %d expected" % (nf, PROP["min_functions"])
        return r
    r["why"], r["failed"] = "", []
    r["probes"] = {}
    for mode in ("entry",) if TIER == "quick" else ("entry", "exit"):
        got, why = vacuity(mode, work)
        if got is None:
            r["probes"][mode] = why
            continue
        r["probes"][mode] = {"inserted": got[0], "rejected": got[0] - len(got[1])}
        if got[0] == 0 or got[1]:
            r["why"] = "vacuous: assert(false) accepted at %s of %s" % (mode, ", ".join(got[1])[:400] or "no function")
            return r
    r["status"] = "proved"
    return r


def outside(dropped):
    """functions of the source files that no module of the contracts takes (a file may be read by several modules)"""
    n = {}
    for f in glob.glob(os.path.join(V, "contracts", "*.vc")):
        for l in open(f):
            w = l.split()
            if len(w) > 2 and w[0] == "@module":
                n[w[2]] = n.get(w[2], 0) + 1
    return sorted({d for d in dropped if dropped.count(d) >= n.get(d.split(":")[0], 1)})


def run_verus(r, gen, mk, work, opts):
    """one run of the verifier: ok | failed | unsettled (resource limit, library lemma) | broken (no usable result)"""
    base = ["verus", gen, "--output-json", "--time", "--triggers-mode", "silent", "--num-threads", "8"]
    budget = min(PROP.get("verus_timeout", 300), left() - 90)
    cmd = base + opts
    r["cmd"] = " ".join(cmd)
    rc, o, e = sh(cmd, budget, cwd=work)
    r["output"] = e[-20000:]
    if rc is None:
        r["why"] = "verifier ran out of time (%ds)" % budget
        return "broken"
    try:
        j = json.loads(o[o.index("{"):])
    except Exception:
        r["why"] = "verifier gave no result: " + e[-800:]
        return "broken"
    vr = j.get("verification-results", {})
    r["verified"], r["errors"] = vr.get("verified", 0), vr.get("errors", 0)
    tm = j.get("times-ms", {})
    r["smt_ms"] += tm.get("smt", {}).get("total", 0)
    fb = []
    for m in tm.get("smt", {}).get("smt-run-module-times", []):
        fb += m.get("function-breakdown", [])
    r["queries"] = len(fb)
    lib = {os.path.basename(f)[:-3] for f in glob.glob(os.path.join(V, "verus", "*.rs"))}
    r["lib_queries"] = len([f for f in fb if f["function"].split("::")[1:2] and f["function"].split("::")[1] in lib])
    r["obligations"] = r["verified"] + r["errors"]
    r["discharged"] = r["verified"]
    names_bad = sorted({f["function"].split("::", 1)[-1] for f in fb if not f.get("success", True)})
    if vr.get("success") and r["errors"] == 0 and rc == 0:
        return "ok"
    if "verification-results" not in j or vr.get("encountered-vir-error") or (r["verified"] == 0 and r["errors"] == 0):
        r["why"] = "source outside the verifier's language: " + first_errors(e)
        return "broken"
    # failed obligations with their place
    place = []
    for m in re.finditer(r"^error(?:\[\w+\])?: (.*)\n(?:.*\n){0,3}?\s*--> .*?:(\d+):(\d+)", e, re.M):
        msg, ln = m.group(1), int(m.group(2))
        if msg.startswith("aborting"):
            continue
        k = mk[ln - 1] if 0 < ln <= len(mk) else ("other", "")
        text = open(gen).read().split("\n")[ln - 1].strip()
        place.append((msg, k[0], k[1], text))
    hard = [p for p in place if "rlimit" not in p[0].lower() and "resource limit" not in p[0].lower() and "timed out" not in p[0]]
    lib_only = bool(hard) and all(p[1] == "LIB" for p in hard)
    r["failed"] = [{"message": p[0], "where": p[2], "kind": p[1], "text": p[3]} for p in hard]
    r["names_bad"] = names_bad
    if not hard or lib_only:
        r["why"] = "resource limit in " + ", ".join(names_bad)[:400] if not lib_only else "library lemma not proved: " + str(hard[0])
        return "unsettled"
    return "failed"


def vacuity(mode, work):
    """every verified function gets `assert(false)` at its start (entry) or end (exit); all of them have to fail.
    A probe that is accepted means that the contract or the assumptions in force there are contradictory."""
    gen, rep = os.path.join(work, "probe_%s.rs" % mode), os.path.join(work, "probe_%s.json" % mode)
    vx = os.path.join(V, "extract", "target", "release", "vextract")
    rc, o, e = sh([vx, os.path.join(REPO, "src"), os.path.join(V, "contracts"), os.path.join(V, "verus"), ID, gen, rep], 60,
                  env=dict(os.environ, VEXTRACT_PROBE=mode))
    if rc != 0:
        return None, "probe extraction: " + e[-300:]
    src = open(gen).read().split("\n")
    mk = markers(gen)
    want = {mk[i][1] for i, l in enumerate(src) if "assert(false)" in l and mk[i][0] == "FN"}
    rc, o, e = sh(["verus", gen, "--triggers-mode", "silent", "--multiple-errors", "300", "--num-threads", "8", "--rlimit", "30"],
                  min(200, left() - 60), cwd=work)
    if rc is None:
        return None, "probe ran out of time"
    if "verification results" not in o + e:
        return None, "probe not accepted by the verifier front end: " + first_errors(e)
    hit = set()
    for m in re.finditer(re.escape(gen) + r":(\d+)", o + e):
        n = int(m.group(1))
        if "assert(false)" in src[n - 1]:
            hit.add(mk[n - 1][1])
    return (len(want), sorted(want - hit)), ""


def first_errors(e):
    return " | ".join(re.findall(r"^error.*$", e, re.M)[:4])[:800]


# ---------------------------------------------------------------- driver
def drive(scale, budget, case=None):
    r = {"status": "undecided", "why": "", "fails": [], "cases": 0, "distinct": 0, "groups": 0, "samples": []}
    b = PROP["bin"]
    exe = os.path.join(V, "driver", "target", "debug", b)
    prog = os.path.join(BUILD, ID, "progress")
    os.makedirs(os.path.dirname(prog), exist_ok=True)
    if os.path.exists(prog):
        os.remove(prog)
    args = [exe, "--seed", str(SEED), "--scale", str(scale), "--budget", str(budget), "--progress", prog]
    hard = min(budget * 2 + 60, left() - 10)
    env = dict(os.environ, RUST_BACKTRACE="0")
    rc, o, e = sh(args, hard, mem=12 << 30, env=env)
    m = re.search(r"^DONE .*?cases=(\d+) distinct=(\d+) groups=(\d+) failed=(\d+) cut=(\d+)", o, re.M)
    if m:
        r["cases"], r["distinct"], r["groups"], r["cut"] = int(m[1]), int(m[2]), int(m[3]), int(m[5])
    r["samples"] = re.findall(r"^SAMPLE (.*)$", o, re.M)
    for f in re.findall(r"^FAIL (.*)$", o, re.M):
        mm = re.match(r"property=\S+ case=(.*) iter=(\d+) :: (.*)", f)
        r["fails"].append({"case": mm[1], "iter": int(mm[2]), "what": mm[3]} if mm else {"case": "?", "iter": 0, "what": f})
    if rc not in (0, 1) or (rc == 1 and not r["fails"]):
        cur = open(prog).read().strip() if os.path.exists(prog) else ""
        c, _, it = cur.rpartition(" ")
        if cur:
            how = "no answer within %ds" % hard if rc is None else "process ended with status %s: %s" % (rc, e.strip()[-300:])
            if rc is None and left() < 30:
                r["why"] = "driver ran out of the check's time in " + cur
                return r
            r["fails"].append({"case": c, "iter": int(it) if it.isdigit() else 0, "what": how})
        else:
            r["why"] = "driver did not start: %s" % e[-300:]
            return r
    r["status"] = "failed" if r["fails"] else "held"
    return r


def main():
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    pr = verify()
    rc, o, e = build_driver([PROP["bin"]])
    scale = PROP.get("scale", {}).get(TIER, 20 if TIER == "quick" else 200)
    budget = 60 if TIER == "quick" else 240
    if rc == 0:
        dr = drive(scale, budget)
        if dr["status"] == "held" and pr["status"] == "failed" and left() > 120:
            # a failed obligation deserves a longer search for an input
            d2 = drive(scale * 10, min(150, left() / 3))
            if d2["status"] == "failed":
                dr = d2
            else:
                dr["cases"] += d2["cases"]
    else:
        dr = {"status": "undecided", "why": "driver does not build: " + first_errors(e), "fails": [], "cases": 0,
              "distinct": 0, "groups": 0, "samples": []}
    known = [x for x in CFG.get("known", []) if x["property"] == ID]
    violation = None
    if dr["status"] == "failed":
        violation = "input"
    elif pr["status"] == "failed":
        violation = "obligation"
    replay = os.path.join(EVID, "replay", "%s-%s-%d.json" % (ID, TIER, SEED))
    if violation:
        with open(replay, "w") as f:
            json.dump({
                "property": ID,
                "failed_obligations": pr["failed"],
                "verifier_status": pr["status"],
                "verifier_note": pr["why"],
                "verifier_output": pr["output"][-6000:] if pr["status"] == "failed" else "",
                "failing_inputs": dr["fails"],
                "reproduce": ["%s --seed %d --scale %s --case '%s' %d" % (
                    os.path.join("driver", "target", "debug", PROP["bin"]), SEED, scale * 10, f_["case"], f_["iter"]) for f_ in dr["fails"]],
            }, f, indent=1)
    proved = pr["status"] == "proved"
    trusted, other = [], []
    assumed = {f["key"] for f in pr["functions"] if f["mode"] == "assumed"}
    for kind, name, mkk, mkn in pr["assume"]:
        d = "%s %s (%s %s)" % (kind, name, mkk, mkn)
        # a contract or lemma of another property's slice: assumed here, discharged by that property's check
        to = trusted if mkk == "LIB" or mkn.split(" ")[0] in assumed else other
        if d not in to:
            to.append(d)
    by_slice = [f["key"] for f in pr["functions"] if f["mode"] == "other-slice"]
    under = [f for f in pr["functions"] if f["mode"] == "verified"]
    cov = {
        "obligations": pr["obligations"], "discharged": pr["discharged"], "checker_cmd": pr["cmd"] or "none",
        "trusted_base": trusted + (["%d contracts and lemmas of other slices, discharged by the checks of their own properties (listed in assumed_from_other_checks)" % len(other)] if other else []) + ["Verus 0.2026.09.13 with its bundled Z3", "rustc", "the extraction rules listed in DESIGN.md (vextract)"],
        "proof_status": pr["status"], "proof_note": pr["why"],
        "functions_under_contract": ["%s (%s:%s)" % (f["key"], f["file"], f["line"]) for f in under],
        "functions_assumed_here_discharged_by_other_checks": by_slice,
        "assumed_from_other_checks": other,
        "functions_outside_contracts": outside(pr["dropped"]),
        "functions_with_assumed_contract": [f["key"] for f in pr["functions"] if f["mode"] == "assumed"],
        "vacuity_probes": pr.get("probes", {}), "verifier_runs": pr.get("attempts", 0), "lost_anchors": pr["lost"], "back_end": "Z3 via Verus", "solver_time_ms": pr["smt_ms"], "smt_queries": pr.get("queries", 0), "smt_queries_for_library_lemmas": pr.get("lib_queries", 0),
        "evaluations": dr["cases"], "distinct_nontrivial": dr["distinct"],
        "rule": "driver cases are drawn from VERIF_SEED per (group, iteration) over fixed lists of algebras, rings and storages; "
                "a case counts when its draws differ from all others of its group and it drew operands or enumerated a finite set; "
                "these are bounded checks and are not counted as proved",
        "samples": dr["samples"], "bounded_status": dr["status"], "bounded_note": dr["why"], "bounded_groups": dr["groups"],
        "bounded_scope": PROP.get("bounded", ""),
        "explanation": PROP.get("explanation", ""),
    }
    lvl = PROP["level"] if proved or not PROP.get("proof") else "exploration"
    ev = {"property": ID, "tier": TIER, "seed": SEED, "level": lvl, "coverage": cov,
          "assumptions": PROP.get("assumptions", []) + trusted,
          "wall_s": round(time.time() - T0, 2), "violations": 1 if violation else 0}
    tmp = os.path.join(EVID, ".%s.tmp" % ID)
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(EVID, ID + ".json"))
    print("%s proof=%s (%d/%d obligations, %d functions, %d ms solver) bounded=%s (%d cases) %.1fs" % (
        ID, pr["status"], pr["discharged"], pr["obligations"], len(under), pr["smt_ms"], dr["status"], dr["cases"], time.time() - T0))
    if pr["why"]:
        print("proof note: " + pr["why"][:600])
    if dr["why"]:
        print("bounded note: " + dr["why"][:600])
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (ID, k["what"]))
    if violation == "input":
        for f_ in dr["fails"][:3]:
            print("failing input: %s #%d: %s" % (f_["case"], f_["iter"], f_["what"][:300]))
        for f_ in pr["failed"][:3]:
            print("failed obligation: %s: %s [%s]" % (f_["where"], f_["message"], f_["text"][:120]))
        print("VIOLATION property=%s replay=%s" % (ID, replay))
        return 1
    if violation == "obligation":
        for f_ in pr["failed"][:5]:
            print("failed obligation: %s: %s [%s]" % (f_["where"], f_["message"], f_["text"][:120]))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (ID, replay))
        return 1
    if pr["status"] != "proved" and dr["status"] != "held":
        print("no answer: neither proof nor bounded check could run")
        return 2
    return 0


if __name__ == "__main__":
    try:
        code = main()
    except Exception as x:
        print("no answer: %r" % x)
        code = 2
    sys.exit(code)
