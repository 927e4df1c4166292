#!/usr/bin/env python3
"""check.py PROPERTY  (VERIF_TIER=quick|thorough, VERIF_SEED=n)

Decides one property of /repo's working tree:
  1. extracts the functions under contract from /repo (vx) and has Verus discharge every obligation;
  2. runs the property's executable oracle against the real crate (vharness): the source of concrete
     failing inputs for failed obligations, and the bounded stand-in for what is not under contract.
Exit 0: held.  Exit 1 and a VIOLATION line: broken.  Exit 2: the check could not answer.
"""
import hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "tools"))
from units import PROPS, UNITS  # noqa: E402

CLOSURES = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "verus", "closures.json")))

T0 = time.time()
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
WORK = os.path.join(VERIF, "work")


def sh(cmd, timeout, cwd=None, env=None):
    e = dict(os.environ)
    e["RUST_BACKTRACE"] = "0"
    e.update(env or {})
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
    try:
        o, er = p.communicate(timeout=timeout)
        return p.returncode, o.decode("utf8", "replace"), er.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        o, er = p.communicate()
        return None, o.decode("utf8", "replace"), er.decode("utf8", "replace")


def tree_hash(d, exts):
    h = hashlib.sha256()
    for root, dirs, files in os.walk(d):
        dirs[:] = sorted(x for x in dirs if x not in ("target", ".git"))
        for f in sorted(files):
            if f.endswith(exts):
                p = os.path.join(root, f)
                h.update(os.path.relpath(p, d).encode())
                h.update(open(p, "rb").read())
    return h.hexdigest()


def build_vx():
    d = os.path.join(VERIF, "vx")
    rc, o, e = sh(["cargo", "+nightly", "build", "--offline", "-q"], 600, cwd=d)
    if rc != 0:
        return None, (o + e)[-2000:]
    return os.path.join(d, "target/debug/vx"), ""


def build_harness():
    """cargo goes by modification times, so drop its fingerprints of the crate when /repo's content has changed"""
    d = os.path.join(VERIF, "harness")
    tgt = os.path.join(d, "target")
    stamp = os.path.join(tgt, "repo.sha")
    h = tree_hash(REPO, (".rs", ".toml", ".lock", ".proto"))
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if h != old:
        fp = os.path.join(tgt, "debug", ".fingerprint")
        if os.path.isdir(fp):
            for x in os.listdir(fp):
                if x.startswith("beancount-parser-lima-") or x.startswith("vharness-"):
                    shutil.rmtree(os.path.join(fp, x), ignore_errors=True)
    rc, o, e = sh(["cargo", "+nightly", "build", "--offline", "-q"], 800, cwd=d, env={"CARGO_INCREMENTAL": "0"})
    if rc != 0:
        return None, (o + e)[-4000:]
    os.makedirs(tgt, exist_ok=True)
    open(stamp, "w").write(h)
    return os.path.join(tgt, "debug/vharness"), ""


FAIL_MSGS = ("postcondition not satisfied", "precondition not satisfied", "invariant not satisfied", "assertion failed",
             "possible arithmetic underflow/overflow", "decreases not satisfied", "possible division by zero",
             "might not terminate", "possible bit shift underflow/overflow", "recommendation not met", "unreachable",
             "assert_by", "failed", "unable to prove", "cannot prove", "could not prove", "index out of bounds", "not satisfied")
UNDECIDED = ("resource limit", "rlimit", "not supported", "timed out", "canceled", "unsupported")


class UnitResult:
    pass


def marks(text):
    """line number -> emitted function (from the markers vx writes)"""
    cur = None
    m = {}
    for i, l in enumerate(text.split("\n"), 1):
        s = l.strip()
        if s.startswith("//VX-BEGIN "):
            cur = s[len("//VX-BEGIN "):]
        m[i] = cur
        if s.startswith("//VX-END"):
            cur = None
    return m


def run_verus(rs, rlimit):
    cmd = ["verus", "--crate-type=lib", "--error-format=json", "--output-json", "--time", "--num-threads", "8",
           "--rlimit", str(rlimit), "--triggers-mode", "silent", rs]
    t = time.time()
    # the oracle must still have its turn within 900 s
    limit = 700 if TIER == "thorough" else max(10, T0 + 360 - t)
    rc, o, e = sh(cmd, limit, cwd=WORK)
    return cmd, rc, o, e, time.time() - t


def parse_verus(o, e):
    res = {}
    try:
        res = json.loads(o[o.index("{"):])
    except Exception:
        pass
    diags = []
    for l in e.split("\n"):
        if l.startswith("{"):
            try:
                d = json.loads(l)
            except Exception:
                continue
            if d.get("level") == "error" and not d.get("message", "").startswith("aborting due to"):
                diags.append(d)
    return res, diags


def fn_at(text_lines, line, mk):
    if mk.get(line):
        return mk[line]
    # a lemma or spec of the template: nearest preceding fn
    for i in range(min(line, len(text_lines)), 0, -1):
        m = re.search(r"\bfn\s+(\w+)", text_lines[i - 1])
        if m:
            return m.group(1)
    return "?"


def run_unit(vx, unit):
    """-> dict(status: ok|failed|undecided, ...)"""
    os.makedirs(WORK, exist_ok=True)
    tpl = os.path.join(VERIF, "verus", unit + ".tpl")
    rs = os.path.join(WORK, unit + ".rs")
    rep = os.path.join(WORK, unit + ".json")
    skip = []
    R = {"unit": unit, "skipped": {}, "failed": [], "verified": 0, "extracted": [], "time": 0.0, "cmd": "", "output": "", "dead": None}
    for attempt in range(8):
        rc, o, e = sh([vx, REPO, tpl, rs, rep], 60, env={"VX_SKIP": "\x1f".join(skip)})
        if rc != 0:
            m = re.search(r"vx: \[(.*?)\] (.*)", e)
            if m and m.group(1) not in skip:
                skip.append(m.group(1))
                R["skipped"][m.group(1)] = "not extracted: " + m.group(2)
                continue
            R["dead"] = "extraction: " + e.strip()[-500:]
            return R
        R["extracted"] = json.load(open(rep))["extracted"]
        text = open(rs).read()
        lines = text.split("\n")
        mk = marks(text)
        cmd, rc, o, e, dt = run_verus(rs, UNITS[unit].get("rlimit", 30))
        R["cmd"] = " ".join(cmd)
        R["time"] += dt
        if rc is None:
            R["dead"] = "verus timed out"
            return R
        res, diags = parse_verus(o, e)
        vr = res.get("verification-results", {})
        R["verified"] = vr.get("verified", 0)
        R["smt"] = res.get("times-ms", {}).get("smt", {}).get("total")
        R["failed"] = []
        hard = []
        for d in diags:
            msg = d["message"]
            spans = d.get("spans", [])
            prim = [s for s in spans if s.get("is_primary")] or spans
            ls = [s["line_start"] for s in spans if s["file_name"].endswith(unit + ".rs")]
            pl = [s["line_start"] for s in prim if s["file_name"].endswith(unit + ".rs")]
            und = any(u in msg.lower() for u in UNDECIDED)
            isfail = (not und) and d.get("code") is None and any(f in msg for f in FAIL_MSGS)
            # the function whose obligation it is: that containing the last (innermost) span inside an extracted body
            cand = [fn_at(lines, l, mk) for l in (ls or [1])]
            marked = [mk[l] for l in ls if mk.get(l)]
            fn = marked[0] if marked else (cand[0] if cand else "?")
            for s in spans:
                if s.get("label") and ("end of the function" in s["label"] or "at this exit" in s["label"]) and mk.get(s["line_start"]):
                    fn = mk[s["line_start"]]
            for l in pl:
                if mk.get(l) and not ("postcondition" in msg):
                    fn = mk[l]
            tags = set()
            for s in spans:
                for l in range(s["line_start"], min(s["line_end"], s["line_start"]) + 1):
                    if 0 < l <= len(lines):
                        tags |= set(re.findall(r"\[(C\d\d)\]", lines[l - 1]))
            rec = {"fn": fn, "message": msg, "tags": sorted(tags), "rendered": (d.get("rendered") or msg)[:3000]}
            if isfail:
                R["failed"].append(rec)
            else:
                hard.append(rec)
        if hard:
            progressed = False
            for h in hard:
                f = h["fn"]
                if f and f != "?" and f not in skip and f in mk.values():
                    skip.append(f)
                    R["skipped"][f] = "beyond the verifier: " + h["message"][:300]
                    progressed = True
            if progressed:
                continue
            R["dead"] = "verus: " + hard[0]["message"][:300]
            R["output"] = hard[0]["rendered"]
            R["failed"] = []
            return R
        if vr.get("encountered-vir-error") or (rc != 0 and not R["failed"]):
            R["dead"] = "verus: exit %s %s" % (rc, e[-300:])
            return R
        if R["verified"] == 0 and not R["failed"]:
            R["dead"] = "verus verified nothing"
        # a closure has no contract but the one written for it: a failure in a function which has gained closures says nothing
        had = CLOSURES.get(unit, {})
        gained = {x["name"] for x in R["extracted"] if x.get("closures", 0) > had.get(x["name"], 0)}
        for f in R["failed"]:
            if f["fn"] in gained:
                R["skipped"][f["fn"]] = "has closures for which there is no contract"
        R["failed"] = [f for f in R["failed"] if f["fn"] not in gained]
        return R
    R["dead"] = "no extraction acceptable to the verifier after %d attempts" % (attempt + 1)
    return R


def canary(vx, unit, skipped):
    """every contract must be satisfiable: `assert(false)` placed in each extracted function must fail"""
    tpl = os.path.join(VERIF, "verus", unit + ".tpl")
    rs = os.path.join(WORK, unit + "_canary.rs")
    rep = os.path.join(WORK, unit + "_canary.json")
    rc, o, e = sh([vx, REPO, tpl, rs, rep], 60, env={"VX_SKIP": "\x1f".join(skipped), "VX_CANARY": "1"})
    if rc != 0:
        return {"ok": None, "why": e[-300:]}
    lines = open(rs).read().split("\n")
    want = {i for i, l in enumerate(lines, 1) if "/*CANARY*/" in l}
    cmd = ["verus", "--crate-type=lib", "--error-format=json", "--output-json", "--multiple-errors", "20", "--num-threads", "8", rs]
    rc, o, e = sh(cmd, 700, cwd=WORK)
    res, diags = parse_verus(o, e)
    hit = set()
    for d in diags:
        for s in d.get("spans", []):
            for l in range(s["line_start"], s["line_end"] + 1):
                hit.add(l)
    missed = [lines[i - 1] for i in want - hit]
    return {"ok": not missed, "placed": len(want), "refuted": len(want & hit), "missed": missed[:5]}


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: property=%s " % prop):
                out.append(l[len("finding: property=%s " % prop):])
    return out


def main():
    prop = sys.argv[1]
    cfg = PROPS[prop]
    os.makedirs(WORK, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    rdir = os.path.join(VERIF, "replay")
    os.makedirs(rdir, exist_ok=True)
    replay = os.path.join(rdir, prop + ".json")
    if os.path.exists(replay):
        os.remove(replay)
    for k in known_findings(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, k))

    vx, verr = build_vx()
    units = []
    if vx:
        for u in cfg["units"]:
            try:
                units.append(run_unit(vx, u))
            except Exception as e:  # not an answer about the code
                units.append({"unit": u, "skipped": {}, "failed": [], "verified": 0, "extracted": [], "time": 0.0, "cmd": "", "output": "", "dead": "check: %r" % e})
    failures, undecided = [], []
    if not vx:
        undecided.append("extractor did not build: " + verr[-300:])
    verified = 0
    fns = []
    assumptions = []
    cans = []
    for R in units:
        u = R["unit"]
        ufns = UNITS[u]["fns"].get(prop) if isinstance(UNITS[u].get("fns"), dict) else None
        assumptions += UNITS[u].get("assumes", [])
        if R["dead"]:
            undecided.append("unit %s: %s" % (u, R["dead"]))
            continue
        for f, why in R["skipped"].items():
            if relevant(prop, u, f, []):
                undecided.append("%s: %s" % (f, why))
        for f in R["failed"]:
            if relevant(prop, u, f["fn"], f["tags"]):
                failures.append(dict(f, unit=u))
        verified += R["verified"]
        for x in R["extracted"]:
            if x["kind"] != "inlined":
                fns.append("%s:%s %s" % (x["file"], x["line"], x["name"]))
        if TIER == "thorough" or os.environ.get("VERIF_CANARY"):
            cans.append(dict(canary(vx, u, list(R["skipped"])), unit=u))

    # the executable oracle
    hb, herr = build_harness()
    hres = None
    hviol = None
    if hb:
        case = os.path.join(WORK, prop + ".case")
        if os.path.exists(case):
            os.remove(case)
        limit = max(60, min(550, T0 + 860 - time.time())) if TIER == "quick" else 3000
        rc, o, e = sh([hb, prop, str(SEED), TIER, case], limit, cwd=WORK)
        last = [l for l in o.split("\n") if l.startswith("{")]
        if rc == 0 and last:
            hres = json.loads(last[-1])
            if hres.get("violation"):
                hviol = hres["violation"]
        else:
            cur = open(case, errors="replace").read() if os.path.exists(case) else ""
            what = "the code under test did not return within %d s" % limit if rc is None else "the code under test brought the process down (exit %s)" % rc
            hviol = {"what": what, "input": cur[:20000], "stderr": e[-2000:]}
    else:
        undecided.append("executable oracle did not build against this tree: " + herr[-600:])

    n_obl = verified + sum(len(set(x["fn"] for x in R["failed"])) for R in units if not R["dead"])
    proof_ran = any(not R["dead"] for R in units)
    ev = {
        "property": prop, "tier": TIER, "seed": SEED,
        "level": "proof" if (cfg["level"] == "proof" and not undecided) else ("exploration" if hres else "other"),
        "wall_s": 0.0,
        "coverage": {
            "obligations": n_obl, "discharged": verified,
            "obligation_unit": "one per verified function, closure or lemma (Verus discharges every pre/postcondition, invariant, overflow, index and termination condition within it)",
            "checker_cmd": " ; ".join(R["cmd"] for R in units) or "none",
            "backend": "Verus 0.2026.09.13 (Z3)",
            "solver_s": round(sum((R.get("smt") or 0) for R in units) / 1000.0, 3) if units else 0,
            "verifier_s": round(sum(R["time"] for R in units), 2),
            "trusted_base": sorted(set(assumptions + ["Verus, vstd and Z3", "vx extraction (drops listed under extraction)"])),
            "functions_under_contract": fns,
            "theorems": cfg.get("theorems", []),
            "extraction": [{k: x[k] for k in ("name", "dropped")} for R in units for x in R["extracted"] if x["dropped"]],
            "inlined": sorted({n for R in units for x in R["extracted"] if x["kind"] == "inlined" for n in x["name"].split()}),
            "failed_obligations": [{"fn": f["fn"], "message": f["message"]} for f in failures],
            "undecided_by_verifier": undecided,
            "bounded_stand_in_for": cfg.get("bounded", []),
            "evaluations": (hres or {}).get("evaluations", 0),
            "distinct_nontrivial": (hres or {}).get("distinct_nontrivial", 0),
            "rule": (hres or {}).get("rule", ""),
            "samples": (hres or {}).get("samples", []),
            "explanation": "Contracts discharged by Verus on text extracted from /repo on this run; the executable oracle (evaluations, bounded, never counted as proved) runs the real crate.",
        },
        "assumptions": sorted(set(assumptions)),
        "violations": 0,
    }
    if cans:
        ev["coverage"]["vacuity_canaries"] = cans

    def finish(rc):
        ev["wall_s"] = round(time.time() - T0, 2)
        json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
        sys.exit(rc)

    if hviol:
        ev["violations"] = 1
        json.dump({"property": prop, "failing": hviol, "seed": SEED, "tier": TIER, "failed_obligations": failures,
                   "how": "%s %s %d %s /dev/null" % ("harness/target/debug/vharness", prop, SEED, TIER)}, open(replay, "w"), indent=1)
        print("failing input: " + str(hviol.get("what"))[:600])
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        finish(1)
    if failures:
        ev["violations"] = 1
        json.dump({"property": prop, "failed_obligations": failures}, open(replay, "w"), indent=1)
        for f in failures[:5]:
            print("failed obligation: %s: %s" % (f["fn"], f["message"]))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, replay))
        finish(1)
    for c in cans:
        if c["ok"] is False:
            print("vacuous contract: %s" % c)
            finish(2)
    if not hres and undecided:
        print("no answer: " + "; ".join(undecided)[:1500])
        finish(2)
    if undecided:
        print("undecided by the verifier, bounded stand-in only: " + "; ".join(undecided)[:1500])
    print("%s held: %d/%d obligations discharged, %d executions of the oracle" % (prop, verified, n_obl, (hres or {}).get("evaluations", 0)))
    finish(0)


def relevant(prop, unit, fn, tags):
    if tags:
        return prop in tags
    m = UNITS[unit].get("props", {})
    for pat, props in m.items():
        if re.search(pat, fn or ""):
            return prop in props
    return True


if __name__ == "__main__":
    main()
