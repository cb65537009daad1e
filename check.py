#!/usr/bin/env python3
"""Decide one property of /repo's current working tree.

  check.py PROP             run the check of PROP (VERIF_TIER, VERIF_SEED from the environment)
  check.py --replay FILE    run the failing input recorded in FILE again on the current tree
  check.py --setup          build once (optional; every check builds what it needs)

Layer 1 (deciding): contracts on the functions of /repo, extracted from the current source
and discharged by Verus (see deductive.py).  Layer 2: the bounded contract harness in
harness/, which runs the real crate; it stands in where a function is out of the verifier's
reach and searches failing inputs for failed obligations.
"""
import json, os, subprocess, sys, time, fcntl

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")
EVID = os.path.join(VERIF, "evidence")
REPLAY = os.path.join(BUILD, "replay")
KNOWN = os.path.join(VERIF, "known-findings.txt")
RUSTFLAGS = "-A semicolon_in_expressions_from_macros -A warnings --cfg hastur_verif"

sys.path.insert(0, VERIF)


def tier():
    return "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"


def seed():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return 1


def build_harness():
    """Build the bounded harness against /repo's working tree. -> (binary or None, message)"""
    os.makedirs(BUILD, exist_ok=True)
    env = dict(os.environ, RUSTFLAGS=RUSTFLAGS, CARGO_TARGET_DIR=os.path.join(BUILD, "target"))
    env.pop("RUSTC_WRAPPER", None)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        p = subprocess.run(["cargo", "build", "--offline", "--locked"], cwd=os.path.join(VERIF, "harness"),
                           env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    b = os.path.join(BUILD, "target", "debug", "hcheck")
    if p.returncode != 0:
        return None, p.stdout[-4000:]
    return b, ""


def run_harness(binary, prop, t, sd, budget, only=None):
    """-> result dict with 'failure' None or {input, message}"""
    out = os.path.join(BUILD, "h_%s_%d.json" % (prop, os.getpid()))
    trace = out + ".trace"
    cmd = [binary, prop, "--tier", t, "--seed", str(sd), "--budget", str(budget), "--out", out]
    if only is not None:
        cmd += ["--only", str(only)]
    def go(extra, limit):
        if os.path.exists(out):
            os.unlink(out)
        try:
            p = subprocess.run(cmd + extra, cwd=BUILD, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=limit, errors="replace")
            return p.returncode, p.stdout
        except subprocess.TimeoutExpired as e:
            return None, "timeout"
    rc, log = go([], budget + 60)
    res = None
    if rc in (0, 1) and os.path.exists(out):
        res = json.load(open(out))
    elif rc is not None and (rc < 0 or rc == 134):
        # the code under test took the process down (stack overflow, abort): find the case
        rc2, log2 = go(["--trace", trace], budget + 120)
        if os.path.exists(out) and rc2 in (0, 1):
            res = json.load(open(out))
        elif os.path.exists(trace):
            res = {"evaluations": 1, "distinct_nontrivial": 1, "rule": "crash", "samples": [],
                   "failure": {"input": open(trace, errors="replace").read(), "message": "process died (%s): %s" % (rc, log[-300:])}}
    for f in (out, trace):
        if os.path.exists(f):
            os.unlink(f)
    if res is None:
        return {"error": "harness ended with %s: %s" % (rc, log[-500:])}
    return res


def known(prop):
    """Lines of the known-findings file that suppress (none of the 'fixed:' entries do)."""
    r = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            if l.startswith("finding: property=%s " % prop):
                r.append(l[len("finding: property=%s " % prop):].strip())
    return r


def write_replay(prop, data):
    os.makedirs(REPLAY, exist_ok=True)
    p = os.path.join(REPLAY, "%s.json" % prop)
    json.dump(data, open(p, "w"), indent=1, ensure_ascii=False)
    return p


def main():
    if sys.argv[1] == "--setup":
        b, msg = build_harness()
        print("harness", "built" if b else msg)
        import deductive
        items, msg = deductive.extract()
        print("extracted %d items" % len(items) if items else msg)
        return 0
    if sys.argv[1] == "--replay":
        d = json.load(open(sys.argv[2]))
        print(json.dumps({k: v for k, v in d.items() if k != "verifier_output"}, indent=1, ensure_ascii=False))
        if "case" not in d:
            print(d.get("verifier_output", ""))
            return 0
        b, msg = build_harness()
        r = run_harness(b, d["property"], d["tier"], d["seed"], 600, d["case"])
        print("replayed:", r.get("failure") or r.get("error") or "no failure on this tree")
        return 1 if r.get("failure") else 0

    prop, t, sd = sys.argv[1], tier(), seed()
    t0 = time.time()
    import deductive
    os.makedirs(EVID, exist_ok=True)

    # layer 1 runs while the harness builds
    ded = deductive.start(prop, t)
    binary, msg = build_harness()
    budget = 60 if t == "quick" else 600
    har = run_harness(binary, prop, t, sd, budget) if binary else {"error": "harness does not build: " + msg}
    d = ded.finish()

    verdict, viol = None, 0
    if har.get("error") and "harness does not build" not in har["error"]:
        print(har["error"])
    failed = d["failed"]            # obligations that failed with everything around them intact
    if failed and not har.get("failure") and binary:
        # look harder for a failing input behind the failed obligation
        for k in range(1, 4):
            h2 = run_harness(binary, prop, "thorough", sd + 1000 * k, 60)
            if h2.get("failure"):
                har = dict(h2, searched_seed=sd + 1000 * k, searched_tier="thorough")
                break
    if har.get("failure"):
        f = har["failure"]
        no = None
        import re
        m = re.match(r"case (\d+)", f["input"])
        if m:
            no = int(m.group(1))
        p = write_replay(prop, {"property": prop, "tier": har.get("searched_tier", t), "seed": har.get("searched_seed", sd), "case": no,
                                "input": f["input"], "message": f["message"], "failed_obligations": failed,
                                "verifier_output": d.get("log", "")[-20000:]})
        print("failing input: %s\n  %s" % (f["input"][:2000], f["message"][:2000]))
        verdict = "VIOLATION property=%s replay=%s" % (prop, p)
        viol = 1
    elif failed:
        p = write_replay(prop, {"property": prop, "failed_obligations": failed, "verifier_output": d.get("log", "")[-40000:]})
        for o in failed:
            print("failed obligation: %s" % o)
        verdict = "VIOLATION property=%s replay=%s no-failing-input-found" % (prop, p)
        viol = 1
    for k in known(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, k))

    proved = d["level"] == "proof"
    cov = {
        "obligations": d["obligations"], "discharged": d["discharged"],
        "checker_cmd": d["checker_cmd"], "trusted_base": d["trusted_base"],
        "functions_under_contract": d["functions"], "functions_undecided": d["undecided"],
        "back_end": d["back_end"], "solver_s": d["solver_s"],
        "evaluations": har.get("evaluations", 0), "distinct_nontrivial": har.get("distinct_nontrivial", 0),
        "rule": "bounded stand-in for what is not under contract: " + har.get("rule", ""),
        "samples": har.get("samples", []) or ["(none)"],
    }
    ev = {"property": prop, "tier": t, "seed": sd, "level": d["level"], "coverage": cov,
          "assumptions": d["assumptions"] + ([har["error"]] if har.get("error") else []),
          "wall_s": round(time.time() - t0, 3), "violations": viol}
    json.dump(ev, open(os.path.join(EVID, prop + ".json"), "w"), indent=1, ensure_ascii=False)

    if verdict:
        print(verdict)
        return 1
    if har.get("error") and (d["undecided"] or not d["functions"]):
        print("undecided: " + har["error"][:2000])
        return 2
    print("%s holds: %d/%d obligations discharged on %d functions; %d bounded evaluations; undecided: %s" % (
        prop, d["discharged"], d["obligations"], len(d["functions"]), cov["evaluations"], d["undecided"] or "none"))
    return 0


if __name__ == "__main__":
    sys.exit(main())
