"""Deductive layer: extract the functions under contract from /repo's working tree, assemble the
Verus input (vgen.py, spec/*.vs) and have Verus discharge every obligation.

  deductive.py PROP [-v]      run it alone
  deductive.py --baseline     record the extracted bodies the proofs were written for
"""
import fcntl, json, os, re, subprocess, sys, threading, time
import vgen

VERIF = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(VERIF, ".build")
SPEC = os.path.join(VERIF, "spec")
BASE = os.path.join(SPEC, "baseline.json")
RUSTFLAGS = "-A semicolon_in_expressions_from_macros -A warnings --cfg hastur_verif"
CMD = "verus unit.rs --output-json --time-expanded --num-threads 8 --multiple-errors 8 --rlimit %s --error-format=json"

# what Verus reports about an obligation (anything else is a problem of the text, not of the code)
SEMANTIC = ("postcondition not satisfied", "precondition not satisfied", "assertion failed", "invariant not satisfied",
            "loop ensures not satisfied", "possible arithmetic underflow/overflow", "possible division by zero",
            "possible bit shift underflow/overflow", "decreases not satisfied", "unable to prove assertion",
            "constructed value may fail", "unable to prove", "cannot show")


def props_specs(prop):
    """the spec files a property needs, in order"""
    need = json.load(open(os.path.join(SPEC, "units.json")))
    return need.get(prop, [])


def build_vx():
    env = {k: v for k, v in os.environ.items() if k not in ("RUSTFLAGS", "RUSTC_WRAPPER")}
    env["CARGO_TARGET_DIR"] = os.path.join(BUILD, "vxt")
    p = subprocess.run(["cargo", "build", "--offline", "--locked"], cwd=os.path.join(VERIF, "vx"), env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return None if p.returncode == 0 else "vx does not build: " + p.stdout[-2000:]


def extract():
    """-> (items, None) or (None, message)"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "xlock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        m = build_vx()
        if m:
            return None, m
        env = {k: v for k, v in os.environ.items() if k != "RUSTC_WRAPPER"}
        env.update(RUSTFLAGS=RUSTFLAGS, CARGO_TARGET_DIR=os.path.join(BUILD, "xt"), RUSTC_BOOTSTRAP="1")
        p = subprocess.run(["cargo", "rustc", "--offline", "--locked", "-p", "hastur", "--lib", "--", "-Zunpretty=expanded,hygiene"],
                           cwd=os.path.join(VERIF, "harness"), env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if p.returncode != 0 or not p.stdout:
            return None, "expansion failed: " + p.stderr[-2000:]
        q = subprocess.run([os.path.join(BUILD, "vxt", "debug", "vx"), os.path.join(SPEC, "rename.txt")],
                           input=p.stdout, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if q.returncode != 0:
        return None, "extraction failed: " + q.stderr[-2000:]
    try:
        return json.loads(q.stdout), None
    except ValueError as e:
        return None, "extraction gave no items: %s" % e


def run_verus(unit, d, rlimit):
    """-> (diagnostics [(level, message, [(line, primary, text, label)])], results dict, raw)"""
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "unit.rs"), "w") as f:
        f.write(unit.text + "\n} // verus!\nfn main(){}\n")
    try:
        p = subprocess.run((CMD % rlimit).split(), cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=700)
    except subprocess.TimeoutExpired:
        return None, None, "timeout"
    except OSError as e:
        return None, None, str(e)
    diags, rest = [], []
    for l in p.stderr.splitlines():
        try:
            j = json.loads(l)
        except ValueError:
            rest.append(l)
            continue
        if not isinstance(j, dict) or "message" not in j:
            continue
        sp = [(s["line_start"], s["is_primary"], (s["text"][0]["text"].strip() if s.get("text") else ""), s.get("label") or "") for s in j.get("spans", [])]
        diags.append((j.get("level"), j["message"], sp, j.get("rendered") or ""))
    try:
        res = json.loads(p.stdout)
    except ValueError:
        res = None
    return diags, res, "\n".join(rest) + p.stdout[-500:] if res is None else "\n".join(rest)


def stops(unit, e):
    """the failed obligation is one of the code (not of a hint) that, when violated, ends the program"""
    lines = [n for n, prim, _, _ in e[2] if prim and unit.where(n)[1] == "blk"]
    text = unit.text.split("\n")
    for n in lines:
        before = "\n".join(text[:n - 1])
        here = text[n - 1] if n <= len(text) else ""
        hint = "/*hint*/" in here or before.rfind("/*hint*/") > before.rfind("/*end*/")
        if not hint and any(x in e[1] for x in ("precondition", "arithmetic", "division", "shift")):
            return True
        if "vdiverge()" in here:
            return True
    return False


def key_of(unit, spans):
    """the function an error belongs to"""
    best = None
    for want in (True, False):
        for line, prim, _, _ in spans:
            if prim == want:
                k, kind = unit.where(line)
                if kind == "blk" and k in unit.blocks:
                    return k
                best = best or k
    return best


def analyse(prop, tier, items=None):
    r = dict(level="exploration", obligations=0, discharged=0, failed=[], checker_cmd="", trusted_base=[],
             functions=[], undecided=[], back_end="none", solver_s=0, assumptions=[], log="")
    specs = props_specs(prop)
    if not specs:
        return r
    if items is None:
        items, msg = extract()
        if items is None:
            r["undecided"] = [msg]
            r["log"] = msg
            return r
    base = json.load(open(BASE)) if os.path.exists(BASE) else {}
    d = os.path.join(BUILD, "v_%s_%d" % (prop, os.getpid()))
    try:
        u0 = vgen.Unit(specs, items)
        # C19 (no other way to stop) is an obligation of every function
        todo = {k for k, (b, it) in u0.blocks.items() if prop in b.props or prop == "C19"}
        stubs, undecided, failed, logs = set(), {}, {}, []
        for k in u0.lost:
            if k in todo or k not in u0.blocks:
                undecided[k] = u0.lost[k]
        verify, rl, mods = set(todo), 40, None
        for rnd in range(12):
            u = vgen.Unit(specs, items, stubs=stubs, verify=verify)
            diags, res, raw = run_verus(u, d, rl)
            if diags is None or res is None and not diags:
                undecided["(all)"] = "verifier gave no result: %s" % raw[-600:]
                break
            errs = [x for x in diags if x[0] == "error" and not x[1].startswith("aborting due to")]
            vr = (res or {}).get("verification-results", {})
            hard, soft, limit = [], [], []
            for e in errs:
                if "rlimit" in e[1].lower() or "resource limit" in e[1].lower():
                    limit.append(e)
                elif any(s in e[1] for s in SEMANTIC) and vr.get("encountered-vir-error") is False and vr.get("errors", 0) > 0:
                    soft.append(e)
                else:
                    hard.append(e)
            if hard:
                new = set()
                for e in hard:
                    k = key_of(u, e[2])
                    logs.append("%s: %s" % (k, e[3][:1500]))
                    if k in u.blocks and k not in u.stubbed:
                        new.add(k)
                        undecided[k] = "outside of the verifier's reach: " + e[1][:300]
                if not new:
                    undecided["(all)"] = "the contracts no longer fit the source: " + hard[0][1][:400]
                    break
                stubs |= new
                verify -= new
                continue
            try:
                for m in res["times-ms"]["smt"]["smt-run-module-times"]:
                    r["solver_s"] += sum(x.get("time", 0) for x in m.get("function-breakdown", [])) / 1000.0
            except (KeyError, TypeError):
                pass
            if rnd == 0 or not r["obligations"] or verify >= todo - stubs:
                r["obligations"] = vr.get("verified", 0) + vr.get("errors", 0)
                r["discharged"] = vr.get("verified", 0)
                full = u
            fk, lk = {}, {}
            for e in soft:
                fk.setdefault(key_of(u, e[2]), []).append(e)
            for e in limit:
                lk.setdefault(key_of(u, e[2]), []).append(e)
            # a function the solver gave up on, or one that did not change: once more with more effort
            again = {k for k in list(fk) + list(lk) if k in u.blocks and (k in lk or base.get(k) == vgen.body_hash(u.blocks[k][1]))}
            for k, es in fk.items():
                if k in again:
                    continue
                if k not in u.blocks:
                    undecided[str(k)] = "lemma: " + es[0][1]
                    logs += [e[3] for e in es]
                elif k in u.hints_lost:
                    undecided[k] = "the proof no longer fits the code (%s)" % "; ".join(u.hints_lost[k])
                    logs += [e[3] for e in es]
                elif prop == "C19" and not any(stops(u, e) for e in es):
                    # the function does something else than its contract says, which is for other properties to judge
                    undecided[k] = "contract not established, no way to stop among the failed obligations: " + es[0][1]
                    logs += [e[3] for e in es]
                else:
                    failed[k] = [e for e in es if stops(u, e)] if prop == "C19" else es
                    logs += [e[3] for e in es]
            for k, es in lk.items():
                if k not in u.blocks:
                    undecided[str(k)] = "lemma: solver limit"
            if not again:
                break
            if rl >= 160:
                for k in again:
                    undecided[k] = "solver limit" if k in lk else "fails although the function did not change"
                    logs += [e[3] for e in fk.get(k, []) + lk.get(k, [])]
                break
            rl *= 4
            verify = set(again)
            redone = again
        else:
            redone = set()
        # functions that went through on the second attempt
        done = [k for k in todo if k not in failed and k not in undecided and k not in stubs and k not in u0.lost]
        if "(all)" in undecided:
            done, failed = [], {}
            r["obligations"] = r["discharged"] = 0
        elif r["obligations"]:
            bad = len(failed) + len([k for k in undecided if k not in stubs])
            r["discharged"] = max(0, min(r["obligations"], r["obligations"] - bad))
        if tier == "thorough" and done and not failed:
            # vacuity: with assert(false) at its start every function must fail
            up = vgen.Unit(specs, items, stubs=stubs, verify=set(done), probe=True)
            diags, res, raw = run_verus(up, d, 20)
            hit = set()
            for e in diags or []:
                if e[0] == "error":
                    hit.add(key_of(up, e[2]))
            vac = [k for k in done if k not in hit]
            r["vacuity_probe"] = {"functions": len(done), "vacuous": vac}
            for k in vac:
                undecided[k] = "vacuous: assert(false) at its start is accepted"
                done.remove(k)
        r["functions"] = sorted(done)
        r["undecided"] = ["%s: %s" % (k, v) for k, v in sorted(undecided.items())]
        for k, es in sorted(failed.items()):
            for e in es:
                prim = [s for s in e[2] if s[1]] or e[2]
                oth = [s for s in e[2] if "failed" in s[3]]
                r["failed"].append("%s: %s: %s" % (k, e[1], (oth or prim)[0][2] if e[2] else ""))
        r["log"] = "\n".join(logs)
        r["trusted_base"] = trusted(u0, specs, todo)
        r["back_end"] = "Verus 0.2026.09.13 / Z3"
        r["checker_cmd"] = CMD % 40
        r["solver_s"] = round(r["solver_s"], 2)
        r["assumptions"] = ASSUME + ["contract assumed, not discharged: " + x for x in r["undecided"]]
        r["level"] = "proof" if done and not undecided else "exploration"
        return r
    finally:
        for f in ("unit.rs",):
            try:
                os.unlink(os.path.join(d, f))
            except OSError:
                pass
        try:
            os.rmdir(d)
        except OSError:
            pass


ASSUME = [
    "the extraction (vx, the rewrites listed in DESIGN.md) keeps the meaning of the functions",
    "contracts of the standard library, im, string-interner and nom items as listed in trusted_base",
    "termination of the functions is not claimed",
    "line and column numbers and byte lengths of one text stay below their machine limits (loc_room, cap)",
]


def trusted(u, specs, todo):
    """everything the accepted proofs rest on without being discharged here"""
    out = []
    for f in specs:
        s = open(os.path.join(SPEC, f)).read()
        for m in re.finditer(r"#\[verifier::external_body\]((?:\s*#\[[^\]]*\])*)\s*(?:pub\s+)?(fn|struct)\s+(\w+)", s):
            out.append("%s: external_body %s %s" % (f, m.group(2), m.group(3)))
        for m in re.finditer(r"\baxiom fn (\w+)", s):
            out.append("%s: axiom %s" % (f, m.group(1)))
        for m in re.finditer(r"assume_specification\S*\s*\[([^\]]*)\]", s):
            out.append("%s: assume_specification %s" % (f, m.group(1).strip()))
        for m in re.finditer(r"\b(assume|admit)\s*\(", s):
            out.append("%s: %s" % (f, m.group(1)))
    for k, (b, it) in sorted(u.blocks.items()):
        if k not in todo:
            own = " ".join(p for p in b.props if b.file in props_specs(p))
            out.append("contract of %s (%s)" % (k, "discharged by: " + own if own else "assumed"))
        elif any("external_body" in a for a in b.attr):
            out.append("contract of %s (assumed)" % k)
    return out


class D:
    def __init__(self, prop, tier):
        self.r = None
        self.t = threading.Thread(target=self.go, args=(prop, tier))
        self.t.start()

    def go(self, prop, tier):
        try:
            self.r = analyse(prop, tier)
        except Exception as e:      # the deductive layer must never decide by crashing
            import traceback
            self.r = dict(level="exploration", obligations=0, discharged=0, failed=[], checker_cmd="", trusted_base=[], functions=[],
                          undecided=["internal error: %s" % e], back_end="none", solver_s=0, assumptions=[], log=traceback.format_exc())

    def finish(self):
        self.t.join()
        return self.r


def start(prop, tier):
    return D(prop, tier)


if __name__ == "__main__":
    if sys.argv[1] == "--baseline":
        items, msg = extract()
        if items is None:
            sys.exit(msg)
        fs = sorted(f for f in os.listdir(SPEC) if f.endswith(".vs"))
        u = vgen.Unit(fs, items)
        json.dump({k: vgen.body_hash(it) for k, (b, it) in sorted(u.blocks.items())}, open(BASE, "w"), indent=1)
    else:
        t = time.time()
        r = analyse(sys.argv[1], os.environ.get("VERIF_TIER", "quick"))
        if "-v" in sys.argv:
            print(r["log"])
        for k in ("level", "obligations", "discharged", "failed", "undecided", "solver_s"):
            print(k, r[k])
        print(len(r["functions"]), "functions;", r.get("vacuity_probe"), "wall", round(time.time() - t, 1))
