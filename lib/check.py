#!/usr/bin/env python3
"""Entry point of every check: check.py <property id>.
Emits the verified text from /repo's working tree, discharges every obligation of the property, and
reports: exit 0, or exit 1 with a VIOLATION line."""
import importlib, json, os, re, shutil, sys, time, traceback
sys.path[:0] = [os.path.dirname(os.path.abspath(__file__)), os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "props")]
import emit, irvc, vrun
from vrun import VERIF, TIER, SEED

KNOWN = VERIF + "/known_findings.txt"


def glob(s, pat):
    return re.fullmatch(".*".join(re.escape(x) for x in pat.split("*")), s) is not None


class Plan:
    """what a property module returns: the tasks, a concrete searcher and the trusted base"""
    def __init__(self, tasks, search=None, retry=None, assumptions=(), trusted=(), notes="", wall=500, extra=None, level="proof"):
        self.tasks, self.search, self.retry = tasks, search, retry
        self.assumptions, self.trusted, self.notes, self.wall, self.extra = list(assumptions), list(trusted), notes, wall, extra or {}
        self.level = level


TRUSTED = ["the symbolic executor and verification-condition generator /verif/lib/irvc.py (LLVM IR semantics)",
           "z3 5.3.2 and cvc5 1.1.2", "opt-18 -passes=mem2reg (SSA construction of the emitted IR)"]
TR_ALUSUS = ["the repository's own compiler as the producer of the verified IR (the same IR it hands to LLVM); LLVM code generation after it",
             "llvm-as-14 (reads the IR the compiler printed)"]
TR_CXX = ["clang 18 front end as producer of the verified IR from the C++ sources"]


def load_known(prop):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN, encoding="utf-8"):
            m = re.match(r"finding: property=(\S+) task=(\S+) obligation=(\S+) :: (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append(m.groups()[1:])
    return out


def evidence(prop, level, coverage, wall, violations, assumptions):
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    d = {"property": prop, "tier": TIER, "seed": SEED, "level": level, "coverage": coverage, "wall_s": round(wall, 2),
         "violations": violations, "assumptions": assumptions}
    with open("%s/evidence/%s.json" % (VERIF, prop), "w", encoding="utf-8") as f:
        json.dump(d, f, indent=1, default=str, ensure_ascii=False)
        f.write("\n")


def violation(prop, text, concrete):
    d = VERIF + "/evidence/replay"
    os.makedirs(d, exist_ok=True)
    p = "%s/%s.txt" % (d, prop)
    with open(p, "w", encoding="utf-8", errors="surrogateescape") as f:
        f.write(text)
    print("VIOLATION property=%s replay=%s%s" % (prop, p, "" if concrete else " no-failing-input-found"))
    return 1


def describe(bad):
    o = []
    for r in bad:
        if r["undecided"]:
            o.append("UNDECIDED %s (%s): %s" % (r["name"], r["function"], r["undecided"]))
            if r.get("tb"):
                o.append(r["tb"])
        for f in r["failures"]:
            o.append("FAILED OBLIGATION %s / %s\n   status: %s   at: %s\n   counterexample state: %s" % (r["name"], f["obligation"], f["status"], f["where"], f["inputs"]))
    return "\n".join(o)


def more_time(plan, res, unresolved, is_known, t0):
    """A few undischarged obligations may be a matter of solver time: the same obligations again, with larger limits
    (first those that failed, then those that had been cut off)."""
    import irvc
    bad = unresolved(res)
    real = {r["name"] for r in bad if not r.get("cut")}
    if not real or len(real) > 6:
        return None, bad
    by = {r["name"]: r for r in res}
    irvc.SCALE = 4.0
    try:
        for names, wall in ((real, 200), ({r["name"] for r in bad} - real, 400)):
            if not names:
                continue
            left = 700 - (time.time() - t0)
            if left < 20:
                return None, bad
            r2 = vrun.run_tasks([t for t in plan.tasks if t.name in names], known=is_known, wall=min(wall, left), linger=5)
            if unresolved(r2):
                return None, bad
            by.update((r["name"], r) for r in r2)
    finally:
        irvc.SCALE = 1.0
    return [by[r["name"]] for r in res], []


def main(prop):
    t0 = time.time()
    import registry
    modname, fname, title = registry.CHECKS[prop]
    known = load_known(prop)
    if os.path.exists(VERIF + "/evidence/replay/%s.txt" % prop):
        os.remove(VERIF + "/evidence/replay/%s.txt" % prop)
    cmd = "python3-vt /verif/lib/check.py %s" % prop
    cov = {"obligations": 0, "discharged": 0, "checker_cmd": cmd, "trusted_base": TRUSTED}

    def is_known(task, f):
        return any(glob(task, k[0]) and glob(f["obligation"], k[1]) for k in known)
    try:
        plan = getattr(importlib.import_module(modname), fname)()
    except emit.EmitError as e:
        cov["explanation"] = "extraction failed"
        evidence(prop, "proof", cov, time.time() - t0, 1, [])
        return violation(prop, "property %s: the verified text could not be produced from the current tree\n%s\n" % (prop, e), getattr(e, "concrete", False))
    except Exception as e:
        evidence(prop, "proof", cov, time.time() - t0, 1, [])
        return violation(prop, "property %s: the verified text could not be produced from the current tree\n%s\n" % (prop, traceback.format_exc()), False)
    t1 = time.time()
    res = vrun.run_tasks(plan.tasks, known=is_known, wall=plan.wall * (4 if TIER == "thorough" else 1))

    def unresolved(res):
        return [r for r in res if r["undecided"] or any(not is_known(r["name"], f) for f in r["failures"])]
    bad = unresolved(res)
    log, found = "", None
    if bad:
        log = describe(bad)
        if plan.search:
            try:
                found = plan.search([r for r in bad if not r.get("cut")])
            except Exception:
                log += "\nconcrete search error:\n" + traceback.format_exc()
        if not found:
            again, bad2 = more_time(plan, res, unresolved, is_known, t0)
            if again is not None:
                res, bad = again, bad2
                if not bad:
                    log = ""
        if bad and not found and plan.retry:
            rt = plan.retry([r for r in bad])
            if rt is not None:
                keep = {r["name"] for r in bad}
                res2 = vrun.run_tasks(rt, known=is_known, wall=max(60, 780 - (time.time() - t0)))
                names = {t.name for t in rt}
                res = [r for r in res if r["name"] not in names and r["name"] not in keep] + res2
                bad = unresolved(res2)
                log += "\n---- after retry without the contracts of private helpers:\n" + describe(bad)
    s = vrun.summarize(res)
    # known findings: report those that still fail
    kf = {}
    for r in res:
        for f in r["failures"]:
            for k in known:
                if glob(r["name"], k[0]) and glob(f["obligation"], k[1]):
                    kf.setdefault(k, []).append(r["name"] + ":" + f["obligation"])
    for k in kf:
        print("KNOWN-FINDING: property=%s %s" % (prop, k[2]))
    cov = {"obligations": s["obligations"], "discharged": s["discharged"], "checker_cmd": cmd,
           "trusted_base": TRUSTED + plan.trusted,
           "functions_under_contract": s["functions"], "by_back_end": s["by"], "solver_s": round(s["solver_s"], 1),
           "loops": s["loops"], "invariants_proved": s["invariants"], "counted_loops_unrolled_completely": s["unrolled"],
           "reachable_pre_states": s["covers"], "inlined": sorted(s["inlined"]), "contracts_assumed_at_calls": sorted(s["contracts"]),
           "bounded_tasks": s["bounded"], "known_findings": {k[2]: v for k, v in kf.items()},
           "tasks": [{"task": r["name"], "obligations": r["obl"], "failed": len(r["failures"]), "wall_s": round(r.get("wall", 0), 1)} for r in res],
           "emission_s": round(t1 - t0, 1), "notes": plan.notes}
    cov.update(plan.extra)
    if plan.level == "translation_validation":
        cov["disagreements_checked"] = s["obligations"]
    evidence(prop, plan.level, cov, time.time() - t0, 1 if bad or found else 0, plan.assumptions)
    if found:
        return violation(prop, "property %s (%s) is violated.\n\n==== failing execution of the real code\n%s\n\n==== failed obligations\n%s\n" % (prop, title, found, log), True)
    if bad:
        return violation(prop, "property %s (%s): obligations not discharged; no failing input was found.\n\n%s\n" % (prop, title, log), False)
    print("ok %s: %d obligations discharged of %d (%d tasks, %.0f s)" % (prop, s["discharged"], s["obligations"], len(res), time.time() - t0))
    return 0


if __name__ == "__main__":
    try:
        rc = main(sys.argv[1])
    except Exception:
        traceback.print_exc()
        rc = violation(sys.argv[1], "internal error of the check\n" + traceback.format_exc(), False)
    sys.stdout.flush()
    shutil.rmtree(os.path.join(emit.CACHE, "work-%d" % os.getpid()), ignore_errors=True)
    os._exit(rc)
