"""The command of every check:  python3 smtlint/check.py <PROPERTY> [--tier quick|thorough]

Analyses the source of /repo (or $SMTLINT_REPO), prints what was analysed, writes evidence/<PROPERTY>.json and ends with
0  the property held on everything analysed,
1  VIOLATION lines (one per construct),
2  the analysis itself is broken: an anchor has vanished, or no instance was left to decide.
"""
import json
import os
import sys
import time

if os.environ.get("PYTHONHASHSEED") != "0":
    # the order of sets decides the order of the analysis: keep it fixed, so that every run says the same
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

import engine
import native
import props
import rules
import scen
from index import AnalysisBroken, Index


def known_findings(pid):
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: property=%s " % pid):
                body = line[len("known: property=%s " % pid):]
                key, _, desc = body.partition(" -- ")
                out[key.strip()] = desc.strip()
    return out


def canary(ix, P):
    """every rule that normally finds nothing must still find the defect of a small example"""
    fired, facts = set(), set()
    for src, driver, meta, config in P.canaries:
        m = ix.add_source("smt._example", src)
        m.synthetic = False
        sc = scen.Scenario("example", driver, config, scen.ARGS, ("s",), meta)
        try:
            r = scen.run_scenario(ix, sc)
            cx = rules.Ctx(r)
            for fn in P.rules:
                for f in fn(cx):
                    fired.add(f.rule)
            facts.update(cx.facts)
        finally:
            del ix.modules["smt._example"]
    for fn in P.finish:
        for f in fn(facts):
            fired.add(f.rule)
    for src, fn in P.canaries_static:
        m = ix.add_source("smt._example", src)
        m.synthetic = False
        try:
            for f in fn(rules.StaticCtx(ix)):
                if f.file == "<smt._example>":
                    fired.add(f.rule)
        finally:
            del ix.modules["smt._example"]
    for fn in P.static:
        if getattr(fn, "native", False):
            for f in fn(rules.StaticCtx(native.Example())):
                fired.add(f.rule)
    missing = set(P.expect) - fired
    if missing:
        raise AnalysisBroken("rules that no longer recognise their example: %s" % ", ".join(sorted(missing)))
    return sorted(fired & set(P.expect))


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    P = props.PROPS[pid]
    try:
        ix = Index()
        ok_examples = canary(ix, P)
        results = []
        undecided = []
        if P.kinds:
            scs = scen.suite(ix, P.kinds, tier == "thorough")
            scs = [s for s in scs if P.select(s, tier)]
            if not scs:
                raise AnalysisBroken("no scenario left")
            results = engine.analyse(ix, scs, P.rules)
            undecided = [(o["name"], o["error"] or "the analysed life always ends in an exception") for o in results if o["error"] or o["dead"]]
            if len(undecided) * 2 > len(results):
                raise AnalysisBroken("most scenarios could not be analysed: %s" % undecided[:3])
        found, count = engine.merge(results)
        facts = {x for o in results for x in o.get("facts", ())}
        for fn in P.finish:
            for f in fn(facts):
                found.setdefault(f.key, f)
        if P.static:
            scx = rules.StaticCtx(ix)
            for fn in P.static:
                for f in fn(scx):
                    found.setdefault(f.key, f)
            for k, v in scx.count.items():
                count[k] = count.get(k, 0) + v
            undecided += scx.undecided
        for k, least in P.floor.items():
            if count.get(k, 0) < least:
                raise AnalysisBroken("only %d %s, at least %d expected" % (count.get(k, 0), k, least))
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
        return 2
    known = known_findings(pid)
    new, old = [], []
    for f in sorted(found.values(), key=lambda f: (f.file, f.line, f.key)):
        (old if f.key in known else new).append(f)
    funcs = set()
    for o in results:
        funcs.update(o["funcs"])
    wall = time.time() - t0
    cov = {
        "explanation": P.explain,
        "technique": P.technique,
        "instances": count,
        "scenarios": len(results),
        "scenario_names": sorted(o["name"] for o in results),
        "functions_analysed": len(funcs),
        "calls_interpreted": sum(o.get("calls", 0) for o in results),
        "modules": len(ix.lib_modules()),
        "source_digest": ix.digest(),
        "rules_checked_against_their_example": ok_examples,
        "undecided": undecided,
        "known_findings": [f.key for f in old],
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov, "assumptions": P.assumes, "wall_s": round(wall, 2), "violations": len(new)}
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    print("property %s (%s): %d scenarios, %d functions, %s, %d undecided, %.1f s" % (pid, tier, len(results), len(funcs), ", ".join("%d %s" % (v, k) for k, v in sorted(count.items())), len(undecided), wall))
    for n, why in undecided[:5]:
        print("UNDECIDED %s: %s" % (n, why))
    for f in old:
        print("KNOWN-FINDING: property=%s %s -- %s" % (pid, f.key, known[f.key]))
    if new:
        rp = os.path.join(d, "replay")
        os.makedirs(rp, exist_ok=True)
        for i, f in enumerate(new):
            p = os.path.join(rp, "%s-%d.txt" % (pid, i + 1))
            with open(p, "w") as fh:
                fh.write("property  %s\nrule      %s\nconstruct %s\nwhere     %s:%s in %s\nwhat      %s\npath      %s\nscenarios %s\n" % (pid, f.rule, f.construct, f.file, f.line, f.func, f.msg, " > ".join(f.path), ", ".join(f.scenarios)))
                fh.write("again     python3 /verif/smtlint/check.py %s\n" % pid)
            print(f.text())
            if f.path:
                print("    path: " + " > ".join(f.path))
            print("VIOLATION property=%s replay=%s" % (pid, p))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
