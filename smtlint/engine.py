"""Runs rules over the scenario suite in parallel and merges what they find."""
import multiprocessing as mp
import os
import time
import traceback

import rules
import scen
from index import AnalysisBroken, Index

_G = {}


def _work(i):
    ix, scs, fns = _G["ix"], _G["scs"], _G["fns"]
    sc = scs[i]
    t0 = time.time()
    out = {"name": sc.name, "findings": [], "count": {}, "error": None, "funcs": [], "dead": False, "unresolved": {}}
    try:
        r = scen.run_scenario(ix, sc, budget=_G["budget"])
        cx = rules.Ctx(r)
        for fn in fns:
            for f in fn(cx):
                out["findings"].append(f)
        out["count"] = cx.count
        out["facts"] = sorted(set(cx.facts), key=str)
        out["funcs"] = sorted(f.qual for f in r.I.funcs_seen if not f.module.synthetic) if r.I.funcs_seen and hasattr(next(iter(r.I.funcs_seen)), "qual") else sorted(map(str, r.I.funcs_seen))
        out["dead"] = r.dead
        out["calls"] = r.I.ncalls
        out["unresolved"] = {str(k): v for k, v in list(r.I.unresolved.items())[:20]}
    except AnalysisBroken as e:
        out["error"] = "not analysable: %s" % e
    except RecursionError:
        out["error"] = "recursion too deep"
    except Exception as e:
        out["error"] = "internal: %r %s" % (e, traceback.format_exc().splitlines()[-3:])
    out["wall"] = time.time() - t0
    return out


WEIGHT = {"moe:": 30, "ego:": 35, "surrogate:MFKPLSK": 20, "surrogate:MFK": 20, "surrogate:KRG": 8, "surrogate:GENN": 15, "surrogate:RMT": 8}


def weight(sc):
    if "line_search" in sc.name:
        return 25
    if "[RMTB]" in sc.name:
        return 70
    for k, w in WEIGHT.items():
        if sc.name.startswith(k):
            return w
    return 1


def analyse(ix, scs, fns, budget=400000, procs=8):
    import sys
    sys.setrecursionlimit(20000)
    scs = sorted(scs, key=weight, reverse=True)
    _G.update(ix=ix, scs=scs, fns=fns, budget=budget)
    ctx = mp.get_context("fork")
    with ctx.Pool(procs, maxtasksperchild=1) as pool:
        return list(pool.imap_unordered(_work, range(len(scs)), chunksize=1))


def merge(results):
    found, count = {}, {}
    for o in results:
        for f in o["findings"]:
            g = found.setdefault(f.key, f)
            if o["name"] not in g.scenarios:
                g.scenarios.append(o["name"])
        for k, v in o["count"].items():
            count[k] = count.get(k, 0) + v
    return found, count


if __name__ == "__main__":
    import sys
    names = sys.argv[1].split(",")
    pats = sys.argv[2:]
    ix = Index()
    scs = [s for s in scen.suite(ix) if not pats or any(s.name.startswith(p) for p in pats)]
    t0 = time.time()
    res = analyse(ix, scs, [getattr(rules, n) for n in names])
    found, count = merge(res)
    for o in sorted(res, key=lambda o: -o["wall"])[:12]:
        print("%6.1f %s %s" % (o["wall"], o["name"], o["error"] or ""))
    for o in res:
        if o["error"] or o["dead"]:
            print("!!", o["name"], o["error"], "dead" if o["dead"] else "")
    for f in found.values():
        print(f.text(), "|", f.construct, "|", f.scenarios[:6], len(f.scenarios))
    print(count, "%.1f" % (time.time() - t0))
