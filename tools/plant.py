"""Builds the planted bugs under /verif/seeded from their definitions in tools/plants.py (edits + demonstration).

plant.py ID...        make patch, demo and meta; confirm: demo passes on /repo, fails with the patch, tests pass with it
plant.py --check ID   run the property's check against the change (on a scratch copy)
"""
import json, os, shutil, subprocess, sys, importlib.util, time
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PY = "/opt/venv/bin/python"
DEMO = """#!/bin/bash
# run in the repository after the build; the demonstration is demo.py
here="$(cd "$(dirname "$0")" && pwd)"
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec "$py" -W ignore "$here/demo.py"
"""


def load():
    spec = importlib.util.spec_from_file_location("plants", os.path.join(HERE, "plants.py"))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m.PLANTS


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def copy(pid, kind="wt"):
    d = "/tmp/%s-%s" % (kind, pid)
    shutil.rmtree(d, ignore_errors=True)
    sh("cp -a /repo %s" % d, "/")
    return d


def edit(d, p):
    for f, old, new in p["edits"]:
        path = os.path.join(d, f)
        s = open(path).read()
        if s.count(old) != 1:
            raise SystemExit("%s: %d matches of the text in %s:\n%s" % (p["id"], s.count(old), f, old))
        open(path, "w").write(s.replace(old, new))


def main():
    check = "--check" in sys.argv
    ids = [a for a in sys.argv[1:] if not a.startswith("--")]
    notest = "--notest" in sys.argv
    for p in load():
        if ids and p["id"] not in ids:
            continue
        d = copy(p["id"], "wc" if check else "wt")
        try:
            edit(d, p)
            if check:
                t = time.time()
                env = dict(os.environ, SMTLINT_REPO=d)
                for prop in [p["property"]] if "--all" not in sys.argv else p.get("also", [p["property"]]):
                    r = subprocess.run(["python3", os.path.join(VERIF, "smtlint/check.py"), prop], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                    print("%-34s %s rc=%d %.0fs" % (p["id"], prop, r.returncode, time.time() - t))
                    for l in [x for x in r.stdout.splitlines() if not x.startswith((" ", "VIOLATION", "property"))][:4]:
                        print("      ", l[:230])
                continue
            out = os.path.join(VERIF, "seeded", p["id"])
            os.makedirs(out, exist_ok=True)
            diff = subprocess.run(["git", "diff"], cwd=d, stdout=subprocess.PIPE, text=True).stdout
            open(os.path.join(out, "patch.diff"), "w").write(diff)
            open(os.path.join(out, "demo.sh"), "w").write(DEMO)
            open(os.path.join(out, "demo.py"), "w").write(p["demo"].lstrip())
            json.dump({"property": p["property"], "needs": p["needs"], "what_it_breaks": p["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
            if any(f.endswith((".cpp", ".hpp", ".pyx")) for f, _, _ in p["edits"]):
                b = sh("%s setup.py build_ext --inplace" % PY, d)
                if b.returncode:
                    print(p["id"], "BUILD FAILED", b.stdout[-800:])
                    continue
            a = sh("bash %s/demo.sh" % out, "/repo")
            b = sh("bash %s/demo.sh" % out, d)
            ok = a.returncode == 0 and b.returncode != 0
            msg = "demo clean=%d patched=%d" % (a.returncode, b.returncode)
            if not ok:
                print(p["id"], "DEMO BAD", msg, "\n--- clean\n", a.stdout[-800:], "\n--- patched\n", b.stdout[-800:])
                continue
            print(p["id"], msg, b.stdout.strip().splitlines()[-1][:150] if b.stdout.strip() else "")
            if not notest:
                base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
                r = sh("%s -m pytest -q -p no:cacheprovider -n 6 --dist worksteal --timeout=600 -p no:warnings --randomly-seed=1 --randomly-dont-reorganize -o junit_family=xunit2 --junitxml=%s/junit.xml smt > %s/pytest.txt 2>&1; python3 /opt/vp/results.py %s/out.json junit:%s/junit.xml; tail -1 %s/pytest.txt" % (PY, d, d, d, d, d), d, env=dict(os.environ, PYTHONPATH=d))
                res = json.load(open(d + "/out.json"))
                passed = set(res.get("passed", res.get("pass", [])))
                bad = [t for t in base if t not in passed]
                print("   tests:", r.stdout.strip().splitlines()[-1][:120], "BROKEN: %s" % bad[:5] if bad else "all stable tests pass", flush=True)
        finally:
            shutil.rmtree(d, ignore_errors=True)


main()
