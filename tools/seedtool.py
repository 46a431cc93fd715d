"""Confirms planted changes: python3 tools/seedtool.py ID [--new DIR] ...

For each /verif/seeded/ID: the patch applies, the tree builds, the stable tests
pass, the demonstration fails with the change and passes without it, and which
checks report it.  Works on /repo and restores it.  Not used by any check.
"""
import json
import os
import subprocess
import sys

V = "/verif/seeded"


def sh(cmd, timeout=900, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, timeout=timeout,
                          errors="replace", **kw)


def restore():
    sh("git -C /repo checkout -- .")


def one(i, checks=None, tests=True):
    d = os.path.join(V, i)
    meta = json.load(open(os.path.join(d, "meta.json")))
    res = {}
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "/repo is not clean"
    try:
        p = sh("git -C /repo apply %s/patch.diff" % d)
        if p.returncode:
            return {"apply": p.stderr}
        if tests:
            p = sh("bash /opt/vp/test.sh /tmp/seed-out.json")
            try:
                r = json.load(open("/tmp/seed-out.json"))
            except Exception:
                return {"tests": p.stderr[-2000:]}
            stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            res["stable"] = all(s in r["passed"] for s in stable)
        else:
            p = sh("bash /opt/vp/build.sh")
            if p.returncode:
                return {"build": (p.stdout + p.stderr)[-3000:]}
        p = sh("bash %s/demo.sh" % d, cwd="/repo", timeout=300)
        res["demo_with"] = p.returncode
        res["demo_out"] = (p.stdout + p.stderr)[-300:]
        for c in (checks if checks is not None else [meta["property"]]):
            p = sh("python3 /verif/check.py %s --tier quick --seed 1" % c, cwd="/verif")
            res["check " + c] = p.returncode
            res["msg " + c] = [l for l in p.stdout.splitlines() if "VIOLATION" in l or "FAIL" in l][:1]
    finally:
        restore()
    return res


if __name__ == "__main__":
    ids = [a for a in sys.argv[1:] if not a.startswith("--")]
    tests = "--notest" not in sys.argv
    bad = []
    allres = {}
    for i in ids:
        allres[i] = one(i, tests=tests)
        print(i, json.dumps(allres[i])[:900], flush=True)
    if "--nobase" not in sys.argv:
        sh("bash /opt/vp/build.sh")
        for i in ids:
            p = sh("bash %s/%s/demo.sh" % (V, i), cwd="/repo", timeout=300)
            print(i, "demo on the unchanged tree:", p.returncode, (p.stdout + p.stderr)[-300:] if p.returncode else "", flush=True)
