"""Make and verify one planted bug (development aid; no check uses it).

plant.py make  BUGS.py [id ...]   write seeded/<id>/ from the definitions and verify
plant.py verify [id ...]          verify the existing seeded/<id>/
"""
import importlib.util
import json
import os
import re
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, "seeded")
REPO = "/repo"
BASE = "b6b09dd"

PRELUDE = '''import os
import sys
import tempfile
import warnings

sys.path.insert(0, os.getcwd())
warnings.filterwarnings("ignore")
import numpy as np
import xarray as xr
import VolterraBasis as vb
import VolterraBasis.basis as bf


def expect(ok, what):
    if not ok:
        print("BROKEN:", what)
        sys.exit(1)


def walk(n, dim=1, seed=0, dt=0.1):
    """A bounded random trajectory with x, v and a"""
    rng = np.random.default_rng(seed)
    x = np.zeros((n + 2, dim))
    v = np.zeros(dim)
    for i in range(1, n + 2):
        v = 0.9 * v - 0.2 * x[i - 1] + 0.4 * rng.normal(size=dim)
        x[i] = x[i - 1] + dt * v
    return vb.compute_va(vb.xframe(x, np.arange(n + 2) * dt))


def estimator(trajs, model=vb.Pos_gle, basis=None, trunc=1.0, **kw):
    basis = bf.BSplineFeatures(6, k=3) if basis is None else basis
    return vb.Estimator_gle(trajs, model, basis, trunc=trunc, saveall=False, verbose=False, **kw)


def same(a, b, what, tol=1e-9):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    expect(a.shape == b.shape and np.allclose(a, b, rtol=tol, atol=tol * max(1.0, np.max(np.abs(b)) if b.size else 1.0)), what)


'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def clean():
    sh("git -C /repo checkout -- .")


def make(b):
    d = os.path.join(SEEDED, b["id"])
    os.makedirs(d, exist_ok=True)
    assert sh("git -C /repo status --porcelain").stdout == ""
    try:
        for path, old, new in b["edits"]:
            p = os.path.join(REPO, "VolterraBasis", path)
            s = open(p).read()
            assert s.count(old) == 1, (b["id"], s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run("git -C /repo diff", shell=True, stdout=subprocess.PIPE).stdout
    finally:
        clean()
    open(os.path.join(d, "patch.diff"), "wb").write(diff)
    open(os.path.join(d, "demo.py"), "w").write(PRELUDE + b["demo"].strip() + '\nprint("fine")\n')
    open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1\nexec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)


def original_lines(bid):
    """the removed lines must be lines of the original repository"""
    diff = open(os.path.join(SEEDED, bid, "patch.diff")).read()
    bad = []
    f = None
    for line in diff.splitlines():
        if line.startswith("--- a/"):
            f = line[6:]
            orig = set(x.rstrip("\n") for x in subprocess.run(["git", "-C", REPO, "show", BASE + ":" + f], stdout=subprocess.PIPE, text=True).stdout.splitlines())
        elif line.startswith("-") and not line.startswith("---"):
            if line[1:] not in orig:
                bad.append(line)
    return bad


def verify(bid, check=True):
    d = os.path.join(SEEDED, bid)
    meta = json.load(open(os.path.join(d, "meta.json")))
    out = {"id": bid, "property": meta["property"]}
    bad = original_lines(bid)
    if bad:
        out["not_original"] = bad
    r = sh("bash {}/demo.sh".format(d), cwd=REPO)
    out["demo_clean"] = r.returncode
    if r.returncode:
        out["demo_out"] = r.stdout[-800:]
    try:
        r = sh("git -C /repo apply {}/patch.diff".format(d))
        assert r.returncode == 0, r.stdout
        r = sh("bash /opt/vp/build.sh")
        out["build"] = r.returncode
        r = sh("bash /opt/vp/test.sh /tmp/o.json")
        res = json.load(open("/tmp/o.json"))
        base = json.load(open("/opt/vp/BASELINE.json"))
        stable = base.get("passed") or base.get("stable") or base
        out["tests"] = all(t in res.get("passed", []) for t in stable)
        r = sh("bash {}/demo.sh".format(d), cwd=REPO)
        out["demo_bug"] = r.returncode
        out["demo_msg"] = r.stdout.strip().splitlines()[-1:] if r.stdout.strip() else ""
        if check:
            caught = []
            for p in [meta["property"]] + list(meta.get("also", [])):
                r = sh("./check {}".format(p), cwd=ROOT)
                caught.append((p, r.returncode, [x for x in r.stdout.splitlines() if " x" in x][:2]))
            out["checks"] = caught
    finally:
        clean()
    return out


def ok(o):
    return not o.get("not_original") and o["demo_clean"] == 0 and o.get("build") == 0 and o.get("tests") and o.get("demo_bug") not in (0, None)


if __name__ == "__main__":
    if sys.argv[1] == "make":
        spec = importlib.util.spec_from_file_location("bugs", sys.argv[2])
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        ids = sys.argv[3:] or [b["id"] for b in m.BUGS]
        for b in m.BUGS:
            if b["id"] in ids:
                make(b)
    else:
        ids = sys.argv[2:] or sorted(os.listdir(SEEDED))
    for i in ids:
        o = verify(i)
        print("OK " if ok(o) else "BAD", "CAUGHT" if o.get("checks") and o["checks"][0][1] == 1 else "MISSED", json.dumps(o), flush=True)
    sh("bash /opt/vp/build.sh")
