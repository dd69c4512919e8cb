"""Planted bugs. `seeds.py make [ID...]` writes seeded/<ID>/; `seeds.py try [ID...]` applies each to /repo, runs tests, demo and its check, and undoes it."""
import json
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SEEDS = {}


def seed(id, prop, edits, demo, needs, breaks):
    assert id not in SEEDS
    SEEDS[id] = dict(prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks)


HEAD = "import numpy as np, pandas as pd, sys, json, warnings\nwarnings.simplefilter('ignore')\nimport hadar as hd\n"
O = "hadar/optimizer/"

for f in sorted(os.listdir(os.path.join(HERE, "tools", "seeds.d"))):
    if f.endswith(".py"):
        exec(open(os.path.join(HERE, "tools", "seeds.d", f)).read())


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def make(id):
    s = SEEDS[id]
    d = os.path.join(HERE, "seeded", id)
    os.makedirs(d, exist_ok=True)
    try:
        for path, old, new in s["edits"]:
            p = os.path.join(REPO, path)
            t = open(p).read()
            assert t.count(old) == 1, (id, path, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        diff = subprocess.check_output(["git", "-C", REPO, "diff"], text=True)
    finally:
        subprocess.check_call(["git", "-C", REPO, "checkout", "-q", "--", "."])
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.py"), "w").write(HEAD + s["demo"])
    open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH="$PWD"\nexec timeout 250 /opt/venv/bin/python -W ignore "$(dirname "$(readlink -f "$0")")/demo.py"\n')
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)


def tests():
    out = tempfile.mktemp(suffix=".json")
    sh(["bash", "/opt/vp/test.sh", out])
    r = json.load(open(out))
    os.remove(out)
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = set(base["stable"])
    return sorted(stable - set(r["passed"]))


def attempt(id, checks=None):
    s = SEEDS[id]
    d = os.path.join(HERE, "seeded", id)
    clean = sh(["bash", os.path.join(d, "demo.sh")], cwd=REPO)
    line = "%s %s" % (id, s["prop"])
    try:
        subprocess.check_call(["git", "-C", REPO, "apply", os.path.join(d, "patch.diff")])
        lost = tests()
        demo = sh(["bash", os.path.join(d, "demo.sh")], cwd=REPO)
        res = []
        for c in checks or [s["prop"]]:
            r = sh(["bash", os.path.join(HERE, "run.sh"), c], cwd=HERE)
            res.append("%s:%s %s" % (c, {0: "MISSED", 1: "caught"}.get(r.returncode, "ERROR"), r.stdout.strip().splitlines()[0][:150] if r.stdout.strip() else ""))
    finally:
        subprocess.check_call(["git", "-C", REPO, "checkout", "-q", "--", "."])
    lp = os.path.join(HERE, "tools", "seeds.log.json")
    log = json.load(open(lp)) if os.path.exists(lp) else {}
    log[id] = "; ".join(x.split(" ")[0].replace(":", " ") + " (" + x.split(" ")[1].rstrip(":") + ")" if len(x.split(" ")) > 1 else x for x in res)
    json.dump(log, open(lp, "w"), indent=1, sort_keys=True)
    print(line, "demo clean=%d bug=%d" % (clean.returncode, demo.returncode), "" if not lost else "TESTS FAIL %s" % lost[:3], " | ".join(res), flush=True)
    if clean.returncode or not demo.returncode:
        print("   ", clean.stdout[-300:], "//", demo.stdout[-300:])


if __name__ == "__main__":
    ids = [x for x in sys.argv[2:] if not x.startswith("--")] or list(SEEDS)
    for i in ids:
        (make if sys.argv[1] == "make" else attempt)(i)
