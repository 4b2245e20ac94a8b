#!/usr/bin/env python3
"""Developer aid: new planted change from (file, old, new) edits; verify it in a scratch copy.

mk(id, prop, edits, demo_py, needs, breaks)  writes seeded/<id>/
seed.py verify ID [--tests]                  runs demo with/without, stable tests and the property's check in a scratch copy
"""
import difflib
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, MPLBACKEND="Agg", BEEP_ENV="dev", TQDM_OFF="1", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1",
           OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", AWS_EC2_METADATA_DISABLED="true", PATH="/opt/venv/bin:" + os.environ["PATH"])

SH = '''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
export MPLBACKEND=Agg BEEP_ENV=dev TQDM_DISABLE=1 PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 PYTHONPATH="$PWD"
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
DEMO_REPO="$PWD"; export DEMO_REPO
cd "$d" && /opt/venv/bin/python -W ignore "$here/demo.py"
'''


def mk(id, prop, edits, demo, needs, breaks):
    d = os.path.join(ROOT, "seeded", id)
    os.makedirs(d, exist_ok=True)
    patch = ""
    files = {}
    for f, old, new in edits:
        src = files.get(f) or open(os.environ.get("SEED_SRC", "/repo") + "/" + f).read()
        assert src.count(old) == 1, (id, f, src.count(old), old)
        files[f] = src.replace(old, new)
    for f, new in files.items():
        a = open(os.environ.get("SEED_SRC", "/repo") + "/" + f).read().splitlines(True)
        patch += f"diff --git a/{f} b/{f}\n" + "".join(difflib.unified_diff(a, new.splitlines(True), "a/" + f, "b/" + f))
    open(d + "/patch.diff", "w").write(patch)
    open(d + "/demo.py", "w").write(demo)
    open(d + "/demo.sh", "w").write(SH)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)


def verify(id, tests=False):
    d = os.path.join(ROOT, "seeded", id)
    prop = json.load(open(d + "/meta.json"))["property"]
    tmp = tempfile.mkdtemp(prefix="seed-")
    sc = tmp + "/repo"
    try:
        subprocess.check_call(["cp", "-a", os.environ.get("SEED_SRC", "/repo"), sc])
        demo = lambda: subprocess.run(["bash", d + "/demo.sh"], cwd=sc, env=ENV, capture_output=True, text=True)
        r0 = demo()
        subprocess.check_call(["git", "-C", sc, "apply", d + "/patch.diff"])
        r1 = demo()
        res = {"clean": r0.returncode, "patched": r1.returncode, "why": (r1.stderr.strip().splitlines() or [""])[-1][:150]}
        if r0.returncode:
            print(r0.stderr[-1500:])
        c = subprocess.run(["./check.sh", prop, "quick"], cwd=ROOT, env=dict(os.environ, REPO_ROOT=sc, EVIDENCE_DIR=tmp), capture_output=True, text=True)
        res["check"] = c.returncode
        res["caught"] = c.returncode == 1 and f"VIOLATION property={prop} " in c.stdout
        res["tail"] = c.stdout.strip().splitlines()[-1][:200]
        if tests:
            subprocess.run([PY, "-m", "pytest", "beep", "-q", "-p", "no:cacheprovider", "--timeout=300", "-n", "8", "--dist", "loadfile",
                            "-o", "junit_family=xunit2", "--junitxml=" + tmp + "/j.xml"], cwd=sc, env=ENV, capture_output=True)
            subprocess.run(["/usr/bin/python3", "/opt/vp/results.py", tmp + "/o.json", "junit:" + tmp + "/j.xml"])
            stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
            res["tests_lost"] = sorted(stable - set(json.load(open(tmp + "/o.json"))["passed"]))
        print(id, json.dumps(res))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    ids = [a for a in sys.argv[2:] if not a.startswith("-")] or sorted(os.listdir(os.path.join(ROOT, "seeded")))
    for i in ids:
        verify(i, "--tests" in sys.argv)
