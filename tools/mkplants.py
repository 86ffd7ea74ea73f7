"""Generate and verify the planted bugs below /verif/seeded from tools/plants/*.py.

Each definition file holds PLANTS = [dict(id, property, edits=[(file, old, new)], needs, breaks, demo)].
A plant is kept only if, in a scratch copy of /repo, its patch applies, the build passes, the
stable tests give the baseline result, and its demo exits 0 without and non-zero with it.
usage: mkplants.py [-f] [id-prefix ...]
"""
import glob
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(os.path.dirname(HERE), "seeded")
PY = "/opt/venv/bin/python"
PRELUDE = open(os.path.join(HERE, "plants", "prelude.txt")).read()
SH = """#!/bin/bash
# exit 0 when the behaviour is right, 1 when it is not (run with cwd /repo)
d=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$d/stubs:$PWD" PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=2
exec /opt/venv/bin/python "$d/demo.py"
"""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def stable(copy):
    out = os.path.join(copy, ".junit.xml")
    env = dict(os.environ, PYTHONPATH="/opt/vp/harness", OMP_NUM_THREADS="4",
               PYTHONDONTWRITEBYTECODE="1", CUDA_VISIBLE_DEVICES="", PYTHONHASHSEED="0")
    r = sh([PY, "-m", "pytest", "tests", "-q", "-p", "gradslam_without_open3d", "-p", "no:cacheprovider",
            "--ignore=tests/slam/test_fusionutils.py", "--ignore=tests/structures/test_pointclouds.py",
            "--ignore=tests/structures/test_utils.py", "--ignore=tests/odometry/test_gradicp.py",
            "--ignore=tests/odometry/test_icp.py", "--ignore=tests/odometry/test_icputils.py",
            "--timeout=300", "--continue-on-collection-errors"], cwd=copy, env=env)
    return r.stdout.strip().splitlines()[-1]


def make(p, force):
    dst = os.path.join(SEEDED, p["id"])
    if os.path.exists(dst) and not force:
        return None
    copy = tempfile.mkdtemp(prefix="plant_")
    repo = copy + "/repo"
    tmp = copy + "/plant"
    try:
        sh(["cp", "-a", "/repo", repo])
        os.makedirs(tmp)
        shutil.copytree(os.path.join(HERE, "..", "harness", "stubs"), tmp + "/stubs",
                        ignore=shutil.ignore_patterns("__pycache__"))
        open(tmp + "/demo.sh", "w").write(SH)
        os.chmod(tmp + "/demo.sh", 0o755)
        open(tmp + "/demo.py", "w").write('"""%s"""\n' % p["breaks"] + PRELUDE + p["demo"])
        r0 = sh([tmp + "/demo.sh"], cwd=repo)
        if r0.returncode != 0:
            return "demo fails on the unchanged tree:\n" + r0.stdout[-1500:]
        for f, old, new in p["edits"]:
            path = os.path.join(repo, "gradslam", f)
            s = open(path).read()
            if s.count(old) != 1:
                return "pattern occurs %d times: %s" % (s.count(old), old)
            open(path, "w").write(s.replace(old, new))
        d = sh(["git", "diff"], cwd=repo).stdout
        # the lines taken away must be lines of the original repository
        open(tmp + "/patch.diff", "w").write(d)
        fixed = set()
        for l in sh(["git", "diff", "-U0", "4edc904", "HEAD"], cwd="/repo").stdout.splitlines():
            if l.startswith("+") and not l.startswith("+++"):
                fixed.add(l[1:].strip())
        touched = [l[1:].strip() for l in d.splitlines() if l.startswith("-") and not l.startswith("---")]
        own = [t for t in touched if t and t in fixed]
        r1 = sh([tmp + "/demo.sh"], cwd=repo)
        if r1.returncode == 0:
            return "demo passes with the patch"
        t = stable(repo)
        if "111 passed" not in t or "1 failed" not in t:
            return "tests: " + t
        b = sh([PY, "-c", "import ast,sys,glob\nfor f in glob.glob('gradslam/**/*.py',recursive=True): ast.parse(open(f).read())"], cwd=repo)
        if b.returncode:
            return "build"
        json.dump({"property": p["property"], "needs": p["needs"], "what_it_breaks": p["breaks"]},
                  open(tmp + "/meta.json", "w"), indent=1)
        if os.path.exists(dst):
            shutil.rmtree(dst)
        shutil.copytree(tmp, dst, ignore=shutil.ignore_patterns("__pycache__"))
        return "ok %s%s" % (t[:60], "  (touches own lines: %s)" % own if own else "")
    finally:
        shutil.rmtree(copy)


if __name__ == "__main__":
    args = sys.argv[1:]
    force = "-f" in args
    args = [a for a in args if a != "-f"]
    os.makedirs(SEEDED, exist_ok=True)
    for f in sorted(glob.glob(os.path.join(HERE, "plants", "*.py"))):
        for p in runpy.run_path(f)["PLANTS"]:
            if args and not any(p["id"].startswith(a) for a in args):
                continue
            r = make(p, force)
            if r is not None:
                print(p["id"], p["property"], r, flush=True)
