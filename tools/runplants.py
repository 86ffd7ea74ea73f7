"""Run each planted bug's own check (quick) against a scratch copy with its patch applied.
usage: runplants.py [-j N] [id-prefix ...]   (or  -p C05  to run one property's plants)"""
import concurrent.futures as cf
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(d):
    prop = json.load(open(d + "/meta.json"))["property"]
    t = tempfile.mkdtemp(prefix="rp_")
    try:
        shutil.copytree("/repo/gradslam", t + "/gradslam")
        r = subprocess.run(["git", "apply", "--unsafe-paths", "--directory=" + t, d + "/patch.diff"],
                           cwd="/", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            return os.path.basename(d), prop, "PATCH: " + r.stdout
        r = subprocess.run([V + "/check.sh", prop, "quick"], env=dict(os.environ, GRADSLAM_REPO=t, VERIF_SEED="1"),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        cl = [l.strip() for l in r.stdout.splitlines() if "clause=" in l][:1]
        return os.path.basename(d), prop, ("CAUGHT " + (cl[0] if cl else r.stdout[-200:])) if r.returncode == 1 else \
            "*** MISSED rc=%d %s" % (r.returncode, r.stdout[-200:])
    finally:
        shutil.rmtree(t)


if __name__ == "__main__":
    a = sys.argv[1:]
    j = int(a.pop(a.index("-j") + 1)) if "-j" in a else 3
    a = [x for x in a if x != "-j"]
    ds = [d for d in sorted(glob.glob(V + "/seeded/*")) if os.path.isfile(d + "/meta.json")
          and (not a or any(os.path.basename(d).startswith(x) for x in a))]
    with cf.ThreadPoolExecutor(j) as ex:
        for r in ex.map(one, ds):
            print(*r, flush=True)
