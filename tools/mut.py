"""mut.py FILE OLD NEW PROP...: run checks against a mutated scratch copy."""
import os
import shutil
import subprocess
import sys
import tempfile


def run(path, old, new, props, count=1):
    d = tempfile.mkdtemp(prefix="mut_")
    try:
        shutil.copytree("/repo/gradslam", d + "/gradslam")
        f = os.path.join(d, "gradslam", path)
        s = open(f).read()
        if old not in s:
            return "PATTERN NOT FOUND: " + old
        s = s.replace(old, new, count) if count else s.replace(old, new)
        open(f, "w").write(s)
        res = []
        for p in props:
            e = dict(os.environ, GRADSLAM_REPO=d)
            r = subprocess.run(["/verif/check.sh", p, "quick"], env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True)
            cl = [l.strip() for l in r.stdout.splitlines() if "clause=" in l][:1]
            res.append("%s rc=%d %s" % (p, r.returncode, cl[0] if cl else r.stdout.strip()[-300:] if r.returncode != 1 else ""))
        return "; ".join(res)
    finally:
        shutil.rmtree(d)


def batch(muts):
    for m in muts:
        print(m[1].strip()[:50].replace("\n", "|"), "->", m[2].strip()[:50].replace("\n", "|"), "=>", run(*m[:4]), flush=True)
