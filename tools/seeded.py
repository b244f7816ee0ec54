"""Development helper: seeded.py [id...]  runs each planted bug's check against a scratch copy and prints CAUGHT/MISSED."""
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(i):
    d = os.path.join(HERE, "seeded", i)
    wt = "/tmp/p/sd-" + i
    shutil.rmtree(wt, ignore_errors=True)
    shutil.copytree("/repo", wt, symlinks=True)
    try:
        subprocess.run(["git", "-C", wt, "apply", d + "/patch.diff"], check=True)
        pid = json.load(open(d + "/meta.json"))["property"]
        env = dict(os.environ, ICS_REPO=wt, VERIF_JOBS="2")
        r = subprocess.run([HERE + "/run.sh", pid], env=env, capture_output=True, text=True)
        subs = sorted({l.split()[1] for l in r.stdout.splitlines() if l.startswith("sub-check")})
        return i, pid, "CAUGHT" if r.returncode == 1 and "VIOLATION property=%s " % pid in r.stdout else "MISSED rc=%d" % r.returncode, subs
    finally:
        shutil.rmtree(wt)


ids = sys.argv[1:] or sorted(os.listdir(HERE + "/seeded"))
with ThreadPoolExecutor(4) as ex:
    for res in ex.map(one, ids):
        print(*res, flush=True)
