"""Development helper: make and confirm a planted bug.  bug.py FILE.py [id...]
FILE.py defines BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new)...], demo=python source)]."""
import importlib.util
import json
import os
import re
import shutil
import subprocess
import sys
import xml.etree.ElementTree as ET

WT = os.environ.get("WT", "/tmp/p/wt")
PY = "/opt/venv/bin/python"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = """#!/bin/bash
# exit 0 when the property holds
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src" TZ=UTC PYTHONWARNINGS=ignore
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def fresh():
    if not os.path.exists(WT):
        shutil.copytree("/repo", WT, symlinks=True)
    sh(["git", "-C", WT, "checkout", "-q", "--", "."])
    head = sh(["git", "-C", "/repo", "rev-parse", "HEAD"]).stdout.strip()
    if sh(["git", "-C", WT, "rev-parse", "HEAD"]).stdout.strip() != head:
        sh(["git", "-C", WT, "fetch", "-q", "/repo", "HEAD"])
        sh(["git", "-C", WT, "reset", "-q", "--hard", head])


def tests():
    env = dict(os.environ, PYTHONPATH=WT + "/src", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONDEVMODE="1", TZ="UTC",
               HYPOTHESIS_STORAGE_DIRECTORY="/tmp/p/hyp")
    sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--no-cov", "--hypothesis-profile=ci", "--timeout=300",
        "--continue-on-collection-errors", "-o", "junit_family=xunit2", "--junitxml=" + WT + ".bug.xml", "--basetemp=" + WT + ".bt"], cwd=WT, env=env)
    sh(["/usr/bin/python3", "/opt/vp/results.py", WT + ".bug.json", "junit:" + WT + ".bug.xml"])
    o = json.load(open(WT + ".bug.json"))
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    return [t for t in stable if t not in set(o["passed"])]


def demo(d, repo):
    r = sh(["bash", d + "/demo.sh"], cwd=repo, timeout=250)
    return r.returncode, (r.stdout + r.stderr).strip().splitlines()[-1:]


def check(pid, seed="1"):
    env = dict(os.environ, ICS_REPO=WT, VERIF_SEED=seed)
    r = sh([HERE + "/run.sh", pid], env=env)
    ev = HERE + "/evidence/%s.json" % pid
    return r.returncode, [l[:200] for l in r.stdout.splitlines() if l.startswith(("sub-check", "harness"))][:2]


def main():
    spec = importlib.util.spec_from_file_location("bugs", sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    for b in m.BUGS:
        if len(sys.argv) > 2 and b["id"] not in sys.argv[2:]:
            continue
        fresh()
        for f, old, new in b["edits"]:
            p = os.path.join(WT, "src/ics", f)
            s = open(p).read()
            assert s.count(old) == 1, (b["id"], f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = sh(["git", "-C", WT, "diff"]).stdout
        # removed lines must be lines of the original repository
        mine = []
        for f, old, new in b["edits"]:
            blame = sh(["git", "-C", "/repo", "blame", "-s", "HEAD", "--", "src/ics/" + f]).stdout.splitlines()
            cur = open("/repo/src/ics/" + f).read()
            first = cur[:cur.index(old)].count("\n")
            for k in range(first, first + old.count("\n") + (not old.endswith("\n"))):
                if "007d657" not in blame[k]:
                    mine.append(blame[k])
        d = os.path.join(HERE, "seeded", b["id"])
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.sh", "w").write(DEMO)
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.py", "w").write(b["demo"].lstrip())
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        bad = tests()
        g, w = demo(d, "/repo"), demo(d, WT)
        res = [(p, check(p)) for p in [b["property"]] + b.get("also", [])] if not bad else None
        ok = not bad and g[0] == 0 and w[0] != 0
        print(b["id"], "VALID" if ok else "INVALID", "tests failing:", bad[:4], "demo:", g, w, "check:", res, "context lines of mine:", mine[:3], flush=True)
        if not ok:
            shutil.rmtree(d)
        fresh()


main()
