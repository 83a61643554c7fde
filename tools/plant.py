"""python3-vt tools/plant.py [--check] ID...   (re)create seeded/<id> from tools/bugs.py and try it in a scratch copy.

--check also runs the property's check against the scratch copy (VERIF_REPO)."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from bugs import BUGS

BASE = "36bc16d"
PY = "/opt/venv/bin/python"
DEMO_SH = """#!/bin/bash
# exit 0 when the property holds for this scenario, nonzero otherwise; cwd is the repository
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
exec timeout 120 /opt/venv/bin/python "$here/demo.py"
"""


def one(bug, check):
    out = []
    try:
        _one(bug, check, lambda *a: out.append(" ".join(map(str, a))))
    except AssertionError as e:
        out.append("*** BAD *** %s" % (e,))
    sys.stdout.write("\n".join(out) + "\n")
    sys.stdout.flush()


def _one(bug, check, print):
    d = os.path.join(V, "seeded", bug["id"])
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="plant_")
    copy = os.path.join(tmp, "repo")
    try:
        shutil.copytree("/repo", copy, symlinks=True)
        subprocess.check_call(["git", "checkout", "-q", "--", "."], cwd=copy)
        with open(os.path.join(d, "demo.sh"), "w") as f:
            f.write(DEMO_SH)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        with open(os.path.join(d, "demo.py"), "w") as f:
            f.write(bug["demo"].lstrip("\n"))
        json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        r0 = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=copy, capture_output=True, text=True)
        for file, old, new in bug["edits"]:
            p = os.path.join(copy, "nion/utils", file)
            s = open(p).read()
            assert s.count(old) == 1, (bug["id"], file, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=copy, capture_output=True, text=True).stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        orig = subprocess.run("for f in $(git ls-tree --name-only %s nion/utils/ | grep py$); do git show %s:$f; done" % (BASE, BASE), shell=True,
                              cwd="/repo", capture_output=True, text=True).stdout.splitlines()
        gone = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---") and l[1:].strip()]
        if gone and not all(l in orig for l in gone):
            print("   !!! %s removes lines that are not original: %s" % (bug["id"], [l for l in gone if l not in orig]))
        r1 = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=copy, capture_output=True, text=True)
        t = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "nion"], cwd=copy, capture_output=True, text=True,
                           env=dict(os.environ, PYTHONPATH=copy, PYTHONDONTWRITEBYTECODE="1", TZ="UTC"))
        last = t.stdout.strip().splitlines()[-1] if t.stdout.strip() else "?"
        ok = r0.returncode == 0 and r1.returncode != 0 and t.returncode == 0
        print("%-28s %s demo %d->%d tests: %s %s" % (bug["id"], bug["property"], r0.returncode, r1.returncode, last, "OK" if ok else "*** BAD ***"))
        if not ok:
            print(r0.stderr[-800:], r1.stdout[-300:])
        if check:
            c = subprocess.run(["python3-vt", "engine/run.py", bug["property"]], cwd=V, capture_output=True, text=True,
                               env=dict(os.environ, VERIF_REPO=copy, VERIF_EVIDENCE=os.path.join(tmp, "ev")))
            lines = c.stdout.strip().splitlines()
            print("    check exit %d: %s" % (c.returncode, "CAUGHT" if c.returncode == 1 else "*** MISSED ***"),
                  "|", (lines[-2] if len(lines) > 1 else "")[:200], c.stderr[-300:] if c.returncode not in (0, 1) else "")
    finally:
        shutil.rmtree(tmp)


args = sys.argv[1:]
check = "--check" in args
ids = [a for a in args if not a.startswith("--")]
import concurrent.futures
with concurrent.futures.ThreadPoolExecutor(4) as pool:
    list(pool.map(lambda b: one(b, check), [b for b in BUGS if not ids or b["id"] in ids or b["property"] in ids]))
