"""Development tool: create and validate planted bugs.  plant(id, prop, edits, needs, breaks, demo) writes /verif/seeded/<id>/ after checking that the change
applies, touches original lines, passes the test suite, and that the demonstration tells both trees apart; prints whether the property's check catches it."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
BASE = "38f5fde"
DEMO = '''#!/bin/sh
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''
PRE = '''import os, sys, tempfile, shutil
sys.path.insert(0, os.getcwd())
SCRATCH = tempfile.mkdtemp(prefix="demo_")
tempfile.tempdir = None
os.environ["TMPDIR"] = os.path.join(SCRATCH, "tmp")
os.mkdir(os.environ["TMPDIR"])
import atexit
atexit.register(shutil.rmtree, SCRATCH, True)
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, timeout=900, **kw)


def plant(id, prop, edits, needs, breaks, demo, checks=None, run_check=True):
    d = tempfile.mkdtemp(prefix="plant_")
    os.rmdir(d)
    out = ["== " + id]
    try:
        shutil.copytree("/repo", d)
        for f, o, n in edits:
            p = os.path.join(d, f)
            s = open(p).read()
            if s.count(o) != 1:
                return print(id, "!! edit matches %d times: %s" % (s.count(o), o[:60]))
            open(p, "w").write(s.replace(o, n))
        diff = sh(["git", "diff"], d).stdout
        cur = None
        for l in diff.splitlines():
            if l.startswith("--- a/"):
                cur = sh(["git", "show", "%s:%s" % (BASE, l[6:])], d).stdout.splitlines()
            elif l.startswith("-") and not l.startswith("---") and l[1:] not in cur:
                out.append("   note: line not in the original: " + l[1:])
        t = sh([PY, "-m", "pytest", "-q", "-x"], d)
        if t.returncode:
            return print(id, "!! tests fail", t.stdout[-600:])
        sd = os.path.join(VERIF, "seeded", id)
        os.makedirs(sd, exist_ok=True)
        open(os.path.join(sd, "patch.diff"), "w").write(diff)
        open(os.path.join(sd, "demo.sh"), "w").write(DEMO)
        os.chmod(os.path.join(sd, "demo.sh"), 0o755)
        open(os.path.join(sd, "demo.py"), "w").write(PRE + demo.lstrip("\n"))
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(sd, "meta.json"), "w"), indent=1)
        a = sh(["sh", os.path.join(sd, "demo.sh")], "/repo")
        b = sh(["sh", os.path.join(sd, "demo.sh")], d)
        if a.returncode or not b.returncode:
            shutil.rmtree(sd)
            return print(id, "!! demo: clean %d, patched %d\n%s\n%s" % (a.returncode, b.returncode, (a.stdout + a.stderr)[-1500:], (b.stdout + b.stderr)[-600:]))
        out.append("   demo ok: " + (b.stdout + b.stderr).strip().splitlines()[-1][:160])
        for c in (checks or [prop]) if run_check else []:
            r = sh(["python3", os.path.join(VERIF, "check.py"), c], VERIF, env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d + "_ev"))
            out.append("   %s rc=%d %s" % (c, r.returncode, " / ".join((r.stdout + r.stderr).strip().splitlines()[:2])[:300]))
        print("\n".join(out), flush=True)
    finally:
        shutil.rmtree(d, True)
        shutil.rmtree(d + "_ev", True)
