#!/usr/bin/env python3
"""Developer tool: plant a bug.  plant.py BUGFILE...   (BUGFILE is Python defining ID, PROP, NEEDS, BREAKS,
EDITS = [(file, old, new)], DEMO = python source that exits 0 / nonzero).
Verifies in a scratch copy: builds, stable tests pass, demo 0 without / nonzero with the patch; then runs the
property's quick check against the copy and reports whether it catches the bug."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SKIPTESTS = "--skip-tests" in sys.argv
NOCHECK = "--no-check" in sys.argv
def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ); e.update(env or {})
    try:
        r = subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"
def demo(d, repo):
    return sh("timeout 300 bash %s/demo.sh" % d, cwd=repo)
def do(bugfile):
    ns = {}
    exec(open(bugfile).read(), ns)
    bid, prop = ns["ID"], ns["PROP"]
    tmp = tempfile.mkdtemp(prefix="plant_", dir="/tmp/w")
    repo = tmp + "/repo"
    out = V + "/seeded/" + bid
    try:
        sh("cp -a /repo %s" % repo)
        sh("git checkout -q -- . ; git clean -fdq -e build -e '*.so'", cwd=repo)
        for f, old, new in ns["EDITS"]:
            p = repo + "/" + f
            s = open(p).read()
            if s.count(old) != 1:
                return "%s: edit of %s matches %d times" % (bid, f, s.count(old))
            open(p, "w").write(s.replace(old, new))
        d = tmp + "/d"; os.makedirs(d)
        open(d + "/patch.diff", "w").write(sh("git diff", cwd=repo)[1])
        open(d + "/demo.py", "w").write(ns["DEMO"])
        open(d + "/demo.sh", "w").write('#!/bin/bash\n# run with cwd = the repository\nhere=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONPATH="$PWD" MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1\nPY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3\nexec "$PY" -W ignore "$here/demo.py"\n')
        json.dump({"property": prop, "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
        rc, o = demo(d, repo)
        if rc == 0:
            return "%s: demo does not fail with the patch\n%s" % (bid, o[-500:])
        rc0, o0 = demo(d, "/repo")
        if rc0 != 0:
            return "%s: demo fails on the unchanged tree\n%s" % (bid, o0[-800:])
        if not SKIPTESTS:
            import re
            e = {"VP_GATE_REPO": repo}
            rc, o = sh("bash %s/tools/gate_copy.sh %s" % (V, repo))
            if rc != 0:
                return "%s: tests fail in the copy\n%s" % (bid, o[-600:])
        if os.path.exists(out):
            shutil.rmtree(out)
        shutil.copytree(d, out)
        if NOCHECK:
            return "%s: planted (not checked)" % bid
        rc, o = sh("bash %s/check.sh %s quick" % (V, prop), env={"VP_REPO": repo})
        tail = [l for l in o.split("\n") if l.strip()]
        return "%s: planted; %s check exits %d %s" % (bid, prop, rc, "CAUGHT" if rc == 1 and "VIOLATION property=%s" % prop in o else "MISSED") + "\n    " + "\n    ".join(tail[1:2] + tail[-1:])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
rc = 0
for b in [a for a in sys.argv[1:] if not a.startswith("--")]:
    print(do(b)); sys.stdout.flush()
