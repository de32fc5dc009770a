"""Generates and tries planted bugs (development tool; no check uses it).

usage: seedlib.py gen            write seeded/<id>/ from seeds.py
       seedlib.py try ID [prop]  full confirmation in a scratch copy + the check
"""
import difflib
import json
import os
import shutil
import subprocess
import sys
import tempfile

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv-pypy/bin/python"
sys.path.insert(0, os.path.join(H, "tools"))


def seeds():
    import seeds
    return seeds.SEEDS


def patch_of(s):
    out = ""
    byfile = {}
    for f, old, new in s["edits"]:
        src = byfile.get(f) or open(os.path.join("/repo", f)).read()
        if src.count(old) != 1:
            raise SystemExit("%s: %d matches in %s for %r" % (s["id"], src.count(old), f, old[:60]))
        byfile[f] = src.replace(old, new)
    for f, new in byfile.items():
        old = open(os.path.join("/repo", f)).read()
        out += "diff --git a/%s b/%s\n" % (f, f)
        out += "".join(difflib.unified_diff(old.splitlines(True), new.splitlines(True), "a/" + f, "b/" + f))
    return out


PRE = '''import os, sys
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
import logging
logging.disable(logging.CRITICAL)
import numpy as np
import atrcopy
from atrcopy import errors
from atrcopy.segments import *
from atrcopy.ataridos import *
from atrcopy.dos33 import *
'''


def gen(only=None):
    for s in seeds():
        if only and s["id"] != only:
            continue
        d = os.path.join(H, "seeded", s["id"])
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(patch_of(s))
        open(os.path.join(d, "demo.py"), "w").write(PRE + s["demo"].lstrip("\n"))
        open(os.path.join(d, "demo.sh"), "w").write('#!/bin/sh\nexec %s -W ignore "$(dirname "$0")/demo.py"\n' % PY)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)


def run_tests(repo):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPATH=repo)
    x = os.path.join(os.path.dirname(repo), "junit.xml")
    subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "--continue-on-collection-errors",
                    "-o", "junit_family=xunit2", "--junitxml=" + x], cwd=os.path.join(repo, "test"), env=env, capture_output=True)
    o = os.path.join(os.path.dirname(repo), "res.json")
    subprocess.run(["python3", "/opt/vp/results.py", o, "junit:" + x], capture_output=True)
    return json.load(open(o))


def attempt(sid, prop=None, check=True, tests=True):
    s = [x for x in seeds() if x["id"] == sid][0]
    gen(sid)
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = base.get("stable") or base.get("passed") or base
    if isinstance(stable, dict):
        stable = stable.get("passed")
    tmp = tempfile.mkdtemp(prefix="seed-")
    try:
        repo = os.path.join(tmp, "repo")
        subprocess.run(["cp", "-a", "/repo", repo], check=True)
        d = os.path.join(H, "seeded", sid)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
        env.pop("VERIF_TIER", None)
        r0 = subprocess.run(["sh", os.path.join(d, "demo.sh")], cwd=repo, env=env, capture_output=True, text=True)
        subprocess.run(["git", "-C", repo, "apply", os.path.join(d, "patch.diff")], check=True)
        r1 = subprocess.run(["sh", os.path.join(d, "demo.sh")], cwd=repo, env=env, capture_output=True, text=True)
        missing = []
        if tests:
            got = set(run_tests(repo)["passed"])
            missing = [t for t in stable if t not in got]
        msg = "demo clean=%d patched=%d tests_lost=%d" % (r0.returncode, r1.returncode, len(missing))
        if r0.returncode:
            msg += "\n  CLEAN DEMO FAILS: " + (r0.stdout + r0.stderr)[-800:]
        if not r1.returncode:
            msg += "\n  PATCHED DEMO PASSES"
        if missing:
            msg += "\n  LOST %s" % missing[:3]
        c = None
        if check:
            c = subprocess.run(["python3-vt", "-m", "vp.run", prop or s["property"], "--tier", "quick"], cwd=H, env=dict(os.environ, VP_REPO=repo), capture_output=True, text=True)
            v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION") or l.startswith("  ")]
            msg += " check=%d %s" % (c.returncode, (c.stdout.splitlines() or [""])[0][:160] if c.returncode != 1 else v[0][:160] if v else "")
        print(sid, s["property"], msg)
        sys.stdout.flush()
        return r0.returncode == 0 and r1.returncode != 0 and not missing, c and c.returncode
    finally:
        shutil.rmtree(tmp)


if __name__ == "__main__":
    if sys.argv[1] == "gen":
        gen()
    elif sys.argv[2] == "all":
        for s in seeds():
            attempt(s["id"])
    else:
        for a in sys.argv[2:]:
            attempt(a)
