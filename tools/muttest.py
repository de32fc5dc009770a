"""muttest.py [ids/props...]: runs the stable tests and the property's check on each mutant (development tool)."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "tools"))
import seedlib, mutants

base = json.load(open("/opt/vp/BASELINE.json"))
stable = base.get("stable") or base.get("passed") or base
if isinstance(stable, dict):
    stable = stable.get("passed")
sel = [a for a in sys.argv[1:] if not a.startswith("-")]
notests = "--notests" in sys.argv
root = tempfile.mkdtemp(prefix="mut-")


def prepare(mut):
    mid, prop, edits = mut
    d = os.path.join(root, mid)
    repo = os.path.join(d, "repo")
    os.makedirs(d)
    subprocess.run(["cp", "-a", "/repo", repo], check=True)
    for f, old, new in edits:
        p = os.path.join(repo, f)
        s = open(p).read()
        if s.count(old) != 1:
            return mid, "EDIT: %d matches in %s for %r" % (s.count(old), f, old[:50])
        open(p, "w").write(s.replace(old, new))
    if notests:
        return mid, ""
    got = set(seedlib.run_tests(repo)["passed"])
    lost = [t for t in stable if t not in got]
    return mid, "TESTS lost %d %s" % (len(lost), lost[0]) if lost else ""


muts = [x for x in mutants.M if not sel or x[0] in sel or x[1] in sel]
try:
    with ThreadPoolExecutor(6) as ex:
        futs = [ex.submit(prepare, x) for x in muts]
        for x, f in zip(muts, futs):
            mid, msg = f.result()
            repo = os.path.join(root, mid, "repo")
            if msg.startswith("EDIT"):
                print(mid, x[1], msg, flush=True)
            else:
                c = subprocess.run(["python3-vt", "-m", "vp.run", x[1], "--tier", "quick"], cwd=H, env=dict(os.environ, VP_REPO=repo), capture_output=True, text=True)
                v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION") or l.startswith("  ")]
                res = {0: "MISSED", 1: "caught"}.get(c.returncode, "BROKEN rc=%d" % c.returncode)
                extra = " | ".join(v[:2])[:200] if c.returncode == 1 else (c.stdout + c.stderr)[-200:].replace("\n", " ") if c.returncode else ""
                print(mid, x[1], res, msg, extra, flush=True)
            shutil.rmtree(os.path.join(root, mid))
finally:
    shutil.rmtree(root, ignore_errors=True)
