"""reftest.py SET [props...]: applies a set of refactorings to a scratch copy, runs the stable tests and the checks; all must stay quiet."""
import importlib, json, os, shutil, subprocess, sys, tempfile, time
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "tools"))
import seedlib
name = sys.argv[1]
props = sys.argv[2:] or ["C%02d" % i for i in range(1, 31)]
edits = importlib.import_module("refactors_" + name).R[name]
base = json.load(open("/opt/vp/BASELINE.json"))
stable = base.get("stable") or base.get("passed")
root = tempfile.mkdtemp(prefix="ref-")
repo = os.path.join(root, "repo")
try:
    subprocess.run(["cp", "-a", "/repo", repo], check=True)
    for f, old, new in edits:
        p = os.path.join(repo, f)
        s = open(p).read()
        if s.count(old) != 1:
            print("EDIT: %d matches in %s for %r" % (s.count(old), f, old[:80])); sys.exit(2)
        open(p, "w").write(s.replace(old, new))
    got = set(seedlib.run_tests(repo)["passed"])
    lost = [t for t in stable if t not in got]
    print("tests lost:", lost[:5], flush=True)
    for p in props:
        t = time.time()
        c = subprocess.run(["python3-vt", "-m", "vp.run", p, "--tier", "quick"], cwd=H, env=dict(os.environ, VP_REPO=repo), capture_output=True, text=True)
        print(p, "quiet" if c.returncode == 0 else "ALARM rc=%d\n%s" % (c.returncode, (c.stdout + c.stderr)[-1500:]), "%.0fs" % (time.time() - t), flush=True)
finally:
    shutil.rmtree(root, ignore_errors=True)
