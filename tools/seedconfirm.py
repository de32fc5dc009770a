"""Confirms every planted bug: demo, tests, and that it changes original lines (development tool)."""
import subprocess, sys, os, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import seedlib
BASE = "02b9a9b"
def added(sid):
    own = []
    f = None
    blame = {}
    for l in open(os.path.join(seedlib.H, "seeded", sid, "patch.diff")):
        if l.startswith("--- a/"):
            f = l[6:].strip()
            b = subprocess.run(["git", "-C", "/repo", "blame", "-l", f], capture_output=True, text=True).stdout.splitlines()
            anc = {}
        elif l.startswith("@@"):
            n = int(re.match(r"@@ -(\d+)", l).group(1))
        elif f and l[0] in " -":
            if l[0] == "-":
                h = b[n - 1].split()[0].lstrip("^")
                if h not in anc:
                    anc[h] = subprocess.run(["git", "-C", "/repo", "merge-base", "--is-ancestor", h, BASE]).returncode == 0
                if not anc[h]:
                    own.append("%s:%d" % (f, n))
            n += 1
    return own
if __name__ == "__main__":
    for s in seedlib.seeds():
        if len(sys.argv) > 1 and s["id"] not in sys.argv[1:]:
            continue
        seedlib.attempt(s["id"], check=False)
        o = added(s["id"])
        if o:
            print("   OWN LINES", o)
