"""Check driver:  python3-vt -m vp.run C01 [--tier quick|thorough]"""
import argparse
import importlib
import json
import logging
import multiprocessing as mp
import multiprocessing.connection
import os
import subprocess
import sys
import time
import traceback

sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
logging.disable(logging.CRITICAL)

from vp import engine as E
from vp import terms as T
from vp import symnp as NP
from vp import instrument as I
from vp.cx_sym import Cx

PYPY = os.environ.get("VP_PYTHON", "/opt/venv-pypy/bin/python")


def run_case(job):
    modname, case, deadline = job
    t0 = time.time()
    T.reset()
    NP.reset()
    I.fresh()
    eng = E.Engine(max_paths=case.get("max_paths", 200000), deadline=deadline, fuel=case.get("fuel", 400000))
    E.set_engine(eng)
    cx = Cx(eng)
    witnesses = []
    res = {"case": case["name"], "fn": case["fn"], "params": case["params"]}
    try:
        eng.pending = []
        mod = I.load(modname)
        fn = getattr(mod, case["fn"])
        seen = {}
        wn = case.get("witness", 2)

        funcs = {}

        def prof(frame, event, arg):
            if event == "call":
                c = frame.f_code
                if c.co_filename.startswith(I.REPO):
                    funcs[c] = 1

        def once():
            I.CAPTURE = None
            if eng.paths < 3:
                sys.setprofile(prof)
            try:
                fn(cx, **case["params"])
            finally:
                sys.setprofile(None)
                cx.unstub()
            k = eng.paths
            if len(witnesses) < wn or (k & (k - 1)) == 0 and len(witnesses) < wn + 4:
                witnesses.append(dict(eng.model))

        def on_exc(e):
            tb = traceback.extract_tb(e.__traceback__)
            if os.environ.get("VP_TB"):
                traceback.print_exception(e)
            where = [f for f in tb if "/vp/" not in f.filename][-1:] or tb[-1:]
            key = (type(e).__name__, tb[-1].filename, tb[-1].lineno)
            seen[key] = seen.get(key, 0) + 1
            if seen[key] > 3:
                eng.incomplete.append("exception %s repeated" % (key,))
                return None
            det = "%s: %s @ %s" % (type(e).__name__, str(e)[:200], ["%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb[-3:]])
            return ("exception", det)

        eng.explore(once, on_exc, max_violations=case.get("max_violations", 6))
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        eng.incomplete.append("driver: %s" % traceback.format_exc()[-2000:])
    try:
        res["funcs"] = sorted({"%s:%s" % (os.path.relpath(c.co_filename, I.REPO), getattr(c, "co_qualname", c.co_name))
                               for c in funcs if c.co_flags & 1 and c.co_name not in ("<module>", "<listcomp>", "<genexpr>", "<lambda>")})
    except NameError:
        res["funcs"] = []
    res.update(paths=eng.paths, infeasible=eng.infeasible, queries=eng.queries, branch_queries=eng.branch_queries,
               vc_queries=eng.vc_queries, trivial_vcs=eng.trivial_vcs, solver_time=eng.solver_time,
               incomplete=eng.incomplete[:5], labels=eng.labels, reached=eng.reached, violations=eng.violations,
               witnesses=witnesses, wall=time.time() - t0, cross=eng.cross, terms=T.table_size())
    return res


def _worker(conn):
    while True:
        j = conn.recv()
        if j is None:
            return
        conn.send(run_case(j))


def parallel(jobs, n, arrived, until, per_worker=4):
    """Run the jobs in forked workers; False if the time given by until() ran out.

    All forks are made here, in the only thread, so that no worker inherits the
    pipes of a subprocess that arrived() is talking to."""
    ctx = mp.get_context("fork")
    todo = list(reversed(jobs))
    again = set()           # jobs given to a second worker
    live = {}               # connection -> [process, current job, jobs done]

    def lost(j):
        return {"case": j[1]["name"], "fn": j[1]["fn"], "params": j[1]["params"], "paths": 0, "infeasible": 0, "queries": 0, "branch_queries": 0,
                "vc_queries": 0, "trivial_vcs": 0, "solver_time": 0.0, "incomplete": ["the worker process ended"], "labels": {}, "reached": {},
                "violations": [], "witnesses": [], "wall": 0.0, "cross": [], "terms": 0, "funcs": []}

    def start():
        here, there = ctx.Pipe()
        p = ctx.Process(target=_worker, args=(there,), daemon=True)
        p.start()
        there.close()
        live[here] = [p, None, 0]
        feed(here)

    def feed(c):
        w = live[c]
        if todo and w[2] < per_worker:
            w[1] = todo.pop()
            w[2] += 1
            c.send(w[1])
            return
        try:
            c.send(None)
        except OSError:
            pass
        c.close()
        del live[c]
        w[0].join(5)
        if w[0].is_alive():
            w[0].kill()

    try:
        while todo or live:
            while todo and len(live) < n:
                start()
            left = until() - time.time()
            if left <= 0:
                return False
            for c in mp.connection.wait(list(live), min(left, 5)):
                j = live[c][1]
                try:
                    r = c.recv()
                except (EOFError, OSError):
                    p = live.pop(c)[0]
                    c.close()
                    p.join(5)
                    if j[1]["name"] in again:
                        arrived(lost(j))
                    else:
                        again.add(j[1]["name"])
                        todo.append(j)
                    continue
                feed(c)
                arrived(r)
        return True
    finally:
        for c, w in live.items():
            w[0].kill()
        for c, w in live.items():
            w[0].join()


def replay(modname, runs, timeout=20, keep=None):
    """Run concrete cases on the real code; list of result dicts."""
    if not runs:
        return []
    os.makedirs(os.path.join(HERE, "out"), exist_ok=True)
    path = keep or os.path.join(HERE, "out", "batch-%d.json" % os.getpid())
    json.dump({"module": modname, "runs": runs, "timeout": timeout}, open(path, "w"))
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    try:
        p = subprocess.run([PYPY, os.path.join(HERE, "vp", "replay.py"), path], capture_output=True, text=True,
                           timeout=timeout * len(runs) + 60 if len(runs) > 150 else min(timeout * len(runs) + 60, 240), env=env)
        out = [json.loads(l[7:]) for l in p.stdout.splitlines() if l.startswith("REPLAY ")]
        err = p.stderr[-1500:]
    except subprocess.TimeoutExpired as e:
        txt = e.stdout or b""
        txt = txt.decode("utf-8", "replace") if isinstance(txt, bytes) else txt
        out = [json.loads(l[7:]) for l in txt.splitlines() if l.startswith("REPLAY ") and l.endswith("}")]
        err = "replay timed out"
    if not keep:
        os.unlink(path)
    while len(out) < len(runs):
        out.append({"ok": None, "label": "replay-error", "detail": err})
    return out


def cross_check(cross):
    """Second opinion on sampled verification conditions from cvc5."""
    n = bad = 0
    try:
        import cvc5
    except Exception:
        return {"checked": 0}
    for txt in cross:
        try:
            s = cvc5.Solver()
            s.setOption("tlimit-per", "20000")
            sm = cvc5.SymbolManager(s.getTermManager()) if hasattr(s, "getTermManager") else cvc5.SymbolManager(s)
            p = cvc5.InputParser(s, sm)
            p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, "(set-logic QF_BV)\n" + txt, "vc")
            r = ""
            while True:
                c = p.nextCommand()
                if c.isNull():
                    break
                r += str(c.invoke(s, sm))
            if "unsat" in r:
                n += 1
            elif "sat" in r:
                bad += 1
        except Exception:
            pass
    return {"checked": n, "disagree": bad}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--case", default=None)
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    tier = a.tier
    prop = a.prop
    modname = "harness.%s" % prop.lower()
    E.set_engine(E.Engine())
    E.ENG.pending = []
    known = []
    kf = os.path.join(HERE, "known_findings.json")
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf)) if k.get("property") == prop and k.get("status") == "open"]
    mod = I.load(modname)
    cases = mod.cases(tier)
    if a.case:
        cases = [c for c in cases if a.case in c["name"]]
    budget = getattr(mod, "BUDGET", {}).get(tier, 420 if tier == "quick" else 3600)
    deadline = t0 + budget
    jobs = [(modname, c, deadline) for c in cases]
    jobs.sort(key=lambda j: -j[1].get("cost", 1))
    results = []
    confirmed = []          # counterexamples already reproduced on the real code
    early = {}              # (case, index) -> replay result
    stopped = False

    def arrived(r):
        results.append(r)
        if a.v:
            print("%-40s paths=%d q=%d vc=%d st=%.1f wall=%.1f %s %s" % (
                r["case"], r["paths"], r["queries"], r["vc_queries"], r["solver_time"], r["wall"],
                "INCOMPLETE %s" % r["incomplete"] if r["incomplete"] else "",
                [(v["label"], v["detail"]) for v in r["violations"]]))
            sys.stdout.flush()
        if r["violations"] and not confirmed:
            vs = r["violations"][:3]
            outs = replay(modname, [{"fn": r["fn"], "params": r["params"], "inputs": v["env"]} for v in vs])
            for i, o in enumerate(outs):
                early[(r["case"], i)] = o
                if o["ok"] is False:
                    confirmed.append(time.time())

    if a.jobs == 1 or len(jobs) == 1:
        for j in jobs:
            arrived(run_case(j))
    else:
        # once a counterexample is confirmed the verdict is settled: the other
        # cases get a little longer, then the run ends
        def until():
            return confirmed[0] + (30 if tier == "quick" else 300) if confirmed else deadline + 120
        stopped = not parallel(jobs, a.jobs, arrived, until)
    # ---- replay counterexamples and path witnesses on the real code
    runs, meta = [], []
    for r in results:
        for i, v in enumerate(r["violations"]):
            if confirmed and ((r["case"], i) in early and early[(r["case"], i)]["ok"] is not False or i > 2 or len(runs) > 11):
                continue
            runs.append({"fn": r["fn"], "params": r["params"], "inputs": v["env"], "label": v["label"], "detail": v["detail"]})
            meta.append(("cx", r, v))
    wl = []
    for r in results:
        for w in r["witnesses"]:
            wl.append((r, w))
    maxw = 48 if tier == "quick" else 400
    if confirmed:
        maxw = 4
    step = max(1, len(wl) // maxw)
    for r, w in wl[::step]:
        runs.append({"fn": r["fn"], "params": r["params"], "inputs": w})
        meta.append(("w", r, w))
    for k in known:
        runs.append({"fn": k["fn"], "params": k.get("params", {}), "inputs": k.get("inputs", {})})
        meta.append(("known", k, None))
    outs = replay(modname, runs)
    violations, unconfirmed, validated, known_ok = [], [], 0, []
    for (kind, r, v), run, o in zip(meta, runs, outs):
        if kind == "known":
            if o["ok"] is False:
                known_ok.append((r, o))
            continue
        if o["ok"] is False:
            violations.append((kind, r, v, run, o))
        elif kind == "cx":
            unconfirmed.append({"case": r["case"], "label": v["label"], "detail": v["detail"], "replay": o})
        elif o["ok"]:
            validated += 1
        else:
            unconfirmed.append({"case": r["case"], "label": "replay-error", "detail": o.get("detail")})
    for k, o in known_ok:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    incomplete = [{"case": r["case"], "why": r["incomplete"]} for r in results if r["incomplete"]]
    vac = []
    for r in results:
        if not r["labels"] and not r["violations"] and not r["incomplete"]:
            vac.append(r["case"])
    if stopped:
        got_names = {r["case"] for r in results}
        incomplete.append({"case": ", ".join(c["name"] for c in cases if c["name"] not in got_names)[:2000],
                           "why": ["stopped after a confirmed counterexample" if confirmed else "out of time"]})
    need = set(getattr(mod, "REACH", lambda t: [])(tier)) if not a.case else set()
    got = set()
    for r in results:
        got |= set(r["reached"]) | set(r["labels"])
    missing = sorted(need - got)
    cross = cross_check([c for r in results for c in r["cross"]][: (3 if tier == "quick" else 40)])
    tot = lambda k: sum(r[k] for r in results)
    samples = []
    for r in sorted(results, key=lambda r: -r["paths"])[:4]:
        w = r["witnesses"][-1] if r["witnesses"] else {}
        samples.append({"case": r["case"], "fn": r["fn"], "params": r["params"], "paths": r["paths"],
                        "checks": r["labels"], "witness": dict(sorted(w.items())[:24])})
    level = "model_checking"
    cov = {
        "states": tot("paths"),
        "transitions": tot("branch_queries"),
        "traces_validated_against_impl": validated,
        "samples": samples,
        "exhaustive": not incomplete and not unconfirmed,
        "cases": len(results),
        "feasible_paths": tot("paths"),
        "solver_queries": tot("queries"),
        "verification_conditions_by_solver": tot("vc_queries"),
        "verification_conditions_closed_by_simplification": tot("trivial_vcs"),
        "solver_time_s": round(tot("solver_time"), 2),
        "functions_encoded": sorted({f for r in results for f in r["funcs"]}),
        "bounds": getattr(mod, "BOUNDS", {}).get(tier) if isinstance(getattr(mod, "BOUNDS", ""), dict) else getattr(mod, "BOUNDS", ""),
        "outside_bounds": getattr(mod, "OUTSIDE", ""),
        "incomplete_cases": incomplete,
        "unconfirmed_counterexamples": unconfirmed[:10],
        "vacuous_cases": vac, "unreached_labels": missing,
        "cvc5_cross_check": cross,
        "known_findings_reproduced": len(known_ok),
    }
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": level,
          "coverage": cov, "wall_s": round(time.time() - t0, 2), "violations": len(violations),
          "assumptions": getattr(mod, "ASSUMPTIONS", [])}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1, default=str)
    print("%s %s: %d cases, %d paths, %d queries (%d VCs), solver %.1fs, wall %.1fs, %d witnesses replayed%s%s%s%s" % (
        prop, tier, len(results), tot("paths"), tot("queries"), tot("vc_queries"), tot("solver_time"), time.time() - t0, validated,
        ", INCOMPLETE %s" % incomplete[:3] if incomplete else "",
        ", UNCONFIRMED %s" % unconfirmed[:3] if unconfirmed else "",
        ", VACUOUS %s" % vac if vac else "", ", UNREACHED %s" % missing if missing else ""))
    if violations:
        os.makedirs(os.path.join(HERE, "out"), exist_ok=True)
        done = set()
        n = 0
        for kind, r, v, run, o in violations:
            key = (r["case"], o["label"], run.get("label"))
            if key in done or n >= 5:
                continue
            done.add(key)
            n += 1
            path = os.path.join(HERE, "out", "%s-%d.json" % (prop, n))
            json.dump({"module": modname, "fn": run["fn"], "params": run["params"], "inputs": run["inputs"],
                       "label": run.get("label"), "solver_detail": run.get("detail"), "observed": o,
                       "how": "%s %s %s" % (PYPY, os.path.join(HERE, "vp", "replay.py"), path)}, open(path, "w"), indent=1)
            print("  %s [%s] %s: %s" % (r["case"], kind, o["label"], o.get("detail")))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        sys.exit(1)
    sys.exit(0)


if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(3)
