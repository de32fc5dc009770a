"""Path exploration by re-execution, with z3 deciding branch feasibility and
the verification conditions.

A run of a harness is a sequence of decisions.  Every time the code branches on
a symbolic condition the engine asks the solver whether the other side is
feasible under the path condition and, if so, queues it.  Exploration stops
when the queue is empty: then every feasible path within the bounds has been
executed and every verification condition on it was decided by the solver.
"""
import time
import z3
from . import terms as T


class Control(BaseException):
    """Engine control flow; must never be swallowed by the code under test."""


class Infeasible(Control):
    pass


class OutOfBudget(Control):
    """Case budget exhausted -> result is incomplete (never 'held')."""


class Unknown(Control):
    pass


PATH_CPU = 45       # seconds of one path, without the solver


class FuelOut(Control):
    """Loop iteration bound exceeded on a feasible path."""


class Engine:
    def __init__(self, timeout_ms=60000, max_paths=200000, deadline=None, fuel=400000):
        self.solver = z3.SolverFor("QF_BV")
        self.solver.set("timeout", timeout_ms)
        self.asserted = []
        self.queries = 0
        self.branch_queries = 0
        self.vc_queries = 0
        self.trivial_vcs = 0
        self.pair_checks = {}
        self.solver_time = 0.0
        self.paths = 0
        self.infeasible = 0
        self.max_paths = max_paths
        self.deadline = deadline
        self.fuel_limit = fuel
        self.incomplete = []
        self.labels = {}
        self.reached = {}
        self.notes = {}
        self.violations = []
        self.cross = []          # smt2 of a few VCs for cross-checking
        self.conc_limit = 70000
        self.start_path((), {})

    # ------------------------------------------------------------ path state
    def start_path(self, prefix, model):
        self.prefix = prefix
        self.pi = 0
        self.trace = []
        self.pc = []
        self.pcids = set()
        self.known = {}
        self.conc = {}
        self.model = model
        self.memo = {}
        self.vars = {}
        self.ticks = 0
        self.path_start = time.process_time() - self.solver_time
        self.unsup = 0

    def add_pc(self, t):
        if t is T.TRUE or t.id in self.pcids:
            return
        if t.op == "and&":
            for a in t.args:
                self.add_pc(a)
            return
        self.pc.append(t)
        self.pcids.add(t.id)
        if t.op == "not":
            self.known[t.args[0].id] = False
        else:
            self.known[t.id] = True

    def sync(self):
        a, pc = self.asserted, self.pc
        n = 0
        m = min(len(a), len(pc))
        while n < m and a[n] is pc[n]:
            n += 1
        if len(a) > n:
            self.solver.pop(len(a) - n)
            del a[n:]
        for t in pc[n:]:
            self.solver.push()
            self.solver.add(T.to_z3(t))
            a.append(t)

    def query(self, t):
        """Model (env dict) of pc & t, or None."""
        if t is T.FALSE:
            return None
        self.sync()
        self.queries += 1
        t0 = time.time()
        if self.deadline and t0 > self.deadline:
            raise OutOfBudget("time")
        self.solver.push()
        try:
            self.solver.add(T.to_z3(t))
            r = self.solver.check()
            if r == z3.sat:
                return self.env(self.solver.model())
            if r == z3.unsat:
                return None
            raise Unknown(self.solver.reason_unknown())
        finally:
            self.solver.pop()
            self.solver_time += time.time() - t0

    @staticmethod
    def env(m):
        e = {}
        for d in m.decls():
            v = m[d]
            if z3.is_bv_value(v):
                e[d.name()] = v.as_long()
            elif z3.is_true(v):
                e[d.name()] = 1
            elif z3.is_false(v):
                e[d.name()] = 0
        return e

    def ev(self, t):
        return T.evaluate(t, self.model, self.memo)

    def set_model(self, m):
        self.model = m
        self.memo = {}

    # ------------------------------------------------------------ decisions
    def fork(self, c):
        """Decide a boolean term on this path."""
        if c is T.TRUE:
            return True
        if c is T.FALSE:
            return False
        neg = False
        if c.op == "not":
            c = c.args[0]
            neg = True
        k = self.known.get(c.id)
        if k is not None:
            return k != neg
        if self.pi < len(self.prefix):
            v = self.prefix[self.pi]
            if v is not True and v is not False:
                raise Misaligned("branch")
            self.pi += 1
            self.trace.append(v)
        else:
            v = bool(self.ev(c))
            other = T.not_(c) if v else c
            self.branch_queries += 1
            m2 = self.query(other)
            if m2 is not None:
                self.pending.append((tuple(self.trace) + (not v,), m2))
            self.trace.append(v)
            if m2 is None:
                # implied by the path condition: remember, but no new constraint
                self.known[c.id] = v
                return v != neg
        self.known[c.id] = v
        self.add_pc(c if v else T.not_(c))
        return v != neg

    def concretize(self, t, signed=False):
        """Fork over the feasible values of a bit-vector term."""
        if T.isc(t):
            v = T.cval(t)
        else:
            v = self.conc.get(t.id)
            if v is None:
                n = 0
                while True:
                    if self.pi < len(self.prefix):
                        v = self.prefix[self.pi]
                        if v is True or v is False:
                            raise Misaligned("value")
                        self.pi += 1
                    else:
                        v = self.ev(t)
                    self.trace.append(v)
                    if self.fork(T.eq(t, T.const(v, t.w))):
                        break
                    n += 1
                    if n > self.conc_limit:
                        raise OutOfBudget("too many values to enumerate")
                self.conc[t.id] = v
        if signed and v >> (t.w - 1):
            v -= 1 << t.w
        return v

    def assume(self, c):
        if c is T.TRUE:
            return
        if c is T.FALSE:
            raise Infeasible()
        if self.pi >= len(self.prefix) and not self.ev(c):
            m = self.query(c)
            if m is None:
                raise Infeasible()
            self.set_model(m)
        self.add_pc(c)

    # ------------------------------------------------------------ VCs
    def check(self, c, label, detail=None):
        self.labels[label] = self.labels.get(label, 0) + 1
        if self.pi < len(self.prefix):
            # already decided on the path this one was forked from
            self.add_pc(c) if c is not T.FALSE else None
            if c is T.FALSE:
                raise Infeasible()
            return
        if c is T.TRUE:
            self.trivial_vcs += 1
            return
        bad = T.not_(c)
        if c is T.FALSE or not self.ev(c):
            m = self.model
            self.vc_queries += 1
            # confirm with the solver that the path itself is feasible
            m = self.query(bad) if bad is not T.TRUE else (self.query(T.TRUE) if self.pc else self.model)
        else:
            self.vc_queries += 1
            if len(self.cross) < 3 and self.vc_queries % 37 == 1:
                self.dump(bad)
            m = self.query(bad)
        if m is not None:
            self.violations.append({"label": label, "detail": detail if detail is None or type(detail) in (str, int) else str(detail), "env": dict(m),
                                    "vars": dict(self.vars)})
            raise Violated()
        self.add_pc(c)

    def check_pairs(self, pairs, label):
        """Equalities that hash-consing already reduced to identities: put the
        negated conjunction to the solver as well, in its unsimplified form
        (the first 25 of each case and label; identity of hash-consed terms
        decides the rest, which evidence counts separately)."""
        self.pair_checks[label] = self.pair_checks.get(label, 0) + 1
        if self.pair_checks[label] > 25:
            return
        self.sync()
        self.queries += 1
        self.vc_queries += 1
        t0 = time.time()
        zs = [z3.Distinct(T.to_z3(a), T.to_z3(b)) for a, b in pairs]
        self.solver.push()
        try:
            self.solver.add(z3.Or(*zs))
            r = self.solver.check()
            if r == z3.unsat:
                return
            if r == z3.sat:
                self.violations.append({"label": label, "detail": "solver refuted a simplified identity",
                                        "env": self.env(self.solver.model()), "vars": dict(self.vars)})
                raise Violated()
            raise Unknown(self.solver.reason_unknown())
        finally:
            self.solver.pop()
            self.solver_time += time.time() - t0

    def dump(self, t):
        s = z3.Solver()
        for p in self.pc:
            s.add(T.to_z3(p))
        s.add(T.to_z3(t))
        txt = s.to_smt2()
        if len(txt) < 200000:
            self.cross.append(txt)

    def fail(self, label, detail=None):
        self.check(T.FALSE, label, detail)

    def tick(self):
        self.ticks += 1
        if self.ticks > self.fuel_limit:
            raise FuelOut()
        if not (self.ticks & 15) and time.process_time() - self.path_start - self.solver_time > PATH_CPU:
            # slow growth without an end in sight: replayed like a loop that
            # exceeds its bound
            raise FuelOut()
        if not (self.ticks & 1023) and self.deadline and time.time() > self.deadline:
            raise OutOfBudget("time")

    # ------------------------------------------------------------ driver
    def explore(self, fn, on_exc, max_violations=1):
        """Run fn() over all paths.  on_exc(e) maps an exception escaping the
        harness to a violation label or None."""
        self.pending = [((), {})]
        while self.pending:
            prefix, model = self.pending.pop()
            if self.paths >= self.max_paths or (self.deadline and time.time() > self.deadline):
                self.incomplete.append("budget: %d paths explored, %d pending" % (self.paths, len(self.pending) + 1))
                break
            self.start_path(prefix, model)
            if len(self.pc) == 0 and T.table_size() > 3000000:
                pass
            try:
                fn()
                self.paths += 1
            except Infeasible:
                self.infeasible += 1
            except Violated:
                self.paths += 1
            except FuelOut:
                self.paths += 1
                try:
                    self.fail("non-termination", "loop bound of %d iterations or %d s exceeded" % (self.fuel_limit, PATH_CPU))
                except Violated:
                    pass
                except Control as e:
                    self.incomplete.append("%s: %s" % (type(e).__name__, e))
            except OutOfBudget as e:
                self.incomplete.append("budget: %s" % e)
                break
            except Unknown as e:
                self.incomplete.append("solver unknown: %s" % e)
            except Misaligned as e:
                self.incomplete.append("internal: decisions of a replayed path do not match (%s)" % e)
            except Exception as e:
                self.paths += 1
                label = on_exc(e)
                if label:
                    try:
                        self.pi = len(self.prefix)
                        self.fail(label[0], label[1])
                    except Violated:
                        pass
                    except Control as e2:
                        self.incomplete.append("%s: %s" % (type(e2).__name__, e2))
            if len(self.violations) >= max_violations:
                break


class Misaligned(Control):
    """A replayed path took another sequence of decisions than recorded."""


class Violated(Control):
    pass


ENG = None


def eng():
    return ENG


def set_engine(e):
    global ENG
    ENG = e
