"""Verification-condition engine: explores every path of a contract harness over
the real (instrumented) code, forks on symbolic conditions and discharges every
obligation with z3."""
import hashlib
import time

import z3


class Abort(SystemExit):
    """Base of the engine's control-flow exceptions.  Derived from SystemExit so that neither
    `except Exception` in the code under verification nor asyncio swallows it."""


class PathEnd(Abort):
    """This path is finished (infeasible assumption or loop-contract cut point)."""


class Unsupported(Abort):
    """The code left the subset the verifier can reason about exactly."""


class OutOfBudget(Abort):
    pass


ENGINE = None  # the current engine
DEBUG = False


def engine():
    return ENGINE


class Refuted:
    def __init__(self, label, draws, detail, abstract, trace):
        self.label = label
        self.draws = draws
        self.detail = detail
        self.abstract = abstract
        self.trace = trace


class Result:
    def __init__(self):
        self.paths = 0
        self.aborted_paths = 0
        self.obligations = 0
        self.discharged = 0
        self.trivial = 0
        self.by_label = {}
        self.refuted = []
        self.undecided = []
        self.unsupported = []
        self.crashes = []
        self.covered = set()
        self.functions = set()
        self.loops_proved = {}
        self.contracts_used = {}
        self.solver_s = 0.0
        self.queries = 0
        self.complete = False
        self.concretized = 0
        self.smt2 = []

    @property
    def ok(self):
        return (self.complete and not self.refuted and not self.undecided
                and not self.unsupported and not self.crashes)


class Engine:
    def __init__(self, query_timeout_ms=20000, path_limit=20000, time_limit=600.0,
                 mode="proof", seed=1, max_refuted=4, keep_smt2=0):
        self.qt = query_timeout_ms
        self.path_limit = path_limit
        self.time_limit = time_limit
        self.mode = mode            # "proof" or "bounded"
        self.seed = seed
        self.max_refuted = max_refuted
        self.keep_smt2 = keep_smt2
        self.res = None
        self.functions = set()
        self.unroll_limit = 400
        self.forks = None
        self.cuts = []
        self.cut_log = {}
        self.snapshot = None
        self.vloop = None

    # ------------------------------------------------------------------ exploration
    def explore(self, fn):
        global ENGINE
        prev = ENGINE
        ENGINE = self
        self.res = Result()
        self.t0 = time.time()
        work = [()]
        refuted_labels = {}
        try:
            while work:
                if self.res.paths >= self.path_limit:
                    self.res.unsupported.append("path limit %d reached" % self.path_limit)
                    break
                if time.time() - self.t0 > self.time_limit:
                    self.res.unsupported.append("time limit %.0fs reached" % self.time_limit)
                    break
                prefix = work.pop()
                self._start(prefix, work)
                try:
                    fn(self)
                    self.res.paths += 1
                except PathEnd:
                    self.res.paths += 1
                except OutOfBudget as e:
                    self.res.unsupported.append(str(e))
                    break
                except Unsupported as e:
                    self.res.aborted_paths += 1
                    self.res.unsupported.append(str(e))
                    if len(self.res.unsupported) > 3:
                        break
                except RecursionError as e:
                    self.res.aborted_paths += 1
                    self._crash(e)
                    if len(self.res.crashes) > 3:
                        break
                except Exception as e:  # escaped from the harness: candidate violation
                    self.res.aborted_paths += 1
                    self._crash(e)
                    if len(self.res.crashes) > 3:
                        break
                if len(self.res.refuted) >= self.max_refuted:
                    break
            else:
                self.res.complete = True
        finally:
            ENGINE = prev
            self.res.functions = set(self.functions)
            for name, (att, stepped, where) in self.cut_log.items():
                self.res.loops_proved[name] = (att, stepped, sorted(where))
                if att and not stepped and self.res.complete and not self.res.refuted:
                    self.res.undecided.append("loop contract %s: no iteration reaches its end" % name)
                if not att and self.res.complete:
                    self.res.undecided.append("loop contract %s attached to no loop" % name)
            self.res.solver_s = round(self.res.solver_s, 3)
        return self.res

    def _crash(self, e):
        import traceback
        global DEBUG
        saved, DEBUG = DEBUG, True
        try:
            tb = traceback.format_exc()
            what = "%s: %s" % (type(e).__name__, e)
        finally:
            DEBUG = saved
        m = self._model()
        if m is None:
            return
        self.res.crashes.append(Refuted("escaped exception " + what,
                                        self._draws(m), tb[-3000:], self.abstract,
                                        list(self.decisions)))

    def _start(self, prefix, work):
        self.prefix = prefix
        self.cuts = []
        self.prefer = []
        self.decisions = []
        self.work = work
        self.solver = z3.Solver()
        self.solver.set("timeout", self.qt)
        self.pc = []
        self.counter = {}
        self.draws = []
        self.abstract = False
        self.aborting = None
        self.known = {}
        self.path_hooks = {}
        self.hash_memo = {}

    # ------------------------------------------------------------------ helpers
    def fresh(self, name):
        n = self.counter.get(name, 0)
        self.counter[name] = n + 1
        return "%s!%d" % (name, n)

    def _q(self, *extra):
        if self.aborting:
            raise self.aborting
        if time.time() - self.t0 > self.time_limit:
            self.abort(OutOfBudget("time limit %.0fs reached" % self.time_limit))
        t = time.time()
        r = self.solver.check(*extra)
        self.res.solver_s += time.time() - t
        self.res.queries += 1
        return r

    def abort(self, exc):
        self.aborting = exc
        raise exc

    def unsupported(self, what):
        self.abort(Unsupported(what))

    def end_path(self):
        self.abort(PathEnd())

    def _model(self):
        try:
            saved, self.aborting = self.aborting, None
            r = self.solver.check()
            if r == z3.sat:
                return self.solver.model()
            if r == z3.unsat:
                return None
            return False
        finally:
            self.aborting = saved

    def _add(self, c):
        self.pc.append(c)
        self.solver.add(c)

    def _site(self, cond):
        """where paths split (debugging aid)"""
        import traceback
        fs = [f for f in traceback.extract_stack() if "/pyzwave/" in f.filename or "/props/" in f.filename]
        k = " < ".join("%s:%d" % (f.filename.split("/")[-1], f.lineno) for f in fs[-4:][::-1]) + "  " + str(cond)[:90].replace("\n", " ")
        self.forks[k] = self.forks.get(k, 0) + 1

    # ------------------------------------------------------------------ decisions
    def decide(self, cond):
        """Fork on a z3 Boolean; return the Python bool chosen on this path."""
        if self.aborting:
            raise self.aborting
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        k = cond.get_id()
        known = self.known.get(k)
        if known is not None:
            return known[0]
        i = len(self.decisions)
        neg = z3.Not(cond)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            t = self._q(cond)
            if t == z3.unsat:
                v = False
            else:
                f = self._q(neg)
                if f == z3.unsat:
                    v = True
                else:
                    # unknown counts as feasible: exploring an infeasible path is sound
                    self.work.append(tuple(self.decisions) + (False,))
                    v = True
                    if self.forks is not None:
                        self._site(cond)
        self.decisions.append(v)
        self._add(cond if v else neg)
        self.known[k] = (v, cond)
        return v

    def choose(self, n, what="choice"):
        """Nondeterministic choice among n alternatives (all explored)."""
        if self.aborting:
            raise self.aborting
        if n == 1:
            return 0
        i = len(self.decisions)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            for alt in range(n - 1, 0, -1):
                self.work.append(tuple(self.decisions) + (alt,))
            v = 0
        self.decisions.append(v)
        return v

    def concretize(self, term, evaluate, mkeq, limit=300, what="value"):
        """Fork over every feasible value of a term (at most `limit`)."""
        if self.aborting:
            raise self.aborting
        i = len(self.decisions)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            vals = []
            self.solver.push()
            try:
                while True:
                    r = self._q()
                    if r == z3.unsat:
                        break
                    if r == z3.unknown:
                        self.unsupported("solver gave up enumerating " + what)
                    val = evaluate(self.solver.model())
                    vals.append(val)
                    if len(vals) > limit:
                        self.unsupported("more than %d values for %s" % (limit, what))
                    self.solver.add(z3.Not(mkeq(val)))
            finally:
                self.solver.pop()
            vals.sort()
            if not vals:
                self.end_path()
            for alt in reversed(vals[1:]):
                self.work.append(tuple(self.decisions) + (alt,))
            v = vals[0]
            self.res.concretized += 1
        self.decisions.append(v)
        self._add(mkeq(v))
        return v

    def assume(self, cond):
        if isinstance(cond, bool):
            if not cond:
                self.end_path()
            return
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return
        self._add(cond)
        if len(self.decisions) >= len(self.prefix):
            if self._q() == z3.unsat:
                self.end_path()

    def valid(self, cond):
        """True if cond is implied by the path condition (no fork, no assumption)."""
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        return self._q(z3.Not(cond)) == z3.unsat

    # ------------------------------------------------------------------ obligations
    def check(self, label, cond, detail=None):
        if self.aborting:
            raise self.aborting
        replayed = len(self.decisions) < len(self.prefix)
        if not isinstance(cond, bool):
            cond = z3.simplify(cond)
            if z3.is_true(cond):
                cond = True
            elif z3.is_false(cond):
                cond = False
        if not replayed:
            ent = self.res.by_label.setdefault(label, [0, 0])
            self.res.obligations += 1
            ent[0] += 1
            if cond is True:
                self.res.discharged += 1
                self.res.trivial += 1
                ent[1] += 1
            else:
                if cond is False:
                    r = self._q()
                else:
                    if self.keep_smt2 and len(self.res.smt2) < self.keep_smt2:
                        s = z3.Solver()
                        s.add(self.pc)
                        s.add(z3.Not(cond))
                        self.res.smt2.append((label, s.to_smt2()))
                    r = self._q(z3.Not(cond))
                if r == z3.unsat:
                    self.res.discharged += 1
                    ent[1] += 1
                elif r == z3.sat:
                    m = self.solver.model()
                    if self.prefer:
                        # a counterexample from the loop's first iteration replays natively
                        self.solver.set("timeout", 5000)
                        extra = [] if cond is False else [z3.Not(cond)]
                        if self.solver.check(*extra, *self.prefer) == z3.sat:
                            m = self.solver.model()
                        self.solver.set("timeout", self.qt)
                    d = detail() if callable(detail) else detail
                    self.res.refuted.append(Refuted(label, self._draws(m), d, self.abstract,
                                                    list(self.decisions)))
                else:
                    self.res.undecided.append(label)
        if cond is False:
            self.end_path()
        if cond is not True:
            self._add(cond)
            if not replayed and self._q() == z3.unsat:
                self.end_path()

    def cover(self, label):
        self.res.covered.add(label)

    # ------------------------------------------------------------------ counterexamples
    def add_draw(self, name, kind, obj):
        self.draws.append((name, kind, obj))

    def _draws(self, m):
        out = []
        for name, kind, obj in self.draws:
            try:
                out.append([name, kind, self._eval(m, kind, obj)])
            except Exception as e:  # pragma: no cover
                out.append([name, kind, None])
        return out

    def _eval(self, m, kind, obj):
        from . import sym
        if kind == "choice":
            return obj
        if kind in ("int", "bool"):
            return sym.eval_int(m, obj)
        if kind == "bytes":
            return sym.eval_bytes(m, obj).hex()
        if kind == "intlist":
            return sym.eval_intlist(m, obj)
        raise ValueError(kind)
