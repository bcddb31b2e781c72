"""Path exploration: decisions, the solver, and the outcome of a case.

The code under test is run for real, by the ordinary interpreter.  Inputs are
proxies (sx.values) that carry z3 terms; whenever the interpreter asks one of
them for a concrete truth value, `Engine.decide` asks the solver which
outcomes are feasible under the path condition, follows one and queues the
other.  A queued path is re-executed from the start along its recorded
decisions.  A case is *complete* when the queue runs empty without a cut.
"""

from __future__ import annotations

import asyncio
import os
import sys
import random
import signal
import time
import traceback

import z3

ENGINE = None  # the active engine, if any


class PathEnd(SystemExit):
    """Ends the current path. Not an Exception, so code under test keeps out."""


class PathInfeasible(PathEnd):
    """The path's assumptions cannot be met (or nothing more to learn)."""


class PathCut(PathEnd):
    """A bound was hit: this path is not covered."""


class CounterExample(PathEnd):
    """An assertion fails on this path."""


class Hung(BaseException):
    """A path has been running for too long."""


PATH_S = 20.0


def _on_alarm(*_):
    raise Hung()


signal.signal(signal.SIGVTALRM, _on_alarm)


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.paths = 0
        self.infeasible = 0
        self.cuts = {}
        self.obligations = 0
        self.discharged = 0
        self.decisions = 0
        self.concretised = {}
        self.reached = {}


class Engine:
    """Explores one case."""

    def __init__(self, deadline, query_ms=10000, max_paths=200000, seed=1,
                 conc_limit=300, witnesses=6):
        self.deadline = deadline
        self.query_ms = query_ms
        self.max_paths = max_paths
        self.conc_limit = conc_limit
        self.rng = random.Random(seed)
        self.stats = Stats()
        self.violations = []      # (model inputs, message)
        self.errors = []          # unsupported paths
        self.witnesses = []
        self.n_witnesses = witnesses
        self.fresh_count = 0
        self.complete = False
        self.aborting = None
        self.last_unknown = None

    # ---------------------------------------------------------------- solver
    def _new_solver(self):
        s = z3.Solver()
        s.set("timeout", self.query_ms)
        return s

    def check(self, *extra):
        """Satisfiability of the path condition with something extra."""
        st = self.stats
        st.queries += 1
        self._watch(0)
        try:
            return self._check(extra)
        finally:
            self._watch(PATH_S)

    def _check(self, extra):
        st = self.stats
        beg = time.perf_counter()
        left = self.deadline - time.monotonic()
        if left <= 0:
            self.cut("time budget")
        self.solver.set("timeout", int(max(200, min(self.query_ms, left * 1000))))
        res = self.solver.check(*extra)
        st.solver_s += time.perf_counter() - beg
        if res == z3.unknown:
            st.unknown += 1
            # a second opinion from a fresh, non-incremental solver
            s2 = z3.Solver() if self._has_fp(extra) else z3.SolverFor("QF_BV")
            s2.set("timeout", int(max(200, min(self.query_ms, left * 1000))))
            s2.add(*self.pc)
            s2.add(*extra)
            beg = time.perf_counter()
            res = s2.check()
            st.queries += 1
            st.solver_s += time.perf_counter() - beg
            if res == z3.sat:
                self._model_src = s2
                return res
            if res == z3.unknown:
                self.last_unknown = str(extra)[:200]
        self._model_src = self.solver
        return res

    def _has_fp(self, extra):
        return self.uses_fp

    def model_now(self):
        return self._model_src.model()

    # ----------------------------------------------------------------- paths
    def run(self, body):
        """Explore every path of body()."""
        global ENGINE
        work = [((), None)]
        st = self.stats
        cut_before = 0
        while work:
            if time.monotonic() > self.deadline or st.paths >= self.max_paths:
                self._note_cut("path or time budget (%d queued)" % len(work))
                break
            if self.violations:
                break
            self.work = work
            prefix, model = work.pop()
            self.prefix = prefix
            self.trace = []
            self.pos = 0
            self.pc = []
            self.pc_unchecked = False
            self.inputs = {}
            self.observed = []
            self.names = {}
            self.fresh_count = 0
            self.uses_fp = False
            self.solver = self._new_solver()
            self._model_src = None
            self.model = self.prefix_model = model
            self.aborting = None
            self.soft = []
            ENGINE = self
            outcome = "done"
            try:
                self._watch(PATH_S)
                body(self)
            except Hung:
                self._watch(0)
                self.aborting = None
                outcome = self._escaped(TimeoutError("no end in sight"))
            except PathInfeasible:
                outcome = "infeasible"
            except PathCut as exc:
                outcome = "cut"
            except CounterExample:
                outcome = "cex"
            except (Exception, SystemExit, asyncio.CancelledError) as exc:
                # escaped from the harness body
                outcome = self._escaped(exc)
            finally:
                self._watch(0)
                ENGINE = None
            if self.aborting is not None and outcome == "done":
                # something swallowed our control exception
                outcome = {PathInfeasible: "infeasible", PathCut: "cut",
                           CounterExample: "cex"}[type(self.aborting)]
            if outcome == "infeasible":
                st.infeasible += 1
            else:
                st.paths += 1
            if outcome == "done":
                self._witness()
        else:
            self.complete = not st.cuts
        return self

    @staticmethod
    def _watch(seconds):
        """A path that runs on without asking the solver anything may hang."""
        signal.setitimer(signal.ITIMER_VIRTUAL, seconds)

    def _escaped(self, exc):
        msg = "unexpected %s: %s" % (type(exc).__name__, safe_str(exc))
        tb = traceback.format_exc(limit=-12)
        if os.environ.get("SX_DEBUG"):
            print(tb)
        ENG_inputs = self._solve_inputs()
        if ENG_inputs is None:
            return "infeasible"
        self.stats.obligations += 1
        self.violations.append({"inputs": ENG_inputs, "message": msg, "kind": "exception",
                                "trace": tb})
        return "cex"

    def _solve_inputs(self, extra=()):
        ENGINE_check = self.check(*extra)
        if ENGINE_check != z3.sat:
            return None
        return self.eval_inputs(self.model_now())

    def eval_inputs(self, model):
        from . import values
        return {k: values.evaluate(v, model) for k, v in self.inputs.items()}

    def _witness(self):
        """Keep a concrete witness of a finished path, to be run for real."""
        if len(self.witnesses) >= self.n_witnesses:
            # reservoir sampling keeps witnesses spread over the exploration
            slot = self.rng.randrange(self.stats.paths + 1)
            if slot >= self.n_witnesses:
                return
        else:
            slot = len(self.witnesses)
            self.witnesses.append(None)
        from . import values
        try:
            ok = self.check() == z3.sat
        except PathEnd:
            ok = False
        if not ok:
            if self.witnesses[slot] is None:
                self.witnesses.pop(slot)
            return
        model = self.model_now()
        self.witnesses[slot] = {
            "inputs": self.eval_inputs(model),
            "observed": [(k, values.evaluate(v, model)) for k, v in self.observed],
        }

    # ------------------------------------------------------------- decisions
    def _abort(self, exc):
        self.aborting = exc
        raise exc

    def add(self, expr):
        self.pc.append(expr)
        self.solver.add(expr)

    def _replayed(self):
        """The model found when the path was forked holds from there on."""
        if self.pos == len(self.prefix):
            self.model = self.prefix_model

    def decide(self, expr):
        """A concrete truth value for a z3 Bool."""
        if self.aborting is not None:
            raise self.aborting
        hid = expr.hash()
        expr = z3.simplify(expr)
        if z3.is_true(expr):
            return True
        if z3.is_false(expr):
            return False
        self.stats.decisions += 1
        if self.pos < len(self.prefix):
            val, want = self.prefix[self.pos]
            if want != hid:
                self._note_cut("non-deterministic re-execution")
                self._abort(PathCut("nondet"))
            self.pos += 1
            self.trace.append((val, hid))
            self.add(expr if val else z3.Not(expr))
            self._replayed()
            return val
        if time.monotonic() > self.deadline:
            self.cut("time budget")
        can = {}
        models = {}
        neg = z3.Not(expr)
        if self.model is not None:
            got = self.model.eval(expr, model_completion=True)
            if z3.is_true(got):
                can[True] = True
                models[True] = self.model
            elif z3.is_false(got):
                can[False] = True
                models[False] = self.model
        for side, e in ((True, expr), (False, neg)):
            if side in can:
                continue
            res = self.check(e)
            can[side] = res != z3.unsat
            if res == z3.sat:
                models[side] = self.model_now()
            else:
                models[side] = None
        if not can[True] and not can[False]:
            self._abort(PathInfeasible())
        if can[True] and can[False]:
            take = True if self.rng.random() < 0.5 else False
            # queue the other side
            self.work.append((tuple(self.trace) + ((not take, hid),),
                              models[not take]))
        else:
            take = can[True]
        self.trace.append((take, hid))
        self.prefix = ()
        self.pos = 0
        self.model = models[take]
        self.add(expr if take else neg)
        return take

    def assume(self, cond):
        """Restrict the inputs."""
        if self.aborting is not None:
            raise self.aborting
        from . import values
        e = values.as_z3bool(cond)
        if e is True:
            return
        if e is False:
            self._abort(PathInfeasible())
        e = z3.simplify(e)
        if z3.is_true(e):
            return
        self.add(e)
        if self.pos < len(self.prefix):
            return  # known to be feasible
        if self.model is not None and not z3.is_true(
                self.model.eval(e, model_completion=True)):
            self.model = None
        if self.model is None:
            res = self.check()
            if res == z3.unsat:
                self._abort(PathInfeasible())
            if res == z3.sat:
                self.model = self.model_now()

    def require(self, cond, message):
        """An obligation: cond must hold for every input of this path."""
        if self.aborting is not None:
            raise self.aborting
        if self.pos < len(self.prefix):
            return  # discharged on the path this one was forked from
        from . import values
        self.stats.obligations += 1
        e = values.as_z3bool(cond)
        if e is True:
            self.stats.discharged += 1
            return
        if e is not False:
            e = z3.simplify(e)
            if z3.is_true(e):
                self.stats.discharged += 1
                return
            neg = z3.Not(e)
            if self.model is not None and z3.is_false(
                    self.model.eval(e, model_completion=True)):
                self.add(neg)
                res = self.check()
            else:
                res = self.check(neg)
                if res == z3.unsat:
                    self.stats.discharged += 1
                    return
                if res == z3.unknown:
                    self._note_cut("solver gave no answer for an obligation")
                    self.assume(cond)
                    return
        else:
            res = self.check()
            if res == z3.unsat:
                self._abort(PathInfeasible())
        if res != z3.sat:
            self._note_cut("solver gave no answer for an obligation")
            self._abort(PathCut("unknown"))
        model = self.model_now()
        self.violations.append({"inputs": self.eval_inputs(model),
                                "message": message, "kind": "assertion"})
        self._abort(CounterExample(message))

    def _note_cut(self, why):
        self.stats.cuts[why] = self.stats.cuts.get(why, 0) + 1

    def cut(self, why):
        self._note_cut(why)
        self._abort(PathCut(why))

    def value_of(self, expr):
        """Some feasible concrete value of a z3 expression on this path."""
        if self.aborting is not None:
            raise self.aborting
        if self.pos < len(self.prefix):
            kind, val = self.prefix[self.pos]
            if kind != "value":
                self._note_cut("non-deterministic re-execution")
                self._abort(PathCut("nondet"))
            self.pos += 1
            self.trace.append((kind, val))
            self._replayed()
            return val
        val = self._value_of(expr)
        self.trace.append(("value", val))
        return val

    def _value_of(self, expr):
        if self.model is None:
            res = self.check()
            if res == z3.unsat:
                self._abort(PathInfeasible())
            if res != z3.sat:
                self.cut("solver gave no answer")
            self.model = self.model_now()
        return self.model.eval(expr, model_completion=True)

    def fresh(self, base):
        self.fresh_count += 1
        return "%s!%d" % (base, self.fresh_count)


def safe_str(x):
    try:
        return str(x)[:300]
    except BaseException:  # noqa
        return "?"
