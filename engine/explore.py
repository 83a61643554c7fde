"""Exhaustive path exploration of a harness over the real code, with z3 deciding every branch.

A harness is a Python function h(ctx, M, **params).  It declares symbolic inputs through ctx,
drives the public API of the modules in M and states the property with ctx.check.  `explore`
re-executes it once per feasible path: a path is a sequence of branch decisions, each confirmed
feasible by the solver, and a subtree is closed only when the solver answers `unsat` for the
negated branch.  On every path each ctx.check(cond) becomes the query  path-condition & not cond.
"""
from __future__ import annotations

import fractions
import random
import re
import signal
import sys
import time
import traceback

import z3

from . import loader, sym, shims


class PathEnd(BaseException):
    """Stop the current path (assumption false or violation recorded)."""


class PathTimeout(BaseException):
    pass


class Divergence(BaseException):
    """A replayed prefix did not reach the same decision: the harness is not deterministic."""


class Stats:
    FIELDS = ("paths", "pruned", "branches", "solver_checks", "checks", "checks_trivial", "unknown", "divergences",
              "roundings")

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.solver_s = 0.0
        self.labels = {}
        self.functions = set()
        self.incomplete = {}
        self.assumptions = set()

    def merge(self, o):
        for f in self.FIELDS:
            setattr(self, f, getattr(self, f) + getattr(o, f))
        self.solver_s += o.solver_s
        for k, v in o.labels.items():
            self.labels[k] = self.labels.get(k, 0) + v
        for k, v in o.incomplete.items():
            self.incomplete[k] = self.incomplete.get(k, 0) + v
        self.functions |= o.functions
        self.assumptions |= o.assumptions


class Limits:
    max_depth = 4000
    path_seconds = 20.0
    query_ms = 20000
    value_fanout = 64


class SolverStack:
    """One incremental solver; keeps the asserted constraints in step with the current path."""

    def __init__(self, query_ms):
        self.s = z3.Solver()
        self.s.set("timeout", query_ms)
        self.stack = []

    def sync(self, cons):
        i = 0
        n = min(len(cons), len(self.stack))
        while i < n and (cons[i] is self.stack[i] or cons[i].eq(self.stack[i])):
            i += 1
        if i < len(self.stack):
            self.s.pop(len(self.stack) - i)
            del self.stack[i:]
        for c in cons[i:]:
            self.s.push()
            self.s.add(c)
            self.stack.append(c)


class SymContext:
    symbolic = True

    def __init__(self, solver, stats, prefix, limits, known=()):
        self._solver = solver
        self.stats = stats
        self.limits = limits
        self.prefix = prefix          # list of (kind, value, hash)
        self.decisions = []
        self.alternatives = []        # list of prefixes still to explore
        self.cons = []
        self.model = None
        self.inputs = {}              # name -> (kind, z3 var, extra)
        self.ranges = {}
        self.fresh = 0
        self.labels = []
        self.violation = None
        self.known_hits = []
        self.known = set(known)
        self.tokens = {}
        self.round_int_axioms = True
        self.round_abs = False       # coarser (still sound) rounding bound: easier for the solver
        self.path_incomplete = False
        self._inline_alts = None

    # ---- solver plumbing
    def _check(self, *extra):
        t0 = time.perf_counter()
        self._solver.sync(self.cons)
        s = self._solver.s
        if extra:
            s.push()
            s.add(*extra)
            r = s.check()
            m = s.model() if r == z3.sat else None
            s.pop()
        else:
            r = s.check()
            m = s.model() if r == z3.sat else None
        self.stats.solver_checks += 1
        self.stats.solver_s += time.perf_counter() - t0
        return r, m

    def _ensure_model(self):
        if self.model is None:
            r, m = self._check()
            if r == z3.unsat:
                raise PathEnd()
            if r == z3.unknown:
                self.incomplete("solver unknown on path condition")
                raise PathEnd()
            self.model = m
        return self.model

    def add(self, c):
        """Assert a constraint on the path."""
        self.cons.append(c)
        if self.model is not None and not z3.is_true(self.model.eval(c, model_completion=True)):
            self.model = None

    def incomplete(self, why):
        self.path_incomplete = True
        self.stats.incomplete[why] = self.stats.incomplete.get(why, 0) + 1

    def _next(self, kind, h):
        d = len(self.decisions)
        if d < len(self.prefix):
            k, v, hh = self.prefix[d]
            if k != kind or hh != h:
                raise Divergence("decision %d: %r/%r vs %r/%r" % (d, k, hh, kind, h))
            return True, v
        if d > self.limits.max_depth:
            self.incomplete("decision depth bound")
            raise PathEnd()
        return False, None

    @property
    def replaying(self):
        return len(self.decisions) < len(self.prefix)

    def branch(self, cond):
        h = cond.hash()
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        known, v = self._next("b", h)
        neg = z3.Not(cond)
        if known:
            self.decisions.append(("b", v, h))
            self.add(cond if v else neg)
            return v
        m = self._ensure_model()
        side = z3.is_true(m.eval(cond, model_completion=True))
        r, m2 = self._check(neg if side else cond)
        if r == z3.sat:
            self.alternatives.append(self.decisions + [("b", not side, h)])
        elif r == z3.unknown:
            self.stats.unknown += 1
            self.incomplete("solver unknown on a branch")
        self.stats.branches += 1
        self.decisions.append(("b", side, h))
        self.add(cond if side else neg)
        return side

    def choose_value(self, e, limit=None):
        """Fork over every value of the integer term e."""
        h = e.hash()
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        known, v = self._next("v", h)
        if known:
            self.decisions.append(("v", v, h))
            self.add(e == v)
            return v
        limit = limit or self.limits.value_fanout
        m = self._ensure_model()
        vals = []
        block = []
        v = m.eval(e, model_completion=True).as_long()
        while True:
            vals.append(v)
            block.append(e != v)
            if len(vals) > limit:
                self.incomplete("value fan-out bound")
                break
            r, m2 = self._check(*block)
            if r == z3.unsat:
                break
            if r == z3.unknown:
                self.incomplete("solver unknown on a value")
                break
            v = m2.eval(e, model_completion=True).as_long()
        self.stats.branches += len(vals) - 1
        for o in vals[1:]:
            self.alternatives.append(self.decisions + [("v", o, h)])
        v = vals[0]
        self.decisions.append(("v", v, h))
        self.add(e == v)
        return v

    # ---- symbolic inputs
    def _declare(self, name, kind, var, extra=None):
        if name in self.inputs:
            raise RuntimeError("input %s declared twice" % name)
        self.inputs[name] = (kind, var, extra)

    def fallback_models(self, rng, count, seconds):
        """Models of the path condition of a path that could not be encoded to its end, spread over the
        inputs: each input in random order is set to a random value if that is feasible."""
        out = []
        t_end = time.monotonic() + seconds
        for n in range(count):
            if time.monotonic() > t_end:
                break
            r, m = self._check()
            if r != z3.sat:
                break
            fixed = []
            names = list(self.inputs)
            rng.shuffle(names)
            for name in names[:48]:
                kind, var, extra = self.inputs[name]
                if time.monotonic() > t_end:
                    break
                if kind == "bool":
                    c = var == rng.choice([True, False])
                else:
                    lo, hi = self.ranges.get(name, (None, None))
                    v = rng.choice([0, 1, -1, 7, 12, 100, rng.randint(-10 ** 6, 10 ** 6)])
                    if lo is not None and hi is not None:
                        v = rng.randint(lo, hi)
                    c = var == v
                r, m2 = self._check(*fixed, c)
                if r == z3.sat:
                    fixed.append(c)
                    m = m2
            out.append(self.assignment(m))
        return out

    def int(self, name, lo=None, hi=None):
        v = z3.Int(name)
        self._declare(name, "int", v)
        self.ranges[name] = (lo, hi)
        if lo is not None:
            self.add(v >= lo)
        if hi is not None:
            self.add(v <= hi)
        return sym.SymInt(v, lo, hi)

    def bool(self, name):
        v = z3.Bool(name)
        self._declare(name, "bool", v)
        return sym.SymBool(v)

    def flt(self, name, k, lo, hi):
        """A double that is a multiple of 2**-k with lo <= value <= hi."""
        v = z3.Int(name)
        self._declare(name, "dyadic", v, k)
        f = fractions.Fraction
        nlo, nhi = f(lo) * 2 ** k, f(hi) * 2 ** k
        self.ranges[name] = (int(nlo), int(nhi))
        self.add(v >= int(nlo))
        self.add(v <= int(nhi))
        assert max(abs(nlo), abs(nhi)) <= sym.TWO53
        return sym.SymFloat.dyadic(v, k, f(lo), f(hi))

    def choice(self, name, n):
        """A symbolic index below n, forked over all its values."""
        if n <= 1:
            return 0
        v = z3.Int(name)
        self._declare(name, "int", v)
        self.ranges[name] = (0, n - 1)
        self.add(z3.And(v >= 0, v < n))
        return self.choose_value(v, limit=max(n, 64))

    def pick(self, name, seq):
        return seq[self.choice(name, len(seq))]

    def index(self, name, n):
        """A symbolic position 0 <= i < n, as a symbolic integer."""
        return self.int(name, 0, n - 1)

    def fresh_real(self, tag):
        self.fresh += 1
        return z3.Real("%s!%d" % (tag, self.fresh))

    def uf_real(self, name, arg):
        return z3.Function(name, z3.RealSort(), z3.RealSort())(arg)

    def note_rounding(self):
        self.stats.roundings += 1

    # ---- environment
    def patch(self, module, name, value):
        shims.MODULE_STUBS[module]._overrides[name] = value

    def fresh_modules(self):
        return loader.load(True)

    def note(self, text):
        self.stats.assumptions.add(text)

    # ---- tokens: the text of a symbolic number
    def token(self, value, spec):
        t = "\u27e6%d\u27e7" % len(self.tokens)
        self.tokens[t] = (value, spec)
        return t

    def untoken(self, s):
        v = self.tokens.get(s.strip())
        if v is None:
            return None
        value, spec = v
        if not re.fullmatch(r"r|[-+ ]?0?[0-9]*d", spec):
            raise sym.Unsupported("parsing text formatted with %r" % spec)
        return value

    # ---- property statements
    def assume(self, cond):
        if isinstance(cond, sym.SymBool):
            self.add(cond.e)
            if not self.replaying:
                self._ensure_model()
        elif not cond:
            raise PathEnd()

    def check(self, cond, label, known=None, region=True):
        """The property: cond must hold on this path.  `known`/`region`: a listed finding."""
        self.labels.append(label)
        if self.replaying:
            return
        self.stats.labels[label] = self.stats.labels.get(label, 0) + 1
        self.stats.checks += 1
        if isinstance(cond, sym.SymBool):
            c = z3.simplify(cond.e)
            if z3.is_true(c):
                self.stats.checks_trivial += 1
                return
            neg = z3.Not(c)
        elif cond:
            self.stats.checks_trivial += 1
            return
        else:
            neg = z3.BoolVal(True)
        if known in self.known:
            reg = sym.zb(region)
            r, m = self._check(neg, reg)
            if r == z3.sat:
                self.known_hits.append((known, label, self.assignment(m)))
            neg = z3.And(neg, z3.Not(reg))
        r, m = self._check(neg)
        if r == z3.unsat:
            return
        if r == z3.unknown:
            self.stats.unknown += 1
            self.incomplete("solver unknown on a property query (%s)" % label)
            return
        self.violation = {"label": label, "inputs": self.assignment(m), "approx": self.fresh > 0}
        self.violation["more"] = self._more_models(neg, m) if self.fresh > 0 else []
        big = self.large_model(neg)
        if big is not None:
            self.violation["more"].insert(0, self.assignment(big))
        raise PathEnd()

    def large_model(self, *extra):
        """A model whose integers lie, as far as they may, beyond the small ones that the interpreter shares:
        on the real code, equal integers are then not the same object, as they need not be."""
        vs = []
        for name, (kind, var, _) in self.inputs.items():
            lo, hi = self.ranges.get(name, (None, None))
            if kind == "int" and (hi is None or hi > 2000):
                vs.append(var)
        if not vs:
            return None
        r, m = self._check(*extra, *[v >= 1000 for v in vs])
        if r == z3.sat:
            return m
        fixed, best = [], None
        for v in vs[:8]:
            r, m = self._check(*extra, *fixed, v >= 1000)
            if r == z3.sat:
                fixed.append(v >= 1000)
                best = m
        return best

    def _more_models(self, neg, m, limit=150, seconds=10.0):
        """Where rounding is over-approximated, one model may not be a real counterexample: offer others."""
        out, block = [], []
        t_end = time.monotonic() + seconds
        ints = [var for kind, var, extra in self.inputs.values() if kind in ("int", "dyadic")]
        while len(out) < limit and ints and time.monotonic() < t_end:
            block.append(z3.Or([v != m.eval(v, model_completion=True) for v in ints]))
            r, m = self._check(neg, *block)
            if r != z3.sat:
                break
            out.append(self.assignment(m))
        return out

    def fail(self, label, **kw):
        self.check(False, label, **kw)

    def assignment(self, m):
        out = {}
        for name, (kind, var, extra) in self.inputs.items():
            v = m.eval(var, model_completion=True)
            if kind == "int":
                out[name] = v.as_long()
            elif kind == "bool":
                out[name] = z3.is_true(v)
            elif kind == "dyadic":
                out[name] = v.as_long() / 2 ** extra
            elif kind == "char":
                out[name] = v.as_long()
        return out


class Result:
    """Outcome of exploring a set of prefixes."""

    def __init__(self):
        self.stats = Stats()
        self.violations = []
        self.known_hits = []
        self.samples = []     # (inputs, labels)
        self.fallback = []    # inputs reaching code that could not be encoded
        self.leftover = []
        self.errors = []


_MON_TOOL = 4


def _start_monitor(functions, repo):
    mon = sys.monitoring
    try:
        mon.use_tool_id(_MON_TOOL, "verif")
    except ValueError:
        return

    def py_start(code, off):
        if code.co_filename.startswith(repo):
            functions.add(code.co_filename[len(repo):].lstrip("/") + ":" + code.co_qualname)
        return mon.DISABLE

    mon.register_callback(_MON_TOOL, mon.events.PY_START, py_start)
    mon.set_events(_MON_TOOL, mon.events.PY_START)


def _stop_monitor():
    mon = sys.monitoring
    mon.set_events(_MON_TOOL, 0)
    mon.register_callback(_MON_TOOL, mon.events.PY_START, None)
    mon.free_tool_id(_MON_TOOL)
    mon.restart_events()


def explore(fn, params, prefixes, *, deadline, slice_s, limits, rng, sample_rate, known=(), repo="/repo",
            max_violations=3):
    res = Result()
    M = loader.load(True)
    solver = SolverStack(limits.query_ms)
    work = list(prefixes)
    t_end = time.monotonic() + slice_s
    functions = set()
    _start_monitor(functions, repo + "/nion")
    divergence_retries = {}

    def on_alarm(sig, frame):
        raise PathTimeout()

    signal.signal(signal.SIGALRM, on_alarm)
    try:
        while work:
            now = time.monotonic()
            if now > t_end or now > deadline:
                break
            prefix = work.pop()
            ctx = SymContext(solver, res.stats, prefix, limits, known)
            sym.set_context(ctx)
            shims.reset_overrides()
            finished = False
            timed_out = False
            try:
                signal.setitimer(signal.ITIMER_REAL, limits.path_seconds)
                try:
                    fn(ctx, M, **params)
                    finished = True
                finally:
                    signal.setitimer(signal.ITIMER_REAL, 0)
            except PathEnd:
                pass
            except PathTimeout:
                timed_out = True
            except Divergence as e:
                res.stats.divergences += 1
                ctx.incomplete("non-deterministic replay")
                if len(res.errors) < 5:
                    res.errors.append("divergence: %s" % e)
                ctx.alternatives = []
            except sym.Unsupported as e:
                ctx.incomplete("unsupported: %s" % e)
            except z3.Z3Exception as e:
                ctx.incomplete("z3 exception: %s" % str(e)[:80])
                if len(res.errors) < 5:
                    res.errors.append(traceback.format_exc(limit=-4))
            except Exception as e:  # the code under test raised where the harness does not allow it
                signal.setitimer(signal.ITIMER_REAL, 0)
                label = "unexpected %s" % type(e).__name__
                ctx.labels.append(label)
                try:
                    r, m = ctx._check()
                    if r == z3.sat:
                        ctx.violation = {"label": label, "inputs": ctx.assignment(m),
                                         "detail": traceback.format_exc(limit=-3)}
                except Exception:
                    pass
            sym.set_context(None)
            work.extend(ctx.alternatives)
            if ctx.path_incomplete and len(res.fallback) < 12:
                try:
                    res.fallback.extend(ctx.fallback_models(rng, 4, 2.0))
                except Exception:
                    pass
            if timed_out:
                r, m = ctx._check()
                if r == z3.sat:
                    ctx.violation = {"label": "terminates", "inputs": ctx.assignment(m), "hang": True}
                else:
                    ctx.incomplete("path timeout")
            if finished:
                res.stats.paths += 1
                if len(res.samples) < 4 or rng.random() < sample_rate:
                    sym.set_context(ctx)
                    try:
                        m = ctx.large_model() if len(res.samples) % 2 and ctx.fresh == 0 else None
                        res.samples.append((ctx.assignment(m if m is not None else ctx._ensure_model()), ctx.labels))
                    except PathEnd:
                        pass
                    sym.set_context(None)
            elif ctx.violation is None:
                res.stats.pruned += 1
            res.known_hits.extend(ctx.known_hits)
            if ctx.violation is not None:
                res.violations.append(ctx.violation)
                if len(res.violations) >= max_violations:
                    break
    finally:
        _stop_monitor()
        sym.set_context(None)
    res.leftover = work
    res.stats.functions = functions
    return res
