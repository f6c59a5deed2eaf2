"""Symbolic execution engine: decision-prefix DFS over the real Python code.

One *run* executes the harness (and through it the real rocketry code) once.
Whenever the code asks for the truth value of a symbolic expression the engine
asks z3 which outcomes are feasible under the current path condition, follows
one and schedules the other.  Assertions are decided by z3 for *all* values
that reach them (path condition AND NOT assertion must be unsat).
"""
import signal
import time as _time
import z3

# set once per process by explore(); symbolic values reach the solver through it
CTX = None


class PathAbort(BaseException):
    """Steering exception: never caught by `except Exception`."""
    def __init__(self, why):
        super().__init__(why)
        self.why = why
        if CTX is not None and CTX.abort is None:
            CTX.abort = self


class Infeasible(PathAbort):
    pass


def cur():
    if CTX is None:
        raise RuntimeError("no symbolic context")
    return CTX


class Violation:
    def __init__(self, label, inputs, detail=""):
        self.label = label
        self.inputs = inputs
        self.detail = detail


class Ctx:
    """Symbolic context (one per run, solver shared by the exploration)."""
    symbolic = True

    def __init__(self, ex, prefix):
        self.ex = ex
        self.prefix = prefix
        self.decisions = []
        self.pc = []
        self.solver = ex.solver
        self.solver.reset()
        self.model = None
        self.inputs = []        # (name, kind, payload)
        self._names = {}
        self._fresh = 0
        self.observed = []
        self.abort = None
        self.n_checks = 0
        self.reached = False
        self.concretised = 0
        self.notes = []

    # ---------------------------------------------------------------- solver
    def _check(self, *extra):
        t0 = _time.perf_counter()
        r = self.solver.check(*extra)
        self._m2 = None
        if r == z3.unknown:
            # second configuration of the arithmetic core before giving up
            s2 = z3.Solver()
            s2.set("arith.solver", 2)
            s2.set("timeout", self.ex.query_timeout_ms)
            s2.add(*self.pc)
            s2.add(*extra)
            r = s2.check()
            self.ex.stats["retried"] += 1
            if r == z3.sat:
                self._m2 = s2.model()
        self.ex.stats["solver_s"] += _time.perf_counter() - t0
        self.ex.stats["queries"] += 1
        if r == z3.unknown:
            self.ex.stats["unknown"] += 1
        return r

    def _ensure_model(self):
        if self.model is None:
            r = self._check()
            if r == z3.unsat:
                raise Infeasible("path condition unsat")
            if r == z3.sat:
                self.model = self._last_model()
        return self.model

    def _last_model(self):
        return self._m2 if self._m2 is not None else self.solver.model()

    def _add(self, e):
        self.pc.append(e)
        self.solver.add(e)
        if self.model is not None:
            if not z3.is_true(self.model.eval(e, model_completion=True)):
                self.model = None

    def define(self, e):
        """Definitional constraint of fresh variables (total by construction)."""
        self._add(e)

    def assume(self, cond):
        e = as_z3bool(cond)
        if e is True:
            return
        if e is False:
            raise Infeasible("assume false")
        self._add(e)
        if len(self.decisions) >= len(self.prefix):
            self._ensure_model()

    def branch(self, e):
        """Decide the truth value of z3 Bool `e` on this path."""
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if self.abort is not None:
            raise self.abort
        i = len(self.decisions)
        if i < len(self.prefix):
            val = self.prefix[i]
            self.decisions.append(val)
            self._add(e if val else z3.Not(e))
            return val
        if self.ex.out_of_time():
            raise PathAbort("budget")
        if i >= self.ex.max_depth:
            raise PathAbort("depth")
        m = self._ensure_model()
        if m is not None:
            first = z3.is_true(m.eval(e, model_completion=True))
            other = self._check(z3.Not(e) if first else e)
            other_ok = other != z3.unsat
        else:
            first = True
            other_ok = True
        if not other_ok:
            # only one outcome feasible: implied by the path condition
            self.decisions.append(first)
            return first
        self.ex.stats["forks"] += 1
        self.ex.push(self.decisions + [not first])
        self.decisions.append(first)
        self._add(e if first else z3.Not(e))
        return first

    def implied(self, e):
        """True/False if e is forced on this path, None otherwise (no fork)."""
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if self._check(z3.Not(e)) == z3.unsat:
            return True
        if self._check(e) == z3.unsat:
            return False
        return None

    def concretize(self, e, limit=12):
        """Pick concrete values for an Int expression by forking."""
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        for n in range(limit):
            key = (tuple(self.decisions), e.hash())
            v = self.ex.concr.get(key)
            if v is None:
                m = self._ensure_model()
                if m is None:
                    raise PathAbort("unknown while concretising")
                v = m.eval(e, model_completion=True).as_long()
                self.ex.concr[key] = v
            if self.branch(e == v):
                self.concretised += 1
                return v
        self.ex.stats["concretise_limit"] += 1
        raise PathAbort("concretise-limit")

    # ---------------------------------------------------------------- inputs
    def fresh_name(self, base):
        n = self._names.get(base, 0)
        self._names[base] = n + 1
        return base if n == 0 else f"{base}#{n}"

    def fresh_int(self, base, lo=None, hi=None):
        self._fresh += 1
        v = z3.Int(f"_{base}_{self._fresh}")
        if lo is not None:
            self.define(v >= lo)
        if hi is not None:
            self.define(v <= hi)
        return v

    def _input(self, name, kind, var):
        self.inputs.append((name, kind, var))

    def int(self, name, lo, hi):
        from .values import SymInt
        name = self.fresh_name(name)
        if lo == hi:
            self._input(name, "const", lo)
            return lo
        v = z3.Int("in_" + name)
        self.define(z3.And(v >= lo, v <= hi))
        self._input(name, "int", v)
        return SymInt(v, lo, hi)

    def bool(self, name):
        from .values import SymBool
        name = self.fresh_name(name)
        v = z3.Bool("in_" + name)
        self._input(name, "bool", v)
        return SymBool(v)

    def choice(self, name, options):
        """Solver-chosen element of a finite list (forks)."""
        options = list(options)
        i = self.int(name, 0, len(options) - 1)
        if isinstance(i, int):
            return options[i]
        for k in range(len(options) - 1):
            if bool(i == k):
                return options[k]
        return options[-1]

    def flag(self, name):
        """Solver-chosen plain bool (forks immediately)."""
        return bool(self.bool(name))

    def dt(self, name, lo, hi, res=1, tz=None):
        """Arbitrary datetime in [lo, hi] with `res` microsecond granularity."""
        from .values import SymDatetime, dt_us, SymInt
        name = self.fresh_name(name)
        lo_us, hi_us = dt_us(lo), dt_us(hi)
        D = z3.Int("in_" + name + ".D")
        h = z3.Int("in_" + name + ".h")
        mi = z3.Int("in_" + name + ".mi")
        s = z3.Int("in_" + name + ".s")
        us = z3.Int("in_" + name + ".us")
        self.define(z3.And(D >= lo_us // 86400000000, D <= hi_us // 86400000000,
                           h >= 0, h < 24, mi >= 0, mi < 60, s >= 0, s < 60))
        if res >= 1000000:
            self.define(us == 0)
        else:
            self.define(z3.And(us >= 0, us < 1000000))
        if res >= 60000000:
            self.define(s == 0)
        T = D * 86400000000 + h * 3600000000 + mi * 60000000 + s * 1000000 + us
        self.define(z3.And(T >= lo_us, T <= hi_us))
        self._input(name, "dt", (T, tz))
        sd = SymDatetime(SymInt(T, lo_us, hi_us), tz)
        sd._c.update(D=SymInt(D, lo_us // 86400000000, hi_us // 86400000000),
                     hour=SymInt(h, 0, 23), minute=SymInt(mi, 0, 59),
                     second=SymInt(s, 0, 59), microsecond=SymInt(us, 0, 999999))
        return sd

    def td(self, name, lo_us, hi_us):
        from .values import SymTimedelta, SymInt
        name = self.fresh_name(name)
        v = z3.Int("in_" + name)
        self.define(z3.And(v >= lo_us, v <= hi_us))
        self._input(name, "td", v)
        return SymTimedelta(SymInt(v, lo_us, hi_us))

    def ts(self, name, lo_us, hi_us):
        """Arbitrary timestamp (float seconds) on the microsecond grid."""
        from .values import SymFrac
        name = self.fresh_name(name)
        v = z3.Int("in_" + name)
        self.define(z3.And(v >= lo_us, v <= hi_us))
        self._input(name, "ts", v)
        return SymFrac(v, 1000000)

    def stamp(self, name, lo, hi):
        """Timestamp of an arbitrary (naive UTC) datetime in [lo, hi]."""
        return self.dt(name, lo, hi).timestamp()

    def digits(self, name, n):
        """String of exactly n arbitrary decimal digits."""
        from .values import SymStr, SymChar
        name = self.fresh_name(name)
        cs = []
        for k in range(n):
            v = z3.Int(f"in_{name}[{k}]")
            self.define(z3.And(v >= 48, v <= 57))
            cs.append(SymChar(v, 48, 57))
        self._input(name, "digits", [c.e for c in cs])
        return SymStr(cs)

    # ---------------------------------------------------------------- spec
    def model_inputs(self, m):
        import datetime
        out = {}
        def iv(e):
            return m.eval(e, model_completion=True).as_long()
        for name, kind, v in self.inputs:
            if kind == "const":
                out[name] = ["int", v]
            elif kind == "int":
                out[name] = ["int", iv(v)]
            elif kind == "bool":
                out[name] = ["bool", z3.is_true(m.eval(v, model_completion=True))]
            elif kind == "dt":
                T, tz = v
                out[name] = ["dt", iv(T)]
            elif kind == "td":
                out[name] = ["td", iv(v)]
            elif kind == "ts":
                out[name] = ["ts", iv(v)]
            elif kind == "digits":
                out[name] = ["digits", "".join(chr(iv(e)) for e in v)]
        return out

    def check(self, cond, label, detail="", known=()):
        for fid, region in known:
            if fid in self.ex.known_ids:
                from .values import lor
                cond = lor(cond, region)
        self.n_checks += 1
        self.reached = True
        replaying = len(self.decisions) < len(self.prefix)
        e = as_z3bool(cond)
        self.ex.labels.setdefault(label, 0)
        if e is True:
            if not replaying:
                self.ex.stats["trivial_checks"] += 1
                self.ex.labels[label] += 1
            return True
        if replaying:
            # already decided on the run that created this prefix
            if e is False:
                return False
            self._add(e)
            return True
        if e is False:
            m = self._ensure_model()
            self.ex.stats["checks"] += 1
            if m is None:
                self.ex.stats["inconclusive"] += 1
            else:
                self.ex.violation(Violation(label, self.model_inputs(m), detail))
            return False
        self.ex.stats["checks"] += 1
        r = self._check(z3.Not(e))
        if r == z3.unsat:
            self.ex.stats["discharged"] += 1
            self.ex.labels[label] += 1
            return True
        if r == z3.unknown:
            self.ex.stats["inconclusive"] += 1
            return True
        m = self._last_model()
        self.ex.violation(Violation(label, self.model_inputs(m), detail))
        # continue with the values for which it holds, if any
        if self._check(e) == z3.unsat:
            raise PathAbort("violated")
        self._add(e)
        self.ex.stats["post_violation_paths"] += 1
        # the added constraint must be re-added on replays of this prefix: it
        # is, because check() is executed again
        return False

    def fail(self, label, detail=""):
        return self.check(False, label, detail)

    def reach(self, label):
        self.reached = True
        self.ex.labels.setdefault("reach:" + label, 0)
        self.ex.labels["reach:" + label] += 1

    def observe(self, name, value):
        self.observed.append((name, value))

    def note(self, s):
        self.notes.append(s)


def as_z3bool(c):
    from .values import SymBool
    if isinstance(c, SymBool):
        e = z3.simplify(c.e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return c.e
    if z3.is_expr(c):
        return c
    return bool(c)


class Hang(BaseException):
    """A path that does not end"""


def _hang(*_):
    raise Hang()


class Explorer:
    def __init__(self, harness, budget_s=60.0, max_paths=100000, max_depth=5000,
                 query_timeout_ms=10000, on_violation=None, sample_models=8,
                 stop_on_violation=3, seed=1, known_ids=(), path_s=None):
        self.path_s = path_s
        self.hung = False
        self.known_ids = set(known_ids)
        self.query_timeout_ms = query_timeout_ms
        self.harness = harness
        self.t_end = _time.monotonic() + budget_s
        self.max_paths = max_paths
        self.max_depth = max_depth
        self.solver = z3.Solver()
        self.solver.set("timeout", query_timeout_ms)
        self.stack = []
        self.stats = dict(solver_s=0.0, queries=0, unknown=0, forks=0, checks=0, discharged=0,
                          trivial_checks=0, inconclusive=0, paths=0, infeasible=0, aborted=0,
                          concretise_limit=0, post_violation_paths=0, engine_errors=0,
                          concretised=0, retried=0, exceptions=0)
        self.labels = {}
        self.last_exc = None
        self.violations = []
        self.samples = []
        self.sample_models = sample_models
        self.abort_reasons = {}
        self.concr = {}
        self.incomplete = False
        self.stop_on_violation = stop_on_violation
        self._vlabels = {}
        self._fork_push = True
        self.seed = seed

    def out_of_time(self):
        return _time.monotonic() > self.t_end

    def push(self, prefix):
        self.stack.append(prefix)

    def violation(self, v):
        n = self._vlabels.get(v.label, 0)
        self._vlabels[v.label] = n + 1
        if n < self.stop_on_violation:
            self.violations.append(v)

    def run(self):
        global CTX
        self.stack = [[]]
        while self.stack:
            if self.out_of_time() or self.stats["paths"] >= self.max_paths:
                self.incomplete = True
                break
            if self._vlabels and sum(self._vlabels.values()) > 40:
                self.incomplete = True
                break
            prefix = self.stack.pop()
            ctx = Ctx(self, prefix)
            CTX = ctx
            from . import shims
            shims.reset_run()
            ok = False
            try:
                if self.path_s:
                    signal.setitimer(signal.ITIMER_REAL, self.path_s, 5)
                self.harness(ctx)
                if ctx.abort is not None:
                    raise ctx.abort
                ok = True
            except Infeasible:
                self.stats["infeasible"] += 1
            except PathAbort as e:
                self.stats["aborted"] += 1
                self.abort_reasons[e.why] = self.abort_reasons.get(e.why, 0) + 1
                if e.why != "violated":
                    self.incomplete = True
            except Hang:
                # candidate violation, decided by the concrete replay
                self.incomplete = True
                self.hung = True
                try:
                    signal.setitimer(signal.ITIMER_REAL, 0)
                    m = ctx._ensure_model()
                    if m is not None:
                        self.violation(Violation("does not end", ctx.model_inputs(m), "no end of this path"))
                except BaseException:
                    pass
                break       # threads of the path may still be running
            except Exception as e:
                # neither specified by the harness nor a steering exception: candidate
                # violation, decided by the concrete replay
                import traceback
                self.stats["exceptions"] += 1
                self.last_exc = traceback.format_exc()[-2500:]
                try:
                    m = ctx._ensure_model()
                    if m is not None:
                        self.violation(Violation("exception", ctx.model_inputs(m), self.last_exc))
                except PathAbort:
                    pass
            finally:
                if self.path_s:
                    signal.setitimer(signal.ITIMER_REAL, 0)
                if ok:
                    self.stats["paths"] += 1
                    self.stats["concretised"] += ctx.concretised
                    self._sample(ctx)
                CTX = None
                ctx.teardown() if hasattr(ctx, "teardown") else None
        return self

    def _sample(self, ctx):
        if len(self.samples) >= self.sample_models:
            # keep a spread: first half, then reservoir of later paths
            k = self.stats["paths"]
            if k % max(1, k // self.sample_models) != 0:
                return
        try:
            m = ctx._ensure_model()
        except PathAbort:
            return
        if m is None:
            return
        obs = []
        from .values import concrete
        for n, v in ctx.observed:
            try:
                obs.append([n, jsonable(concrete(v, m))])
            except Exception as e:       # noqa
                obs.append([n, "?" + repr(e)[:80]])
        s = {"inputs": ctx.model_inputs(m), "observed": obs}
        if len(self.samples) < self.sample_models:
            self.samples.append(s)
        else:
            self.samples[(self.stats["paths"] * 7 + self.seed) % self.sample_models] = s


def jsonable(v):
    import datetime
    if isinstance(v, bool) or v is None or isinstance(v, (int, str)):
        return v
    if isinstance(v, float):
        return ["float", round(v, 6)]
    if isinstance(v, datetime.datetime):
        return ["dt", v.isoformat()]
    if isinstance(v, datetime.timedelta):
        return ["td", v // datetime.timedelta(microseconds=1)]
    if isinstance(v, (list, tuple)):
        return [jsonable(x) for x in v]
    if isinstance(v, (set, frozenset)):
        return sorted((jsonable(x) for x in v), key=repr)
    if isinstance(v, dict):
        return {str(k): jsonable(x) for k, x in v.items()}
    return "obj:" + type(v).__name__
