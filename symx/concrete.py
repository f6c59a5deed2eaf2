"""Concrete counterpart of engine.Ctx: runs a harness on plain values against the
unmodified package (used to replay counterexamples and to validate path models)."""
import datetime as _dt
from .values import us_dt, dt_us


class Skip(BaseException):
    pass


class ConcreteCtx:
    symbolic = False

    def __init__(self, inputs, known_ids=()):
        self.inputs = {k: v for k, v in inputs.items()}
        self.failures = []
        self.observed = []
        self.known_ids = set(known_ids)
        self._names = {}
        self.used = {}

    def fresh_name(self, base):
        n = self._names.get(base, 0)
        self._names[base] = n + 1
        return base if n == 0 else f"{base}#{n}"

    def _get(self, name, default):
        name = self.fresh_name(name)
        v = self.inputs.get(name)
        v = default if v is None else v[1]
        self.used[name] = v
        return v

    def int(self, name, lo, hi):
        return self._get(name, lo)

    def bool(self, name):
        return bool(self._get(name, False))

    flag = bool

    def choice(self, name, options):
        options = list(options)
        return options[self._get(name, 0)]

    def dt(self, name, lo, hi, res=1, tz=None):
        d = us_dt(self._get(name, dt_us(lo)))
        return d.replace(tzinfo=tz) if tz is not None else d

    def td(self, name, lo_us, hi_us):
        return _dt.timedelta(microseconds=self._get(name, lo_us))

    def ts(self, name, lo_us, hi_us):
        return self._get(name, lo_us) / 1000000

    def stamp(self, name, lo, hi):
        return self._get(name, dt_us(lo)) / 1000000

    def digits(self, name, n):
        return self._get(name, "0" * n)

    def assume(self, c):
        if not c:
            raise Skip("assumption not met")

    def check(self, cond, label, detail="", known=()):
        for fid, region in known:
            if fid in self.known_ids and region:
                return True
        if not cond:
            self.failures.append([label, str(detail)[:500]])
            return False
        return True

    def fail(self, label, detail=""):
        return self.check(False, label, detail)

    def reach(self, label):
        pass

    def observe(self, name, value):
        self.observed.append((name, value))

    def note(self, s):
        pass
