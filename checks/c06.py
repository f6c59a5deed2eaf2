"""C06: durations given as strings or numbers are the sum of their parts."""
import datetime
from symx.api import *
from checks.timelib import num, us, S, M, H, D
from rocketry.pybox.time import to_timedelta
from rocketry.time import TimeDelta, TimeSpanDelta
from rocketry.tasks import FuncTask
from checks.tasklib import Env

LEVEL = "model_checking"
BOUNDS = ("1-3 parts, each any number of 1-3 digits (4 thorough) with 0-3 decimals and any supported unit name; parts apart by blanks, comma or nothing; leading signs; a "
          "clock part hh:mm:ss with 0-6 decimals; numbers of any unit, up to 9999, whole or in eighths")
OUTSIDE = "finer decimals than the microsecond grid, unknown units, more parts"
ASSUMPTIONS = ["floats of at most 3 decimals times whole units are exact on the microsecond grid (rounding by timedelta included)"]
UNITS = {"ms": 1000, "millisecond": 1000, "s": S, "sec": S, "secs": S, "second": S, "seconds": S, "m": M, "min": M, "mins": M, "minute": M,
         "minutes": M, "h": H, "hr": H, "hrs": H, "hour": H, "hours": H, "d": D, "day": D, "days": D}
SEPS = [" ", "", "  ", ", ", ","]


def part(ctx, i, units, k, dec):
    unit = ctx.choice(f"u{i}", units)
    d = ctx.digits(f"n{i}", k)
    sp = ctx.choice(f"sp{i}", [" ", "", "  "])
    if dec:
        f = ctx.digits(f"f{i}", dec)
        return d + "." + f + sp + unit, num(d) * UNITS[unit] + num(f) * (UNITS[unit] // 10 ** dec)
    return d + sp + unit, num(d) * UNITS[unit]


def harness(n, units, k, dec, sign=False, clock=False, cdec=0, cw=2):
    def run(ctx):
        text, total = "", 0
        neg = False
        if sign:
            lead = ctx.choice("sign", ["-", "+", "--", "-+"])
            text += lead
            neg = lead.count("-") % 2 == 1
        for i in range(n):
            s, v = part(ctx, i, units, k, dec)
            if i:
                text = text + ctx.choice(f"sep{i}", SEPS)
            text = text + s
            total = total + v
        if clock:
            hh, mm, ss = ctx.digits("hh", cw), ctx.digits("mm", cw), ctx.digits("ss", cw)
            if n:
                text = text + " "
            text = text + hh + ":" + mm + ":" + ss
            total = total + num(hh) * H + num(mm) * M + num(ss) * S
            if cdec:
                f = ctx.digits("cf", cdec)
                text = text + "." + f
                total = total + num(f) * (S // 10 ** cdec)
        got = us(to_timedelta(text))
        ctx.observe("got", got)
        ctx.check(got == (-total if neg else total), "a duration is the sum of its parts")
    return run


def number(ctx):
    unit = ctx.choice("unit", ["\u03bcs", "ms", "s", "m", "h", "microsecond", "millisecond", "second", "minute", "hour"])
    size = {"\u03bcs": 1, "ms": 1000, "s": S, "m": M, "h": H, "microsecond": 1, "millisecond": 1000, "second": S, "minute": M, "hour": H}[unit]
    n = ctx.int("n", -9999, 9999)
    ctx.check(us(to_timedelta(n, unit=unit)) == n * size, "a number is counted in its unit")
    ctx.check(us(to_timedelta(n)) == n, "a number without unit is in microseconds")
    if size >= 1000:
        ctx.check(us(to_timedelta(n / 8, unit=unit)) == n * (size // 8), "a number with decimals is counted in its unit")


def consumers(ctx):
    """what is set with a duration has that duration: timeout of a task or of all, window of a condition"""
    env = Env(ctx)
    k = ctx.choice("k", [1, 3])
    d = ctx.digits("d", k)
    u = ctx.choice("u", ["s", "minutes", "hours", "days"])
    text, want = d + " " + u, num(d) * UNITS[u]
    plain, size = ctx.choice("plain", [("90 s", 90 * S), ("2 hours, 5 min", 125 * M), (7, 7 * S), (0.5, S // 2),
                                       (datetime.timedelta(minutes=3), 3 * M), ("never", us(datetime.timedelta.max))])
    t = env.task("t", timeout=plain)
    ctx.check(us(t.timeout) == size, "timeout given as a string, a number of seconds or a timedelta")
    t.timeout = None
    t.timeout = plain
    ctx.check(us(t.timeout) == size, "timeout set later")
    if plain != "never":
        env.session.config.timeout = plain
        ctx.check(us(Env(ctx, timeout=plain).session.config.timeout) == size, "common timeout")
    p = TimeDelta(text)
    ref = datetime.datetime(2024, 3, 1)
    iv = p.rollback(ref)
    ctx.check(land(us(iv.right - ref) == 0, us(ref - iv.left) == want), "window of the past duration")
    near, far = d + " seconds", d + " minutes"
    iv = TimeSpanDelta(near, far).rollback(ref)
    ctx.check(land(us(ref - iv.right) == num(d) * S, us(ref - iv.left) == num(d) * M), "window between two durations")


def cases(tier):
    b = 60 if tier == "quick" else 400
    ks = (1, 3) if tier == "quick" else (1, 2, 3, 4)
    units = list(UNITS)
    for k in ks:
        yield Case(f"one part {k} digits", harness(1, units, k, 0), budget=b)
        for dec in (1, 3):
            yield Case(f"one part {k} digits {dec} decimals", harness(1, units, k, dec), budget=b)
    yield Case("one part signed", harness(1, ["s", "min", "hours", "days"], 2, 0, sign=True), budget=b)
    for a, c in (("days", "h"), ("hours", "min"), ("m", "s"), ("s", "ms"), ("min", "hrs"), ("secs", "d")):
        yield Case(f"two parts {a} {c}", harness(2, [a, c], 2, 0), budget=b)
        yield Case(f"two parts {a} {c} decimals signed", harness(2, [a, c], 1, 1, sign=True), budget=b)
    yield Case("three parts", harness(3, ["days", "h"], 1, 0), budget=b)
    yield Case("clock", harness(0, units, 0, 0, clock=True), budget=b)
    yield Case("days and clock", harness(1, ["days", "d"], 2, 0, clock=True), budget=b)
    yield Case("clock of single digits", harness(0, units, 0, 0, clock=True, cw=1), budget=b)
    for cdec in (1, 3, 6):
        yield Case(f"clock with {cdec} decimals", harness(0, units, 0, 0, clock=True, cdec=cdec), budget=b)
    yield Case("days and clock with decimals", harness(1, ["days", "d"], 1, 0, clock=True, cdec=3, sign=True), budget=b)
    yield Case("signed clock", harness(0, units, 0, 0, clock=True, sign=True), budget=b)
    yield Case("numbers", number, budget=b)
    yield Case("timeouts and windows", consumers, budget=b)
