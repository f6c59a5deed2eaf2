"""C07: conditions combine with & | ~ as boolean logic, in Python and in strings."""
from checks.tasklib import *
from rocketry.parse import parse_condition
from rocketry.conditions import All, Any, Not, AlwaysTrue, AlwaysFalse

LEVEL = "model_checking"
BOUNDS = ("expressions of 1-4 terms (5 thorough) joined by & and | without parentheses, terms being a condition of any truth value, a negated or doubly negated one, or a "
          "parenthesised expression of 2-3 terms (nested once more in a case); blanks or none around operators; the truth of each condition at each observation is "
          "symbolic; built with operators, from the All/Any/Not classes or parsed; the same condition repeated; negated up to three times")
OUTSIDE = "longer expressions, deeper nesting, malformed strings"
ASSUMPTIONS = []
NAMES = ["is a", "b", "done 'x'", "d", "e", "f", "g", "h", "i", "j"]


class Gen:
    def __init__(self, ctx, env, blank, single=False, classes=False):
        self.ctx, self.env, self.n, self.blank, self.single = ctx, env, 0, blank, single
        self.classes = classes

    def leaf(self):
        i = self.n
        self.n += 1
        v = self.ctx.bool(f"v{i}")
        c = Flag(v)
        name = NAMES[i]
        self.env.session._cond_parsers[name] = c
        return name, c, v

    def expr(self, tag, nterms, depth, negs):
        """-> (text, condition by operators, expected truth)"""
        ctx = self.ctx
        groups, text, conds = [[]], "", [[]]
        where = ctx.choice(f"{tag}where", range(nterms)) if self.single and depth else None
        for k in range(nterms):
            if k:
                op = ctx.choice(f"{tag}op{k}", ["&", "|"])
                sp = self.blank
                text += sp + op + sp
                if op == "|":
                    groups.append([])
                    conds.append([])
            if depth and (where == k if self.single else ctx.flag(f"{tag}p{k}")):
                t, c, v = self.expr(f"{tag}{k}_", 2, depth - 1, negs)
                t = f"({t})"
            else:
                t, c, v = self.leaf()
            for _ in range(ctx.choice(f"{tag}neg{k}", negs)):
                t, c, v = "~" + t, Not(c) if self.classes else ~c, lnot(v)
            text += t
            groups[-1].append(v)
            conds[-1].append(c)
        want = lor(*[land(*g) for g in groups])
        alls = []
        for g in conds:
            c = g[0]
            if self.classes:
                c = All(*g)
            else:
                for x in g[1:]:
                    c = c & x
            alls.append(c)
        if self.classes:
            return text, Any(*alls), want
        cond = alls[0]
        for x in alls[1:]:
            cond = cond | x
        return text, cond, want


def harness(nterms, depth, negs, how, blank=" ", single=False):
    def run(ctx):
        env = Env(ctx)
        g = Gen(ctx, env, blank, single, how == "class")
        text, cond, want = g.expr("", nterms, depth, negs)
        if how == "string":
            cond = parse_condition(text, session=env.session)
        elif how == "task":
            cond = env.task("t", start_cond=text).start_cond
        got = cond.observe(session=env.session)
        ctx.observe("got", got)
        ctx.check(iff(got, want), "an expression has the truth of its boolean logic")
        ctx.check(iff((~cond).observe(session=env.session), lnot(want)), "a negated expression is its opposite")
        if nterms > 2 or depth and how != "class":
            return
        for neg in (lambda x: ~x, Not):
            for neg2 in (lambda x: ~x, Not):
                no = neg(cond)
                ctx.check(iff(no.observe(session=env.session), lnot(want)), "a negated expression is its opposite")
                yes = neg2(no)
                ctx.check(iff(yes.observe(session=env.session), want), "a twice negated expression is itself")
                ctx.check(iff((~yes).observe(session=env.session), lnot(want)), "a thrice negated expression is its opposite")
        ctx.check(iff(bool(cond), want), "the truth of a condition as a bool")
    return run


def repeats(ctx):
    """The same condition several times in an expression"""
    env = Env(ctx)
    a, b = ctx.bool("a"), ctx.bool("b")
    fa, fb = Flag(a), Flag(b)
    terms, vals = [], []
    for i in range(3):
        c, v = (fa, a) if ctx.flag(f"t{i}") else (fb, b)
        if ctx.flag(f"n{i}"):
            c, v = ~c, lnot(v)
        terms.append(c)
        vals.append(v)
    if ctx.flag("and1"):
        c, v = terms[0] & terms[1], land(vals[0], vals[1])
    else:
        c, v = terms[0] | terms[1], lor(vals[0], vals[1])
    if ctx.flag("neg"):
        c, v = ~c, lnot(v)
    if ctx.flag("and2"):
        c, v = c & terms[2], land(v, vals[2])
    else:
        c, v = terms[2] | c, lor(v, vals[2])
    ctx.check(iff(c.observe(session=env.session), v), "an expression with repeated conditions")
    d, w = c & c, v
    ctx.check(iff(d.observe(session=env.session), w), "a condition combined with itself")


def sharing(n):
    return lambda ctx: _sharing(ctx, n)


def _sharing(ctx, n):
    """Combining conditions does not alter the conditions combined"""
    env = Env(ctx)
    vs = [ctx.bool(f"v{i}") for i in range(4)]
    a, b, c, d = [Flag(v) for v in vs]
    x = a & b if ctx.flag("and") else a | b
    y = c | d if ctx.flag("or") else c & d
    before = x.observe()
    yb = y.observe()
    made = []
    for i in range(n):
        k = ctx.choice(f"k{i}", ["and", "or", "rand", "ror", "not", "All", "Any"])
        other = y if ctx.flag(f"w{i}") else c
        made.append({"and": lambda: x & other, "or": lambda: x | other, "rand": lambda: other & x, "ror": lambda: other | x,
                     "not": lambda: ~x, "All": lambda: All(x, other), "Any": lambda: Any(x, other)}[k]())
    for m in made:
        m.observe()
    ctx.check(iff(x.observe(), before), "the combined condition still means the same")
    ctx.check(iff(y.observe(), yb), "the other combined condition still means the same")


def many(ctx):
    """All and Any of several conditions, observed repeatedly while their truth changes"""
    env = Env(ctx)
    n = ctx.choice("n", [1, 2, 3])
    cs = [Flag(None) for _ in range(n)]
    kind = ctx.choice("kind", ["all", "any"])
    cond = All(*cs) if kind == "all" else Any(*cs)
    for r in range(2):
        vs = [ctx.bool(f"v{r}_{i}") for i in range(n)]
        for c, v in zip(cs, vs):
            c.value = v
        got = cond.observe(session=env.session)
        ctx.check(iff(got, land(*vs) if kind == "all" else lor(*vs)), "the truth follows the members at each observation")
    ctx.check(land(bool(AlwaysTrue()), lnot(bool(AlwaysFalse())), (~AlwaysFalse()).observe(), lnot((~AlwaysTrue()).observe())), "constants")


def cases(tier):
    b = 60 if tier == "quick" else 600
    yield Case("repeated conditions", repeats, budget=b)
    for how in ("string", "python", "task", "class"):
        for n in (1, 2, 3, 4):
            yield Case(f"{how} {n} terms", harness(n, 0, [0, 1], how), budget=b)
        yield Case(f"{how} 3 terms no blanks", harness(3, 0, [0, 1], how, blank=""), budget=b)
        if how == "task" and tier == "quick":
            continue
        if how == "class":
            yield Case("class 1 term negations", harness(1, 0, [0, 1, 2, 3], how), budget=b)
            yield Case("class 2 terms nested", harness(2, 1, [0, 1] if tier == "quick" else [0, 1, 2], how), budget=b)
            continue
        yield Case(f"{how} 2 terms nested", harness(2, 1, [0, 1], how), budget=b)
        yield Case(f"{how} 3 terms nested no negation", harness(3, 1, [0], how), budget=b)
        yield Case(f"{how} 2 terms nested twice", harness(2, 2, [0] if tier == "quick" else [0, 1], how, single=True), budget=b)
        yield Case(f"{how} double negation", harness(2, 1, [0, 2], how, blank=""), budget=b)
        if tier != "quick":
            yield Case(f"{how} 5 terms", harness(5, 0, [0, 1], how), budget=b)
            yield Case(f"{how} 3 terms nested", harness(3, 1, [0, 1], how), budget=b)
    yield Case("conditions are not altered", sharing(1 if tier == "quick" else 2), budget=b)
    yield Case("members change", many, budget=b)
