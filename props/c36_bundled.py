"""C36: bundled validators and formatters."""
from symx.api import harness


def setup(ctx, p):
    from rebulk.match import Match

    text = ctx.string("text", "aA- \n", 0, p.n)
    n = len(text)
    s, e = ctx.int("s", 0, p.n), ctx.int("e", 0, p.n)
    ctx.assume(ctx.And(s < e, e <= n))
    form = ctx.choice("form", ["str", "list", "tuple", "dict", "container"])
    given = ctx.string("chars", "aA- \n", 0, 2)
    size = given.__len__().__index__() if not isinstance(given, str) else len(given)
    each = [given[i] for i in range(size)]

    class Only:
        def __contains__(self, c):
            return any(c == x for x in each)

    if form == "str":
        chars = given
    elif form == "dict":
        each = [x for x in "a\n" if ctx.flag("has " + x)]
        chars = dict.fromkeys(each)
    else:
        chars = each if form == "list" else tuple(each) if form == "tuple" else Only()
    m = Match(s, e, input_string=text)
    if ctx.flag("raw"):  # the raw span does not count, the ends of the match do
        m.raw_start, m.raw_end = e, s
    if ctx.flag("child"):
        m.parent = Match(0, n, input_string=text)

    def among(i):
        return ctx.Or([text[i] == x for x in each] or [False])

    def ok(side):
        if side == "before":
            return True if s <= 0 else among(s - 1)
        return True if e >= n else among(e)

    return m, chars, ok, (s, e, n)


@harness("C36", "chars", quick=dict(n=4), thorough=dict(n=6), cover=["start", "end", "inside", "accepted", "refused"],
         about="chars_before, chars_after and chars_surround: any text, span and characters, in any container")
def chars(ctx, p):
    from functools import partial

    from rebulk import validators as v

    m, cs, ok, (s, e, n) = setup(ctx, p)
    which = ctx.choice("which", ["before", "after", "surround"])
    fn = {"before": v.chars_before, "after": v.chars_after, "surround": v.chars_surround}[which]
    got = bool(partial(fn, cs)(m)) if ctx.flag("partial") else bool(fn(cs, m))
    want = ctx.And(ok("before"), ok("after")) if which == "surround" else ok(which)
    ctx.check(ctx.Iff(got, want), which)
    ctx.check(ctx.And(m.start == s, m.end == e), "the match is left alone")
    ctx.cover("start", s == 0)
    ctx.cover("end", e == n)
    ctx.cover("inside", ctx.And(s > 0, e < n))
    ctx.cover("accepted" if got else "refused")


@harness("C36", "pattern", quick=dict(n=4), thorough=dict(n=5), cover=["accepted", "refused"], about="the same as validator of a functional pattern, composed or alone")
def pattern(ctx, p):
    from functools import partial

    from rebulk import validators as v
    from rebulk.rebulk import Rebulk

    text = ctx.string("text", "aA-", 1, p.n)
    n = len(text)
    s, e = ctx.int("s", 0, p.n), ctx.int("e", 0, p.n)
    ctx.assume(ctx.And(s < e, e <= n))
    which = ctx.choice("which", ["before", "after", "surround", "composed"])
    dash = ctx.wrap("-")
    fn = {"before": partial(v.chars_before, dash), "after": partial(v.chars_after, dash), "surround": partial(v.chars_surround, dash),
          "composed": v.validators(partial(v.chars_before, dash), partial(v.chars_after, dash))}[which]
    res = Rebulk().functional(lambda _t: (s, e), validator=fn).matches(text)
    left, right = ctx.Or(s == 0, text[s - 1] == "-") if s > 0 else True, (text[e] == "-") if e < n else True
    want = {"before": left, "after": right}.get(which, ctx.And(left, right))
    ctx.check(ctx.Iff(len(res) == 1, want), "the match is kept exactly when accepted")
    ctx.cover("accepted" if len(res) else "refused")


@harness("C36", "composed", quick=dict(n=3), thorough=dict(n=5), cover=["all", "none", "empty"], about="validators(...): every combination of verdicts, of any type, asked any number of times")
def composed(ctx, p):
    from rebulk.match import Match
    from rebulk.validators import validators

    n = ctx.pick("members", 0, p.n)
    ms = [Match(k, k + 1) for k in range(2)]
    verdict = {(k, j): ctx.choice(f"verdict{k}{j}", [True, False] if k else [True, False, 1, 0, None, "x"]) for k in range(n) for j in range(2)}
    seen = []

    def member(k):
        def v(match):
            seen.append((k, match))
            return verdict[k, 0 if match is ms[0] else 1]

        return v

    fn = validators(*[member(k) for k in range(n)])
    for j in (0, 1, 0):
        seen.clear()
        got = fn(ms[j])
        ctx.check(bool(got) == all(verdict[k, j] for k in range(n)), "accepts exactly when all do", (j, verdict))
        ctx.check(all(m is ms[j] for _, m in seen), "members get the match")
        asked = next((k + 1 for k in range(n) if not verdict[k, j]), n)
        ctx.check([k for k, _ in seen] == list(range(asked)), "members asked in order, up to the first that refuses", seen)
    ctx.cover("empty", n == 0)
    ctx.cover("all", n == p.n and all(verdict.values()))
    ctx.cover("none", n == p.n and not any(verdict.values()))


@harness("C36", "formatters", quick=dict(n=3), thorough=dict(n=4), cover=["three", "empty", "in pattern"], about="formatters(...): members applied left to right to any value, alone and in a pattern")
def formatters_(ctx, p):
    from rebulk.formatters import formatters
    from rebulk.rebulk import Rebulk

    n = ctx.pick("members", 0, p.n)
    mul = [ctx.int(f"mul{k}", -2, 2) for k in range(n)]
    add = [ctx.int(f"add{k}", -2, 2) for k in range(n)]
    fn = formatters(*[lambda v, k=k: v * mul[k] + add[k] for k in range(n)])
    for j in range(2):
        x = ctx.int(f"x{j}", -3, 3)
        want = x
        for k in range(n):
            want = want * mul[k] + add[k]
        ctx.check(fn(x) == want, "left to right")
    labels = [ctx.choice(f"label{k}", ["u", "v"]) for k in range(n)]
    text = formatters(*[lambda v, k=k: v + labels[k] for k in range(n)])
    ctx.check(text("s") == "s" + "".join(labels), "text")
    if ctx.flag("pattern"):
        res = Rebulk().string("b", formatter=text).matches("abc")
        ctx.check(res[0].value == "b" + "".join(labels), "value of a match")
        ctx.cover("in pattern")
    ctx.cover("empty", n == 0)
    ctx.cover("three", n == 3)
