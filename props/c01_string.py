"""C01: string patterns."""
from symx.api import harness

PLAIN = "ab "
CASED = "aAb"
TURKISH = "iI\u0130"  # the only character whose lower case is longer than itself


def fold(c):
    return c.replace("\u0130", "i").lower()


def char_eq(ctx, a, b, ignore_case, alphabet):
    if not ignore_case:
        return a == b
    return ctx.Or([ctx.And(a == x, b == y) for x in alphabet for y in alphabet if fold(x) == fold(y)])


def occurs(ctx, text, sub, k, ignore_case, alphabet):
    return ctx.And([char_eq(ctx, text[k + j], sub[j], ignore_case, alphabet) for j in range(len(sub))])


def check_scan(ctx, got, text, sub, ignore_case, alphabet):
    """got = spans reported; the declarative reading of a left-to-right scan."""
    n, m = len(text), len(sub)
    occ = [occurs(ctx, text, sub, k, ignore_case, alphabet) for k in range(n - m + 1)]
    prev = 0
    for s, e in got:
        ctx.check(ctx.And(s >= prev, e == s + m, s + m <= n), "span has the pattern's length, inside the text, after the previous one")
        ctx.check(ctx.And([ctx.Implies(s == k, occ[k]) for k in range(len(occ))]), "text under the span equals the pattern")
        ctx.check(ctx.And([ctx.Not(ctx.And(occ[k], k >= prev, k < s)) for k in range(len(occ))]), "no earlier occurrence skipped")
        prev = e
    ctx.check(ctx.And([ctx.Not(ctx.And(occ[k], k >= prev)) for k in range(len(occ))]), "no later occurrence missed")


@harness("C01", "single", quick=dict(n=7, m=3), thorough=dict(n=11, m=4), cover=["two occurrences", "overlapping candidates"],
         about="one string, case-sensitive; text up to n and pattern up to m characters over {a,b}")
def single(ctx, p):
    from rebulk.pattern import StringPattern

    text = ctx.string("text", PLAIN, 0, p.n)
    sub = ctx.string("sub", PLAIN, 1, p.m)
    ms = StringPattern(sub).matches(text)
    ctx.observe("spans", [m.span for m in ms])
    check_scan(ctx, [m.span for m in ms], text, sub, False, PLAIN)
    for m in ms:
        ctx.check(m.value == sub, "value is the matched text")
    if len(text) >= 2 * len(sub):
        ctx.cover("two occurrences", ctx.And(occurs(ctx, text, sub, 0, False, PLAIN), occurs(ctx, text, sub, len(sub), False, PLAIN)))
    if len(sub) == 2 and len(text) >= 3:
        ctx.cover("overlapping candidates", ctx.And(occurs(ctx, text, sub, 0, False, PLAIN), occurs(ctx, text, sub, 1, False, PLAIN)))


@harness("C01", "characters", quick=dict(n=5, m=3), thorough=dict(n=8, m=3), cover=["line break at the end", "metacharacters"],
         about="one string, case-sensitive; text up to n and pattern up to m characters, each any of U+0000 to U+00FF")
def characters(ctx, p):
    from rebulk.pattern import StringPattern

    latin = "".join(map(chr, range(256)))
    text = ctx.string("text", latin, 0, p.n)
    sub = ctx.string("sub", latin, 1, p.m)
    pat = StringPattern(sub)
    ms = pat.matches(text)
    ctx.observe("spans", [m.span for m in ms])
    check_scan(ctx, [m.span for m in ms], text, sub, False, latin)
    for m in ms:
        ctx.check(m.value == sub and m.raw == sub, "value is the matched text")
    if len(sub) == 2 and len(text) >= 3:
        ctx.cover("line break at the end", ctx.And(sub[1] == "\n", occurs(ctx, text, sub, 1, False, latin)))
        ctx.cover("metacharacters", ctx.And(sub[0] == ".", sub[1] == "*", text[0] == "a", text[1] == ".", text[2] == "*"))


@harness("C01", "ignore_case", quick=dict(n=5, m=2), thorough=dict(n=6, m=3), cover=["case differs"],
         about="ignore_case, letters of both cases")
def ignore_case(ctx, p):
    from rebulk.pattern import StringPattern

    text = ctx.string("text", CASED, 0, p.n)
    sub = ctx.string("sub", CASED, 1, p.m)
    ms = StringPattern(sub, ignore_case=True).matches(text)
    ctx.observe("spans", [m.span for m in ms])
    check_scan(ctx, [m.span for m in ms], text, sub, True, CASED)
    if len(text) == len(sub):
        ctx.cover("case differs", ctx.And(occurs(ctx, text, sub, 0, True, CASED), ctx.Not(text == sub)))


@harness("C01", "ignore_case_length", quick=dict(n=4, m=2), thorough=dict(n=5, m=2), cover=["long lower case before an occurrence"],
         about="ignore_case with characters whose lower case, case folding or upper case is longer")
def ignore_case_length(ctx, p):
    from rebulk.pattern import StringPattern

    alpha = ctx.choice("alphabet", ["a\u0130", "s\u00dfS", "f\ufb01F"])
    text = ctx.string("text", alpha, 0, p.n)
    sub = ctx.string("sub", alpha, 1, p.m)
    ms = StringPattern(sub, ignore_case=True).matches(text)
    ctx.observe("spans", [m.span for m in ms])
    check_scan(ctx, [m.span for m in ms], text, sub, True, alpha)
    if len(text) > 1 and len(sub) == 1:
        ctx.cover("long lower case before an occurrence", ctx.And(text[0] == "\u0130", text[1] == sub) if "\u0130" in alpha else False)


@harness("C01", "several", quick=dict(n=5), thorough=dict(n=7), cover=["both occur"],
         about="two strings in one pattern; the result is that of each string in turn")
def several(ctx, p):
    from rebulk.pattern import StringPattern

    text = ctx.string("text", PLAIN, 0, p.n)
    a = ctx.string("a", PLAIN, 1, 2)
    b = ctx.string("b", PLAIN, 1, 2)
    pat = StringPattern(a, b)
    got = [m.span for m in pat.matches(text)]
    na = len(StringPattern(a).matches(text))
    ctx.check(len(got) >= na, "all occurrences of the first string")
    check_scan(ctx, got[:na], text, a, False, PLAIN)
    check_scan(ctx, got[na:], text, b, False, PLAIN)
    for m in pat.matches(text):
        ctx.check(m.pattern is pat and m.input_string is text, "match refers to its pattern and text")
    ctx.cover("both occur", ctx.And(a != b, na > 0, len(got) > na))


@harness("C01", "empty", quick=dict(n=3), cover=["non-empty text"], about="empty pattern string: terminates and reports nothing")
def empty(ctx, p):
    from rebulk.pattern import StringPattern

    text = ctx.string("text", PLAIN, 0, p.n)
    ic = ctx.flag("ignore_case")
    got = StringPattern("", ignore_case=ic).matches(text)
    ctx.check(len(got) == 0, "nothing reported")
    ctx.cover("non-empty text", len(text) > 0)
