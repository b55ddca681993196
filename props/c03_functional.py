"""C03: functional patterns."""
from props._common import TEXT
from symx.api import harness

SHAPES = ["pair", "value", "opts", "value+opts", "dict", "list-pair"]


def element(ctx, tag, shape, hi):
    """(what the function returns, expected (start, end, value, name, tags))."""
    s, e = ctx.int(f"{tag}.s", 0, hi), ctx.int(f"{tag}.e", 0, hi)
    ctx.assume(s <= e)
    value, name, tags = None, "p", ["t"]
    opts = {}
    if shape in ("opts", "value+opts", "dict"):
        # an option returned as empty still wins over the pattern's
        opts.update(ctx.choice(f"{tag}.options", [{}, {"name": "own"}, {"name": "own", "tags": ["u", "w"]}, {"name": None, "tags": []},
                                                  {"name": "", "tags": ["u"], "private": True}]))
    name, tags = opts.get("name", name), opts.get("tags", tags)
    private = "private" in opts
    if shape in ("value", "value+opts") or (shape == "dict" and ctx.flag(f"{tag}.own_value")):
        value = "v" + tag
    if opts and tag == "e0" and ctx.flag("subclass"):
        opts = type("Options", (dict,), {})(opts)
    if shape == "pair":
        ret = (s, e)
    elif shape == "list-pair":
        ret = [s, e]
    elif shape == "value":
        ret = (s, e, value)
    elif shape == "opts":
        ret = (s, e, opts)
    elif shape == "value+opts":
        ret = (s, e, value, opts)
    else:
        ret = dict(opts, start=s, end=e)
        if value:
            ret["value"] = value
        if ctx.flag(f"{tag}.foreign_keys"):
            ret["input_string"] = "other text"
            ret["pattern"] = None
    return ret, (s, e, value, name, tags, private)


@harness("C03", "shapes", quick=dict(n=2, hi=9), thorough=dict(n=3, hi=9), cover=["start 0", "empty span", "generator"],
         about="every supported return shape, arbitrary spans")
def shapes(ctx, p):
    from rebulk.pattern import FunctionalPattern

    text = ctx.wrap(TEXT)
    wrap = ctx.choice("wrap", ["bare", "list", "tuple", "generator", "none", "empty"])
    elts, want = [], []
    n = {"bare": 1, "none": 0, "empty": 0}.get(wrap)
    if n is None:
        n = ctx.pick("n", 1, p.n)
    for k in range(n):
        r, w = element(ctx, f"e{k}", ctx.choice(f"e{k}.shape", SHAPES), p.hi)
        elts.append(r)
        want.append(w)
    calls = []

    def fn(string):
        calls.append(string)
        if wrap == "bare":
            return elts[0]
        if wrap == "list":
            return list(elts)
        if wrap == "tuple":
            return tuple(elts)
        if wrap == "generator":
            return (x for x in elts)
        return None if wrap == "none" else []

    pat = FunctionalPattern(fn, name="p", tags=["t"])
    got = pat.matches(text)
    want = [w for w in want if w[0] < w[1]]
    ctx.observe("got", [(m.start, m.end, m.name, m.tags) for m in got])
    ctx.check(len(got) == len(want), "one match per non-empty element", (len(got), len(want)))
    for m, (s, e, value, name, tags, private) in zip(got, want):
        ctx.check(ctx.And(m.start == s, m.end == e), "span as returned")
        ctx.check(bool(m.private) == private, "private: returned option, else the pattern's")
        ctx.check(m.name == name, "name: returned option, else the pattern's")
        ctx.check(list(m.tags) == tags, "tags: returned option, else the pattern's")
        ctx.check(m.input_string is text and m.pattern is pat, "text and pattern of the match")
        if value is None:
            ctx.check(m.value == text[s:e], "value is the text under the span")
        else:
            ctx.check(m.value == value, "value as returned")
    ctx.check(len(calls) == 1 and calls[0] is text, "the function is called once with the text")
    if elts and not isinstance(elts[0], dict):
        ctx.cover("start 0", elts[0][0] == 0)
        ctx.cover("empty span", elts[0][0] == elts[0][1])
    ctx.cover("generator", wrap == "generator")


@harness("C03", "several_functions", quick=dict(hi=9), cover=["both"], about="several functions in one pattern, called with text and context")
def several(ctx, p):
    from rebulk.pattern import FunctionalPattern

    s1, e1 = ctx.int("s1", 0, p.hi), ctx.int("e1", 0, p.hi)
    s2, e2 = ctx.int("s2", 0, p.hi), ctx.int("e2", 0, p.hi)
    ctx.assume(ctx.And(s1 <= e1, s2 <= e2))
    context = {"k": 1}
    seen = []

    def f1(string, context):
        seen.append((string, context))
        return s1, e1

    def f2(string):
        return {"start": s2, "end": e2}

    got = FunctionalPattern(f1, f2).matches(TEXT, context)
    want = [x for x in ((s1, e1), (s2, e2)) if x[0] < x[1]]
    ctx.check(ctx.eq([m.span for m in got], want), "matches of each function in order")
    ctx.check(len(seen) == 1 and seen[0][0] is TEXT and seen[0][1] is context, "text and context are passed")
    ctx.cover("both", len(want) == 2)


@harness("C03", "own formatter", quick=dict(), cover=["own", "of the pattern", "literal"],
         about="a formatter among the returned options formats the match, unless the pattern has a value or a formatter of its own")
def own_formatter(ctx, p):
    from rebulk.pattern import FunctionalPattern

    text = ctx.string("text", "ab", 4, 4)
    s, e = ctx.int("s", 0, 4), ctx.int("e", 0, 4)
    ctx.assume(s < e)
    shape = ctx.choice("shape", ["pair", "dict", "list"])
    value = ctx.choice("value", [None, "V"])
    opts = {"formatter": lambda raw: ("own", raw)}
    kw = {}
    conf = ctx.choice("configured", ["nothing", "formatter", "formatter by name", "formatter of another name", "value"])
    if conf.startswith("formatter"):
        f = lambda raw: ("pattern", raw)
        kw["formatter"] = f if conf == "formatter" else {"n" if conf.endswith("by name") else "other": f}
    elif conf == "value":
        kw["value"] = "P"
    mode = ctx.choice("mode", ["plain", "every", "format_all"])
    if mode != "plain":
        kw[mode] = True
    if shape == "dict":
        ret = dict(opts, start=s, end=e, **({"value": value} if value else {}))
    else:
        ret = (s, e, value, opts) if value else (s, e, opts)
        ret = [ret] if shape == "list" else ret
    got = FunctionalPattern(lambda string: ret, name="n", **kw).matches(text)
    ctx.check(len(got) == 1 and ctx.And(got[0].start == s, got[0].end == e), "emitted")
    v = got[0].value
    if conf == "value":
        ctx.check(v == "P", "value configured on the pattern", v)
    elif value:
        ctx.check(v == "V", "returned value", v)
        ctx.cover("literal")
    else:
        who = "pattern" if conf in ("formatter", "formatter by name") else "own"
        ctx.check(isinstance(v, tuple) and v[0] == who and v[1] == text[s:e], "formatter", (v, who))
        ctx.cover("own" if who == "own" else "of the pattern")
