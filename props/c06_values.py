"""C06: values and formatters."""
from props._common import TEXT, OwnDict, one_occurrence
from symx.api import harness

ASSUMES = ["the regex engine is a stub reporting one occurrence with arbitrary spans", "formatters are uninterpreted tags on the text"]


def resolve(registered, name, role):
    for k in ([name] if name else []) + [role, None]:
        if k in registered:
            return k
    return False


def check_value(ctx, m, text, values, formatters, role, shaped):
    vk = resolve(values, m.name, role)
    raw = text[m.start:m.end]
    if vk is not False:
        ctx.check(m.value == f"V{vk}", "literal registered for name, role or pattern", (m.name, role, vk))
        return
    fk = resolve(formatters, m.name, role) if shaped else False
    if fk is not False:
        v = m.value
        ctx.check(isinstance(v, tuple) and v[0] == f"F{fk}" and v[1] == raw, "formatter registered for name, role or pattern applied to the text", (m.name, role, fk))
    else:
        ctx.check(m.value == raw, "plain text")


def body(ctx, n, names, pname, vkeys, fkeys, vform, fform, flag, own=dict):
    from rebulk.pattern import RePattern

    (ps, pe), caps, fake = one_occurrence(ctx, n, names)
    text = ctx.wrap(TEXT)

    def fmt(key):
        return lambda s: (f"F{key}", s)

    kw = {}
    if vform == "single":
        kw["value"], vkeys = "VNone", [None]
    elif vkeys:
        kw["value"] = own({k: f"V{k}" for k in vkeys})
    if fform == "single":
        kw["formatter"], fkeys = fmt(None), [None]
    elif fkeys:
        kw["formatter"] = own({k: fmt(k) for k in fkeys})
    pat = RePattern(fake, name=pname, **kw, **flag)
    pat.repeated_captures = False
    got = pat.matches(text)
    parent_in = not flag["children"] or flag["every"]
    kids_in = flag["children"] or flag["every"]
    parent_out = parent_in or flag.get("private_parent")
    kids_out = kids_in or flag.get("private_children")
    parents = [m for m in got if m.parent is None] or [m.parent for m in got]
    ctx.check(len(got) == (1 if parent_out else 0) + (n if kids_out else 0), "emission")
    for m in parents[:1]:
        # a match returned only because it is private may be formatted or not
        if parent_in or flag["format_all"] or not flag.get("private_parent"):
            check_value(ctx, m, text, vkeys, fkeys, "__parent__", parent_in or flag["format_all"])
        for c in m.children:
            if kids_in or flag["format_all"] or not flag.get("private_children"):
                check_value(ctx, c, text, vkeys, fkeys, "__children__", kids_in or flag["format_all"])


@harness("C06", "precedence", quick=dict(kids=1), assumes=ASSUMES, cover=["formatter by name", "literal by role", "not returned"],
         about="every registration of formatters and literals by name, role and default; one child")
def precedence(ctx, p):
    n = ctx.pick("kids", 0, p.kids)
    pname = ctx.choice("pname", [None, "p"])
    names = [ctx.choice(f"name{k}", [None, "a"]) for k in range(n)]
    mode = ctx.choice("mode", ["default", "children", "every"])
    flag = {"children": mode == "children", "every": mode == "every", "format_all": ctx.flag("format_all")}
    keys = ["a" if n else "p", "__children__" if n else "__parent__", None]
    keys = (["p", "a"] if pname and n else ["a"] if n else ["p"]) + (["__parent__", "__children__"] if n else ["__parent__"]) + [None]
    vkeys = ctx.subset("values", keys)
    fkeys = ctx.subset("formatters", keys)
    body(ctx, n, names, pname, vkeys, fkeys, "dict", "dict", flag, OwnDict if len(vkeys) + len(fkeys) == 2 and ctx.flag("own class") else dict)
    ctx.cover("formatter by name", "a" in fkeys and names == ["a"])
    ctx.cover("literal by role", "__children__" in vkeys and n > 0)
    ctx.cover("not returned", n > 0 and mode == "default" and bool(fkeys))


@harness("C06", "family", quick=dict(kids=2), thorough=dict(kids=3), assumes=ASSUMES, cover=["two children", "single formatter"],
         about="several children; single literal and formatter instead of a dict")
def family(ctx, p):
    n = ctx.pick("kids", 1, p.kids)
    names = [ctx.choice(f"name{k}", [None, "abc"[k]]) for k in range(n)]
    mode = ctx.choice("mode", ["default", "children", "every"])
    flag = {"children": mode == "children", "every": mode == "every", "format_all": ctx.flag("format_all")}
    vform = ctx.choice("vform", ["none", "single", "dict"])
    fform = ctx.choice("fform", ["none", "single", "dict"])
    vkeys = ctx.choice("vkeys", [["a"], ["b"], ["p"], ["__parent__"]]) if vform == "dict" else []
    fkeys = ctx.choice("fkeys", [["a"], ["b", "__parent__"], ["p"], ["__children__"]]) if fform == "dict" else []
    body(ctx, n, names, "p", vkeys, fkeys, vform, fform, flag)
    ctx.cover("two children", n == 2)
    ctx.cover("single formatter", fform == "single" and vform == "none")


@harness("C06", "private", quick=dict(kids=1), thorough=dict(kids=2), assumes=ASSUMES, cover=["private and not returned", "marker"],
         about="private, marker, tagged and validated matches resolve values and formatters alike")
def private(ctx, p):
    n = ctx.pick("kids", 0, p.kids)
    names = [ctx.choice(f"name{k}", [None, "abc"[k]]) for k in range(n)]
    mode = ctx.choice("mode", ["default", "children", "every"])
    flag = {f: ctx.flag(f) for f in ("format_all", "private", "private_parent", "private_children", "marker")}
    flag.update(children=mode == "children", every=mode == "every", private_names=ctx.choice("private_names", [[], ["a", "p"]]))
    if ctx.flag("validate_all"):
        flag.update(validate_all=True, validator=lambda match: True)
    vkeys = ctx.choice("vkeys", [[], ["a"], ["__parent__"], [None]])
    fkeys = ctx.choice("fkeys", [[], ["a", "p"], ["__children__"], [None]])
    body(ctx, n, names, "p", vkeys, fkeys, "dict", "dict", flag)
    ctx.cover("private and not returned", n > 0 and mode == "default" and names == ["a"] and "a" in fkeys and bool(flag["private_names"]))
    ctx.cover("marker", flag["marker"] and n > 0)


@harness("C06", "coinciding", quick=dict(n=3), thorough=dict(n=5), cover=["literal is the text", "formatted text is the text"],
         about="literals and formatted values that happen to equal the text, any text and span")
def coinciding(ctx, p):
    from rebulk.pattern import FunctionalPattern

    text = ctx.string("text", "ab", p.n, p.n)
    s, e = ctx.int("s", 0, p.n), ctx.int("e", 0, p.n)
    ctx.assume(s < e)
    kw = {}
    if ctx.flag("literal"):
        lit = kw["value"] = ctx.string("lit", "ab", 1, 2)
        if ctx.flag("dict"):
            kw["value"] = {ctx.choice("key", ["p", "__parent__", None]): lit}
        if ctx.flag("formatter"):
            kw["formatter"] = lambda raw: ("F", raw)
    else:
        lit = None
        kw["formatter"] = lambda raw: raw
    got = FunctionalPattern(lambda string: (s, e), name="p", **kw).matches(text)
    ctx.check(len(got) == 1, "emitted")
    m = got[0]
    raw = text[s:e]
    want = raw if lit is None else lit
    ctx.check(m.value == want, "the literal, else the formatted text")
    ctx.check(bool(m.has_literal_value) == (lit is not None), "the value is known to be a literal")
    m.raw_start = 0
    ctx.check(m.value == (text[0:e] if lit is None else lit), "a literal does not depend on the text")
    ctx.cover("literal is the text", lit is not None and ctx.eq(raw, want))
    ctx.cover("formatted text is the text", lit is None)


@harness("C06", "direct", quick=dict(n=3), thorough=dict(n=5), cover=["empty span", "falsy formatted value", "no text"],
         about="a match built directly, any text and span (empty ones too), any answer of the formatter")
def direct(ctx, p):
    from rebulk.match import Match

    text = ctx.string("text", "ab", p.n, p.n)
    s, e = ctx.int("s", 0, p.n), ctx.int("e", 0, p.n)
    ctx.assume(s <= e)
    out = ctx.choice("formatted", ["tag", None, 0, "", False, (), []])
    asked = []

    def formatter(raw):
        asked.append(raw)
        return ("F", raw) if out == "tag" else out

    kw = {}
    if ctx.flag("text given"):
        kw["input_string"] = text
        raw = text[s:e]
    else:
        raw = None
        ctx.cover("no text")
    fmt = ctx.flag("formatter")
    if fmt:
        kw["formatter"] = formatter
    m = Match(s, e, **kw)
    v = m.value
    if fmt:
        ctx.check(len(asked) == 1 and ctx.eq(asked[0], raw), "the formatter gets the text of the match")
        ctx.check(type(v) is tuple and v[0] == "F" and ctx.eq(v[1], raw) if out == "tag" else v is out, "the value is the formatter's answer")
    else:
        ctx.check(v is None if raw is None else v == raw, "the value is the text")
    ctx.check(not m.has_literal_value, "no literal")
    ctx.cover("empty span", fmt and ctx.And(s == e))
    ctx.cover("falsy formatted value", fmt and out == 0)


@harness("C06", "chained", quick=dict(), assumes=["formatters are uninterpreted tags on the text"],
         cover=["by name", "by role", "own formatter", "own literal", "own formatter replaced"],
         about="the literals and formatters of a chain apply to the chain match and to the matches of its parts, which else keep those of the part")
def chained(ctx, p):
    from rebulk import Rebulk

    text = ctx.string("before", "xy", 1, 1) + ctx.wrap("abcd") + ctx.string("after", "xy", 1, 1)
    ctx.fork_find()
    cname = ctx.choice("cname", [None, "p"])
    names = [ctx.choice(f"name{k}", [None, "ab"[k]]) for k in range(2)]
    mode = ctx.choice("mode", ["default", "children", "every"])
    flag = {"children": mode == "children", "every": mode == "every", "format_all": ctx.flag("format_all")}
    own = ctx.choice("own", ["none", "formatter", "literal", "both"])
    vkeys = ctx.choice("vkeys", [[], ["a"], ["p"], ["__parent__"], ["__children__", "b"], [None]])
    fkeys = ctx.choice("fkeys", [[], ["a"], ["p"], ["__parent__", None], ["__children__", "b"], [None]])

    def fmt(key):
        return lambda s: (f"F{key}", s)

    kw, pkw = {}, {}
    if vkeys:
        kw["value"] = {k: f"V{k}" for k in vkeys}
    if fkeys:
        kw["formatter"] = {k: fmt(k) for k in fkeys}
    if own in ("formatter", "both"):
        pkw["formatter"] = fmt("own")
    if own in ("literal", "both"):
        pkw["value"] = "Vown"
    rb = Rebulk().chain(name=cname, **kw, **flag).string("ab", name=names[0], **pkw).string("cd", name=names[1]).close()
    got = rb.effective_patterns()[0].matches(text)
    ctx.check(len(got) == {"default": 1, "children": 2, "every": 3}[mode], "emission", got)
    top = got[0] if mode != "children" else got[0].parent
    shaped = mode != "children" or flag["format_all"]
    check_value(ctx, top, text, vkeys, fkeys, "__parent__", shaped)
    shaped = mode != "default" or flag["format_all"]
    for k, c in enumerate(top.children):
        raw = text[c.start:c.end]
        vk, fk = resolve(vkeys, names[k], "__children__"), resolve(fkeys, names[k], "__children__") if shaped else False
        if vk is not False:
            ctx.check(c.value == f"V{vk}", "literal of the chain", (k, c.value))
        elif k == 0 and "value" in pkw:
            ctx.check(c.value == "Vown", "literal of the part", c.value)
            ctx.cover("own literal")
        elif fk is not False:
            ctx.check(isinstance(c.value, tuple) and c.value[0] == f"F{fk}" and c.value[1] == raw, "formatter of the chain", (k, c.value))
            ctx.cover("own formatter replaced", k == 0 and own == "formatter")
        elif k == 0 and "formatter" in pkw:
            ctx.check(isinstance(c.value, tuple) and c.value[0] == "Fown" and c.value[1] == raw, "formatter of the part", c.value)
            ctx.cover("own formatter", mode == "children")
        else:
            ctx.check(c.value == raw, "plain text", c.value)
    ctx.cover("by name", "a" in fkeys and names[0] == "a" and mode == "every")
    ctx.cover("by role", "__children__" in vkeys and names[1] is None)
