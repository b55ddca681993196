"""C30, C31: defaults and keys of the builders."""
from symx.api import harness
from props._common import OwnDict, OwnList, is_in

KINDS = ["string", "regex", "functional", "chain"]
DEFAULTS = {"string": "string_defaults", "regex": "regex_defaults", "functional": "functional_defaults", "chain": "chain_defaults"}


def registered(owner):
    """The patterns of a builder, or those of the innermost chain of a chain builder."""
    from rebulk.builder import ChainBuilder

    if not isinstance(owner, ChainBuilder):
        return owner.effective_patterns()
    chain = owner.close().effective_patterns()[-1]
    while chain.parts and hasattr(chain.parts[0].pattern, "parts") and chain.parts[0].pattern.name == "inner":
        chain = chain.parts[0].pattern
    return [part.pattern for part in chain.parts]


def build(owner, kind, **options):
    """A pattern of this kind matching 'ab' at 0, built through a builder or a chain builder."""
    if kind == "chain":
        c = owner.chain(**options)
        c.string("ab", overrides=["tags", "name", "value"], tags=[], name="part", value=None)
    else:
        args = {"string": ("ab",), "regex": ("ab",), "functional": (lambda _s: (0, 2),)}[kind]
        getattr(owner, kind)(*args, **options)
    return registered(owner)[-1]


def owner_of(ctx, place, setup):
    """A builder, a chain builder or the builder of a chain in a chain, with these defaults."""
    from rebulk.rebulk import Rebulk

    rb = Rebulk()
    if place == "rebulk":
        setup(rb)
        return rb
    inherited = ctx.flag("inherited") if place != "rebulk" else False
    if inherited:
        setup(rb)
    c = rb.chain(name="outer", overrides=["name"])
    if place == "nested":
        c = c.chain(name="inner", overrides=["name"])
    if not inherited:
        setup(c)
    return c


def the_match(ctx, pattern):
    res = [m for m in pattern.matches("ab", {}) if m.name != "part"]
    ctx.check(len(res) == 1, "one match")
    return res[0]


def scalar_levels(ctx, p):
    """Presence and values of the three levels."""
    return {lvl: ctx.string(lvl, "xyz", 1, 2) for lvl in ("global", "kind", "explicit") if ctx.flag("has " + lvl)}


def noise(ctx, kind, option, value):
    """Defaults of the other kinds."""
    if not ctx.flag("other kinds"):
        return {}
    return {k: {option: value} for k in KINDS if k != kind}


def define(ctx, levels, kind, option, others, earlier):
    """Declares the defaults in one of the possible orders, possibly replacing earlier ones."""

    def setup(b):
        steps = []
        if "global" in levels:
            steps.append(lambda: b.defaults(**{option: levels["global"]}))
        if "kind" in levels:
            steps.append(lambda: getattr(b, DEFAULTS[kind])(**{option: levels["kind"]}))
        for k, o in others.items():
            steps.append(lambda k=k, o=o: getattr(b, DEFAULTS[k])(**o))
        if earlier is not None:
            if "global" in levels:
                b.defaults(**{option: earlier})
            if "kind" in levels:
                getattr(b, DEFAULTS[kind])(**{option: earlier})
        if ctx.flag("kind first"):
            steps.reverse()
        for s in steps:
            s()

    return setup


def common(ctx, p, option, other_value, earlier_value, levels, **options):
    kind = ctx.choice("kind", KINDS)
    place = ctx.choice("place", ["rebulk", "chain", "nested"])
    others = noise(ctx, kind, option, other_value)
    earlier = earlier_value if p.earlier and ctx.flag("earlier") else None
    owner = owner_of(ctx, place, define(ctx, levels, kind, option, others, earlier))
    if "explicit" in levels:
        options[option] = levels["explicit"]
    over = "explicit" in levels and ctx.flag("overrides")
    if over:
        options["overrides"] = [option]
    pat = build(owner, kind, **options)
    return pat, over


@harness("C30", "scalar", quick=dict(earlier=0), thorough=dict(earlier=1), cover=["explicit", "kind", "global", "none"],
         about="option holding one value: name, any presence at the three levels, kind and builder")
def scalar(ctx, p):
    levels = scalar_levels(ctx, p)
    pat, _ = common(ctx, p, "name", "other", "old", levels)
    m = the_match(ctx, pat)
    for lvl in ("explicit", "kind", "global"):
        if lvl in levels:
            ctx.check(m.name == levels[lvl], "name")
            ctx.cover(lvl)
            return
    ctx.check(m.name is None, "no name")
    ctx.cover("none")


@harness("C30", "lists", quick=dict(earlier=0), thorough=dict(earlier=1), cover=["all three", "overrides"],
         about="option holding a list: tags are concatenated, or the explicit ones alone when overridden")
def lists(ctx, p):
    levels = {k: ([v] if ctx.flag("one") else [v, "t" + k]) for k, v in scalar_levels(ctx, p).items()}
    if sum(len(v) for v in levels.values()) == 4 and len(levels) < 4 and ctx.flag("own class"):
        levels = {k: OwnList(v) for k, v in levels.items()}
    copies = {k: list(v) for k, v in levels.items()}
    pat, over = common(ctx, p, "tags", ["other"], ["old"], levels)
    m = the_match(ctx, pat)
    want = copies.get("explicit", []) if over else copies.get("global", []) + copies.get("kind", []) + copies.get("explicit", [])
    ctx.check(len(m.tags) == len(want) and all(a == b for a, b in zip(m.tags, want)), "tags", (m.tags, want))
    ctx.check(all(len(levels[k]) == len(copies[k]) for k in levels), "the lists given are not changed")
    ctx.cover("all three", len(levels) == 3 and not over)
    ctx.cover("overrides", over and len(levels) == 3)


@harness("C30", "dicts", quick=dict(earlier=0), thorough=dict(earlier=1), cover=["merged", "most specific", "overrides"],
         about="option holding a dict: values by match name are merged, the more specific entry winning")
def dicts(ctx, p):
    levels = {}
    names = ["n", "clear"]
    for lvl in ("global", "kind", "explicit"):
        has = [x for x in names if ctx.flag(f"{lvl} {x}")]
        if has:
            levels[lvl] = {x: ctx.int(f"{lvl}.{x}", 1, 9) for x in has}
    if sum(len(v) for v in levels.values()) == 4 and ctx.flag("own class"):
        levels = {k: OwnDict(v) for k, v in levels.items()}
    copies = {k: dict(v) for k, v in levels.items()}
    x = ctx.choice("match", names)
    pat, over = common(ctx, p, "value", {"n": 77, "z": 78}, {"n": 66, "y": 67}, levels, name=x)
    m = the_match(ctx, pat)
    order = ["explicit"] if over else ["explicit", "kind", "global"]
    want = next((copies[lvl][x] for lvl in order if x in copies.get(lvl, {})), "ab")
    ctx.check(ctx.eq(m.value, want), "value", (x, m.value, want))
    ctx.cover("most specific", all(x in copies.get(lvl, {}) for lvl in order) and not over)
    ctx.check(all(list(levels[k]) == list(copies[k]) for k in levels), "the dicts given are not changed")
    ctx.check(all(levels[k][x] is copies[k][x] for k in levels for x in levels[k]), "their values are not changed")
    ctx.cover("merged", not over and list(copies.get("global", ())) == ["n"] and list(copies.get("kind", ())) == ["clear"])
    ctx.cover("overrides", over and len(levels) == 3)


@harness("C30", "aliasing", quick=dict(), cover=["list", "dict", "chain builder"],
         about="declaring defaults or building another pattern changes no pattern, builder or object of the caller built before")
def aliasing(ctx, p):
    from rebulk.rebulk import Rebulk

    kinds = [ctx.choice("kind1", KINDS), ctx.choice("kind2", KINDS)]
    option = ctx.choice("option", ["tags", "value"])
    mk = (lambda *xs: list(xs)) if option == "tags" else (lambda *xs: {x: "v" + x for x in xs})
    given = {"global": mk("n", "g"), "kind": mk("n", "k"), "e1": mk("e1"), "e2": mk("e2"), "late": mk("n", "late")}
    copies = {k: v.copy() for k, v in given.items()}
    e1, e2 = ctx.flag("explicit1"), ctx.flag("explicit2")
    glob, knd = ctx.flag("global"), ctx.flag("kind")
    a, b = Rebulk(), Rebulk()

    def setup(r):
        if glob:
            r.defaults(**{option: given["global"]})
        if knd:
            getattr(r, DEFAULTS[kinds[0]])(**{option: given["kind"]})

    def content(pat):
        return pat.tags if option == "tags" else pat.values

    setup(a), setup(b)
    p1 = build(a, kinds[0], **({option: given["e1"]} if e1 else {}))
    p1_before = content(p1).copy() if content(p1) else []
    m = p1.matches("ab", {})
    tags_before = [list(x.tags) for x in m]
    late = ctx.choice("then", ["defaults", "kind", "build", "chain builder", "inherit keys"])
    if late == "defaults":
        a.defaults(**{option: given["late"]})
    elif late == "kind":
        getattr(a, DEFAULTS[kinds[0]])(**{option: given["late"]})
    elif late == "chain builder":
        c = a.chain()
        c.defaults(**{option: given["late"]})
        getattr(c, DEFAULTS[kinds[1]])(**{option: given["late"]})
        build(c, kinds[1], **({option: given["e2"]} if e2 else {}))
        ctx.cover("chain builder")
    elif late == "inherit keys":
        from rebulk.key import Key

        a.declare_keys(Key("late", int))
    p2 = build(a, kinds[1], **({option: given["e2"]} if e2 else {}))
    for k in given:
        ctx.check(given[k] == copies[k], "object of the caller unchanged", (k, given[k]))
    ctx.check((content(p1) or type(p1_before)()) == p1_before, "earlier pattern unchanged", (content(p1), p1_before))
    ctx.check("late" not in p1.formatters, "earlier pattern inherits no later key")
    ctx.check([x.tags for x in m] == tags_before, "earlier matches unchanged")
    ctx.check([list(x.tags) for x in p1.matches("ab", {})] == tags_before, "earlier pattern yields the same")
    # the other rebulk is as if the first did not exist
    q = build(b, kinds[1], **({option: given["e2"]} if e2 else {}))
    other = Rebulk()
    setup(other)
    r = build(other, kinds[1], **({option: given["e2"]} if e2 else {}))
    ctx.check(content(q) == content(r), "other builder unchanged", (content(q), content(r)))
    if late in ("chain builder", "build", "inherit keys"):
        ctx.check(content(p2) == content(r), "builder unchanged by patterns it built", (content(p2), content(r)))
    ctx.cover("list", option == "tags" and e1 and glob)
    ctx.cover("dict", option == "value" and e1 and glob)


@harness("C30", "same objects", quick=dict(), cover=["chain part"], about="the very default object is used: callables of builders and chain builders")
def same_objects(ctx, p):
    class Rec:
        def __init__(self):
            self.seen = []

        def fmt(self, s):
            self.seen.append(s)
            return "F"

    kind = ctx.choice("kind", ["string", "regex", "functional"])
    place = ctx.choice("place", ["rebulk", "chain", "nested"])
    level = ctx.choice("level", ["global", "kind", "explicit"])
    option = ctx.choice("option", ["formatter", "value"])
    rec = Rec()
    val = (rec.fmt if ctx.flag("plain") else {None: rec.fmt}) if option == "formatter" else rec

    def setup(b):
        if level == "global":
            b.defaults(**{option: val})
        elif level == "kind":
            getattr(b, DEFAULTS[kind])(**{option: val})

    owner = owner_of(ctx, place, setup)
    pat = build(owner, kind, **({option: val} if level == "explicit" else {}))
    v = the_match(ctx, pat).value
    if option == "formatter":
        ctx.check(v == "F" and rec.seen == ["ab"], "the formatter given is called once", (v, rec.seen))
    else:
        ctx.check(v is rec, "the value given is used")
    ctx.cover("chain part", place != "rebulk" and level != "explicit")


def resolve(levels):
    """The value of an option from its levels, most specific first; ABSENT where not given."""
    cur = ABSENT
    for v in levels:
        if v is ABSENT:
            continue
        if cur is ABSENT:
            cur = v
        elif isinstance(cur, list) and isinstance(v, list):
            cur = v + cur
        elif isinstance(cur, dict) and isinstance(v, dict):
            cur = {**v, **cur}
    return cur


ABSENT = object()


@harness("C30", "falsy", quick=dict(), cover=["explicit none", "false over true", "empty list", "empty dict", "none everywhere"],
         about="None, False, empty and mixed values given at any level: an explicit None or False wins, empty lists and dicts merge")
def falsy(ctx, p):
    option = ctx.choice("option", ["name", "private", "tags", "value", "marker"])
    pool = {"name": [ABSENT, None, "x", "y"], "private": [ABSENT, None, False, True], "marker": [ABSENT, False, True],
            "tags": [ABSENT, None, [], ["x"], ["y", "x"]], "value": [ABSENT, None, {}, {"n": 1}, {"n": 2, "m": 3}, "plain"]}[option]
    levels = {}
    for lvl in ("global", "kind", "explicit"):
        v = ctx.choice(lvl, pool)
        if v is not ABSENT:
            levels[lvl] = v.copy() if isinstance(v, (list, dict)) else v
    kind = ctx.choice("kind", KINDS[:3])
    place = ctx.choice("place", ["rebulk", "chain"])

    def setup(b):
        if "global" in levels:
            b.defaults(**{option: levels["global"]})
        if "kind" in levels:
            getattr(b, DEFAULTS[kind])(**{option: levels["kind"]})

    owner = owner_of(ctx, place, setup)
    options = {option: levels["explicit"]} if "explicit" in levels else {}
    over = bool(options) and ctx.flag("overrides")
    if over:
        options["overrides"] = [option]
    if option == "value":
        options["name"] = "n"
    m = the_match(ctx, build(owner, kind, **options))
    want = levels["explicit"] if over else resolve([levels.get(lvl, ABSENT) for lvl in ("explicit", "kind", "global")])
    if want is ABSENT:
        want = None
    if option == "name":
        ctx.check(m.name == want, "name", (m.name, want))
    elif option == "private":
        ctx.check(bool(m.private) == bool(want), "private", (m.private, want))
    elif option == "marker":
        ctx.check(bool(m.marker) == bool(want), "marker", (m.marker, want))
    elif option == "tags":
        ctx.check(m.tags == (want or []), "tags", (m.tags, want))
    else:
        v = "ab" if not want else want.get("n", "ab") if isinstance(want, dict) else want
        ctx.check(m.value == v, "value", (m.value, v))
    e = levels.get("explicit", ABSENT)
    ctx.cover("explicit none", e is None and levels.get("kind") is not None)
    ctx.cover("false over true", e is False and levels.get("global") is True)
    ctx.cover("empty list", e == [] and levels.get("kind") == ["x"])
    ctx.cover("empty dict", e == {} and levels.get("kind") == {"n": 1})
    ctx.cover("none everywhere", len(levels) == 3 and all(v is None for v in levels.values()))


@harness("C30", "opened", quick=dict(kinds=0), thorough=dict(kinds=1), cover=["outer", "inner", "own", "late"],
         about="a builder, a chain and a chain inside it, each setting defaults before or after the next one is opened: every one works on its own copy taken at the opening")
def opened(ctx, p):
    from rebulk.rebulk import Rebulk

    level = ctx.choice("level", ["defaults", *DEFAULTS.values()])
    kind = next((k for k in KINDS if DEFAULTS[k] == level), ctx.choice("kind", KINDS) if p.kinds else "string")
    root = Rebulk()
    want = {}
    if ctx.flag("root early"):
        getattr(root, level)(name="R")
        want["root"] = "R"
    outer = root.chain(name="outer", overrides=["name"])
    want["outer"] = want.get("root")
    if ctx.flag("outer early"):
        getattr(outer, level)(name="O")
        want["outer"] = "O"
    if ctx.flag("root late"):
        getattr(root, level)(name="RL")
        want["root"] = "RL"
    inner = outer.chain(name="inner", overrides=["name"])
    want["inner"] = want["outer"]
    if ctx.flag("outer late"):
        getattr(outer, level)(name="OL")
        want["outer"] = "OL"
    if ctx.flag("inner own"):
        getattr(inner, level)(name="I")
        want["inner"] = "I"
    if ctx.flag("root last"):
        getattr(root, level)(name="RLL")
        want["root"] = "RLL"
    explicit = ctx.choice("explicit", ["nobody", "root", "outer", "inner"])
    order = ctx.choice("order", [["root", "outer", "inner"], ["inner", "outer", "root"]])
    for who in order:
        b = {"root": root, "outer": outer, "inner": inner}[who]
        options = {"name": "E"} if who == explicit else {}
        if kind == "chain":
            b.chain(**options).string("ab", overrides=["name"], name="part")
        else:
            getattr(b, kind)(*{"functional": (lambda _s: (0, 2),)}.get(kind, ("ab",)), **options)
        if who == explicit:
            want[who] = "E"
    chain = root.effective_patterns()[0]
    got = {"root": root.effective_patterns()[-1].name, "outer": chain.parts[-1].pattern.name, "inner": chain.parts[0].pattern.parts[0].pattern.name}
    ctx.check(got == {k: want.get(k) for k in got}, "names", (got, want))
    ctx.check(chain.name == "outer" and chain.parts[0].pattern.name == "inner", "the chains themselves")
    ctx.cover("outer", want["outer"] == "O")
    ctx.cover("inner", want["inner"] == "O")
    ctx.cover("own", want["inner"] == "I")
    ctx.cover("late", want.get("root") == "RL" and want["outer"] == "R")


@harness("C30", "through a part", quick=dict(), cover=["explicit", "default", "key", "nested"],
         about="patterns, nested chains and the closing reached through a part of the chain instead of its builder: same options, same registration")
def through_part(ctx, p):
    from rebulk.chain import ChainPart
    from rebulk.key import Key
    from rebulk.rebulk import Rebulk

    kind = ctx.choice("kind", KINDS)
    rb = Rebulk()
    c = rb.chain(name="outer", overrides=["name"])
    levels = scalar_levels(ctx, p)
    if "global" in levels:
        c.defaults(name=levels["global"])
    if "kind" in levels:
        getattr(c, DEFAULTS[kind])(name=levels["kind"])
    first = c.string("zz", name="first")
    second = first.regex("yy", name="second") if ctx.flag("second") else first
    ctx.check(isinstance(second, ChainPart), "a part is returned")
    options, key = {"tags": ["t"], "value": 5, "marker": True}, None
    if "explicit" in levels:
        options["name"] = levels["explicit"]
    elif kind != "chain" and ctx.flag("key"):
        key = options["key"] = Key("k", int)
    n = len(rb.effective_patterns()[-1].parts)
    if kind == "chain":
        nested = second.chain()
        ctx.check(nested is not c and nested.close() is rb, "the nested chain closes to the builder owning the outermost one")
        ctx.cover("nested")
        made = nested.string("ab", name="part", overrides=["name"])
        ctx.check(isinstance(made, ChainPart) and made.close() is rb, "its part closes to that one too")
    else:
        made = getattr(second, kind)(*{"functional": (lambda _s: (0, 2),)}.get(kind, ("ab",)), **options)
        ctx.check(isinstance(made, ChainPart), "a new part is returned")
        ctx.check(made.close() is rb, "closing gives the builder the chain was opened on")
    parts = rb.effective_patterns()[-1].parts
    ctx.check(len(rb.effective_patterns()) == 1 and len(parts) == n + 1, "one part is added to the one chain")
    if kind == "chain":
        levels.pop("explicit", None)
    else:
        ctx.check(parts[-1] is made, "the part returned is the one of the chain")
    pat = parts[-1].pattern
    m = the_match(ctx, pat)
    want = levels["explicit"] if "explicit" in levels else "k" if key is not None else levels.get("kind", levels.get("global"))
    ctx.check(m.name == want if want is not None else m.name is None, "name", (m.name, want))
    if kind != "chain":
        ctx.check(m.tags == ["t"] and m.value == 5 and m.marker is True, "the options are used", (m.tags, m.value, m.marker))
    ctx.cover("explicit", "explicit" in levels)
    ctx.cover("default", len(levels) == 2 and "explicit" not in levels)
    ctx.cover("key", key is not None)


@harness("C30", "successive", quick=dict(), cover=["replaced", "reset"],
         about="several calls of one defaults method: options accumulate, the last value of each counts, every call returns the builder, and reset forgets them all")
def successive(ctx, p):
    from rebulk.rebulk import Rebulk

    kind = ctx.choice("kind", KINDS)
    method = ctx.choice("method", ["defaults", DEFAULTS[kind]])
    place = ctx.choice("place", ["rebulk", "chain"])
    want = {}
    seen = []

    def setup(b):
        for i in range(3):
            options = {}
            if ctx.flag(f"name {i}"):
                options["name"] = ctx.string(f"n{i}", "xyz", 1, 1)
            if ctx.flag(f"value {i}"):
                options["value"] = ctx.int(f"v{i}", 1, 9)
            seen.append(getattr(b, method)(**options) is b)
            want.update(options)

    owner = owner_of(ctx, place, setup)
    ctx.check(all(seen), "the builder itself is returned")
    if place == "rebulk" and ctx.flag("reset"):
        owner.reset()
        want.clear()
        ctx.cover("reset")
    m = the_match(ctx, build(owner, kind))
    ctx.check(m.name == want["name"] if "name" in want else m.name is None, "name", (m.name, want))
    ctx.check(ctx.eq(m.value, want.get("value", "ab")), "value", (m.value, want))
    ctx.cover("replaced", len(want) == 2)


# -- C31 ------------------------------------------------------------------------------------------------------------
def call_of(owner, kind, **options):
    """A pattern exposing the groups a and b (or the name) over the text '1234'; its matches, children included."""
    args = {"string": ("12",), "regex": (r"(?P<a>\d\d)(?P<b>\d\d)",), "functional": (lambda _s: (0, 2),)}[kind]
    r = getattr(owner, kind)(*args, **options)
    return r.effective_patterns()[-1] if hasattr(r, "effective_patterns") else r.pattern


def conv(label):
    return lambda s: label + s


@harness("C31", "single", quick=dict(), cover=["key wires both", "name explicit", "formatter explicit", "in chain"],
         about="one key: any presence of explicit name, formatter, defaults and declared keys")
def single(ctx, p):
    from rebulk.key import Key
    from rebulk.rebulk import Rebulk

    kind = ctx.choice("kind", ["string", "functional", "regex"])
    own = ctx.flag("key has a formatter")
    key = Key("k", int if not own else str, conv("K")) if own else Key("k", int)
    rb = Rebulk()
    dflt = ctx.choice("default", ["none", "name", "formatter", "dict"])
    level = getattr(rb, ctx.choice("level", ["defaults", DEFAULTS[kind]]))
    dd = {"k": conv("D"), "n": conv("DN")}
    if dflt == "name":
        level(name="d")
    elif dflt == "formatter":
        level(formatter=conv("D"))
    elif dflt == "dict":
        level(formatter=dd)
    declared = ctx.flag("declared")
    if declared:
        rb.declare_keys(Key("k", str, conv("X")), Key("n", str, conv("N")))
    opts = {}
    if ctx.flag("explicit name"):
        opts["name"] = ctx.choice("name", ["n", None, ""])
    f = ctx.choice("explicit formatter", ["none", "plain", "dict k", "dict n", "empty", "None", "None k"])
    ed = {f[-1]: None if f == "None k" else conv("E")} if f != "empty" else {}
    if f == "None":
        opts["formatter"] = None
    elif f == "plain":
        opts["formatter"] = conv("E")
    elif f != "none":
        opts["formatter"] = ed
    owner = rb
    inside = ctx.flag("in a chain")
    if inside:
        owner = rb.chain(name="outer", overrides=["name"])
    o2 = dict(opts)
    pat = call_of(owner, kind, key=key, **opts)
    ctx.check(opts == o2 and list(ed) == ([] if f == "empty" else [f[-1]]) and sorted(dd) == ["k", "n"], "dicts of the caller unchanged")
    m = pat.matches("1234", {})[0]
    name = opts.get("name", "k")
    ctx.check(m.name == name, "name", (m.name, name))
    text = m.raw
    if f == "plain":
        want = "E" + text
    elif f == "none":
        want = "K" + text if own else int(text)
    elif f == "None k" and name == "k":
        want = text
    elif name == f[-1] and f != "empty":
        want = "E" + text
    elif dflt == "dict" and name and f != "None":
        want = ("D" if name == "k" else "DN") + text
    elif declared and name:
        want = ("X" if name == "k" else "N") + text
    else:
        want = text
    ctx.check(m.value == want, "value", (m.value, want, dflt))
    ctx.cover("key wires both", not opts and not declared and dflt == "none")
    ctx.cover("name explicit", "name" in opts)
    ctx.cover("formatter explicit", f == "plain")
    ctx.cover("in chain", inside)


@harness("C31", "several", quick=dict(), cover=["explicit wins", "key wins", "declared", "bare disables", "bare and keys refused"],
         about="a sequence of keys and declared keys on a pattern with two groups: any presence of explicit and default formatters")
def several(ctx, p):
    from rebulk.key import Key
    from rebulk.rebulk import Rebulk

    def keyed(label, n, own):
        return Key(n, str, conv(label)) if own else Key(n, int)

    own = ctx.flag("own converters")
    rb = Rebulk()
    names = ["a", "b"]
    keys = [n for n in names if ctx.flag(f"key {n}")]
    declared = [n for n in names if ctx.flag(f"declared {n}")]
    dflt = ctx.choice("default", ["none", "plain", "dict a"])
    expl = ctx.choice("explicit", ["none", "plain", "dict a", "dict b", "empty", "None a"])
    early = ctx.flag("declared before")
    dd, ed = {"a": conv("D")}, {expl[-1]: conv("E")} if expl.startswith("dict") else {"a": None} if expl == "None a" else {}
    given = [keyed("K", n, own) for n in keys]
    if ctx.flag("as tuple"):
        given = tuple(given)
    g2 = list(given)
    if dflt != "none":
        getattr(rb, ctx.choice("level", ["defaults", "regex_defaults"]))(formatter=conv("D") if dflt == "plain" else dd)
    decl = [Key(n, str, conv("X")) for n in declared]
    owner = rb
    if ctx.flag("in a chain"):
        if early and ctx.flag("inherited"):
            rb.declare_keys(*decl)
            owner = rb.chain()
        else:
            owner = rb.chain()
            if early:
                owner.declare_keys(*decl)
    elif early:
        rb.declare_keys(*decl)
    opts = {"children": True}
    if expl != "none":
        opts["formatter"] = conv("E") if expl == "plain" else OwnDict(ed) if keys and own else ed
    if expl == "plain" and keys:
        try:
            call_of(owner, "regex", key=given, **opts)
            ctx.check(False, "keys and one formatter for all names are refused")
        except TypeError:
            ctx.cover("bare and keys refused")
        return
    pat = call_of(owner, "regex", **({"key": given} if keys or ctx.flag("empty keys") else {}), **opts)
    if not early:
        rb.declare_keys(*decl)
    ctx.check(list(given) == g2 and sorted(dd) == ["a"] and sorted(ed) == ([expl[-1]] if expl.startswith("dict") or expl == "None a" else []), "objects of the caller unchanged")
    got = {m.name: m.value for m in pat.matches("1234", {})}
    for n in names:
        text = {"a": "12", "b": "34"}[n]
        if expl == "plain":
            want = "E" + text
            ctx.cover("bare disables", early and n in declared)
        elif n in ed:
            want = text if expl == "None a" else "E" + text
            ctx.cover("explicit wins", n in keys)
        elif n in keys:
            want = "K" + text if own else int(text)
            ctx.cover("key wins", early and n in declared)
        elif dflt == "dict a" and n == "a":
            want = "D" + text
        elif dflt == "plain" and not keys and expl not in ("dict a", "dict b", "empty", "None a"):
            want = "D" + text
        elif early and n in declared:
            want = "X" + text
            ctx.cover("declared")
        else:
            want = text
        ctx.check(got.get(n) == want, "value", (n, got, want))


@harness("C31", "roles", quick=dict(), cover=["key over role", "role over nothing", "parent role", "everything"],
         about="formatters given for roles (children, parent, everything) next to keys: kept, and used where no formatter for the name is found")
def roles(ctx, p):
    from rebulk.key import Key
    from rebulk.rebulk import Rebulk

    roles = [r for r in ("__children__", "__parent__", None) if ctx.flag(f"role {r}")]
    given = {r: conv(f"{r}:") for r in roles}
    if ctx.flag("explicit a"):
        given["a"] = conv("E")
    keys = [n for n in "ab" if ctx.flag(f"key {n}")]
    declared = [n for n in "ab" if ctx.flag(f"declared {n}")]
    rb = Rebulk(default_rules=False)
    rb.declare_keys(*[Key(n, str, conv("X")) for n in declared])
    level = ctx.choice("level", ["explicit", "defaults"])
    opts = {"every": True}
    if level == "explicit":
        opts["formatter"] = dict(given)
    elif given:
        rb.defaults(formatter=dict(given))
    owner = rb.chain() if ctx.flag("in a chain") else rb
    pat = call_of(owner, "regex", **({"key": [Key(n, str, conv("K")) for n in keys]} if keys else {}), **opts)
    got = {m.name: m.value for m in pat.matches("1234", {})}
    for n, text, role in (("a", "12", "__children__"), ("b", "34", "__children__"), (None, "1234", "__parent__")):
        if n in given and n is not None and (level == "explicit" or n not in keys):
            want = "E" + text
        elif n in keys:
            want = "K" + text
            ctx.cover("key over role", role in given)
        elif n in declared:
            want = "X" + text
        elif role in given:
            want = f"{role}:" + text
            ctx.cover("role over nothing", n is not None)
            ctx.cover("parent role", n is None and bool(keys))
        elif None in given:
            want = "None:" + text
            ctx.cover("everything", bool(keys))
        else:
            want = text
        ctx.check(got.get(n) == want, "value", (n, got, want))


@harness("C31", "later", quick=dict(), cover=["later", "redeclared"], about="only patterns built after a declaration inherit it; the last declaration of a name wins")
def later(ctx, p):
    from rebulk.key import Key
    from rebulk.rebulk import Rebulk

    rb, other = Rebulk(), Rebulk()
    shared = {"z": conv("Z")}
    if ctx.flag("shared defaults"):
        rb.regex_defaults(formatter=shared)
        other.regex_defaults(formatter=shared)
    steps = [ctx.choice(f"step{k}", ["declare a", "declare b", "again a", "build"]) for k in range(4)]
    built, current = [], {}
    for s in steps:
        if s == "build":
            rb.regex(r"(?P<a>\d\d)(?P<b>\d\d)", children=True)
            built.append((rb.effective_patterns()[-1], dict(current)))
        else:
            n, lab = s[-1], ("A" if s == "again a" else "X")
            rb.declare_keys(Key(n, str, conv(lab)))
            current[n] = lab
    ctx.assume(len(built) > 0)
    other.regex(r"(?P<a>\d\d)(?P<b>\d\d)", children=True)
    built.append((other.effective_patterns()[-1], {}))
    for pat, cur in built:
        got = {m.name: m.value for m in pat.matches("1234", {})}
        for n, text in (("a", "12"), ("b", "34")):
            ctx.check(got[n] == cur.get(n, "") + text, "value", (n, got, cur))
    ctx.check(list(shared) == ["z"], "the dict of the caller is not changed")
    ctx.cover("later", steps[0] == "build" and steps[1] == "declare a")
    ctx.cover("redeclared", steps == ["declare a", "again a", "build", "build"])


@harness("C31", "opened", quick=dict(), cover=["inherited", "own chain", "inner", "late"],
         about="keys declared on a builder, a chain and a chain inside it, before or after the next one is opened: only patterns of that builder and of those opened later inherit them")
def opened_keys(ctx, p):
    from rebulk.key import Key
    from rebulk.rebulk import Rebulk

    root = Rebulk()
    keys = {"root": {}, "outer": {}, "inner": {}}

    def declare(b, who, label, name="a"):
        b.declare_keys(Key(name, str, conv(label)))
        keys[who][name] = label

    if ctx.flag("root early"):
        declare(root, "root", "R")
    outer = root.chain(name="outer")
    keys["outer"].update(keys["root"])
    if ctx.flag("outer early"):
        declare(outer, "outer", "O", ctx.choice("outer key", ["a", "b"]))
    if ctx.flag("root late"):
        declare(root, "root", "L")
    inner = outer.chain(name="inner")
    keys["inner"].update(keys["outer"])
    if ctx.flag("outer late"):
        declare(outer, "outer", "P", "b")
    if ctx.flag("inner own"):
        declare(inner, "inner", "I", ctx.choice("inner key", ["a", "b"]))
    if ctx.flag("root last"):
        declare(root, "root", "M", "b")
    for b in ctx.choice("order", [[root, outer, inner], [inner, outer, root]]):
        b.regex(r"(?P<a>\d\d)(?P<b>\d\d)", children=True)
    chain = root.effective_patterns()[0]
    pats = {"root": root.effective_patterns()[-1], "outer": chain.parts[-1].pattern, "inner": chain.parts[0].pattern.parts[0].pattern}
    for who, pat in pats.items():
        got = {m.name: m.value for m in pat.matches("1234", {})}
        want = {n: keys[who].get(n, "") + text for n, text in (("a", "12"), ("b", "34"))}
        ctx.check(got == want, "values", (who, got, want))
    ctx.check(sorted(root.effective_keys()) == sorted(keys["root"]), "keys of the builder itself", sorted(root.effective_keys()))
    ctx.cover("inherited", keys["inner"].get("a") == "R")
    ctx.cover("own chain", "b" in keys["outer"] and "b" not in keys["root"])
    ctx.cover("inner", keys["inner"].get("b") == "I" and "b" not in keys["outer"])
    ctx.cover("late", keys["root"].get("a") == "L" and "a" not in keys["outer"])
