"""C37: matching is repeatable."""
from symx.api import harness
from props._common import FakeRegex


def state(ctx, m):
    """What a user sees of a match, with its children and initiator."""
    ini = m.initiator
    return [m.start, m.end, m.name, list(m.tags), m.value, m.raw, bool(m.private), bool(m.marker), m.match_index if hasattr(m, "match_index") else None,
            (ini.start, ini.end, ini.name, list(ini.tags)) if ini is not m else None, [state(ctx, c) for c in m.children]]


def same(ctx, a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and ctx.And([same(ctx, x, y) for x, y in zip(a, b)] or [True])
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return False
    return ctx.eq(a, b)


def snapshot(ctx, res):
    return [[state(ctx, m) for m in res], [state(ctx, m) for m in res.markers], sorted(map(str, res.names)), [m.start for m in res.named("n")], [m.start for m in res.tagged("t")]]


def spoil(res):
    """Everything a user may set on what a call returned."""
    for m in list(res) + list(res.markers):
        for x in [m, *m.children, m.initiator]:
            x.tags.append("spoiled")
            x.tags.insert(0, "t")
            x.name = "spoiled"
            x.value = "spoiled"
            x.private = True
            x.marker = not x.marker
            x.raw_end = x.raw_end + 1
            x.end = x.end + 1
        m.children.clear()
    res.clear()
    res.markers.clear()


def option_sets(ctx, kind):
    o = ctx.choice("options", ["plain", "tags", "values", "formatter", "every", "children", "private names", "marker", "tags default"])
    shared = {"tags": ["t", "u"], "value": {"n": 7, "g": ["v"]}, "formatter": {"n": lambda s: ["F", s], "g": lambda s: "G" + s}}
    opts = {"name": "n"}
    if o in ("tags", "tags default"):
        opts["tags"] = shared["tags"]
    elif o == "values":
        opts["value"] = shared["value"]
    elif o == "formatter":
        opts["formatter"] = shared["formatter"]
    elif o == "every":
        opts.update(every=True, tags=shared["tags"])
    elif o == "children":
        opts.update(children=True, private_children=ctx.flag("private"), tags=shared["tags"])
    elif o == "private names":
        opts.update(every=True, private_names=["g"], ignore_names=["h"])
    elif o == "marker":
        opts.update(marker=True, tags=shared["tags"])
    return o, opts, shared


@harness("C37", "dependent", quick=dict(calls=3), thorough=dict(calls=4), cover=["same text, other context", "back again"],
         about="functions, enablement and rules that depend on the context: any sequence of texts and contexts, each call as with objects never used")
def contexts(ctx, p):
    from rebulk.rebulk import Rebulk
    from rebulk.rules import RenameMatch, Rule

    t = [ctx.int(f"t{k}", 0, 3) for k in range(3)]

    class R(Rule):
        consequence = RenameMatch("z")

        def enabled(self, context):
            return context["v"] >= t[2]

        def when(self, matches, context):
            return [m for m in matches if m.start >= context["v"]]

    where = ctx.choice("where", ["functional", "enablement", "rule", "chain"])

    def make():
        rb = Rebulk()
        if where == "functional":
            rb.functional(lambda s, context: (context["v"], context["v"] + 1) if context["v"] >= t[0] else None, name="n")
        elif where == "enablement":
            rb.string("a", name="n", disabled=lambda c: c["v"] >= t[0]).regex("(?P<n>b)", children=True, disabled=lambda c: c["v"] < t[1])
        elif where == "rule":
            rb.string("a", "b", name="n").rules(R)
        else:
            rb.chain(name="n").functional(lambda s, context: (0, 1) if context["v"] >= t[0] else None, name="p").string("b", name="q").repeater("?").close()
        return rb

    used = make()
    prev = []
    for k in range(p.calls):
        text = ctx.choice(f"text{k}", ["ab", "cba"] if k else ["ab"])
        v = ctx.int(f"v{k}", 0, 2)
        got, want = snapshot(ctx, used.matches(text, {"v": v})), snapshot(ctx, make().matches(text, {"v": v}))
        ctx.check(same(ctx, got, want), "the same as with objects never used", (got, want))
        if prev:
            ctx.cover("same text, other context", ctx.And(prev[-1][0] == text, prev[-1][1] != v))
        if len(prev) > 1:
            ctx.cover("back again", ctx.And(prev[-2][0] == text, prev[-2][1] == v, prev[-1][0] != text))
        prev.append((text, v))


def spans_for(ctx, p, k):
    s, e = ctx.int(f"s{k}", 0, p.hi), ctx.int(f"e{k}", 0, p.hi)
    ctx.assume(s < e)
    return s, e


def configured(ctx, kind, o, opts, found):
    """A rebulk with one pattern of this kind; what it finds depends on the text through found."""
    from rebulk.rebulk import Rebulk

    rb = Rebulk()
    o2 = dict(opts)
    if o == "tags default":
        rb.defaults(tags=o2.pop("tags"))
    if kind == "string":
        rb.string("b", **o2)
    elif kind == "functional":
        rb.functional(lambda s: found[s], **o2)
    elif kind == "regex":
        rb.regex(FakeRegex(["g", None, "h"], lambda s: [(found[s], [[found[s]], [found[s]], [found[s]]])]), **o2)
    else:
        rb.chain(**o2).functional(lambda s: found.get(s), name="g", tags=["p"]).close()
    return rb


TEXTS = ["abcabca", "cbabbab"]


@harness("C37", "patterns", quick=dict(hi=3, orders=1), thorough=dict(hi=4, orders=4), cover=["string", "functional", "regex", "chain", "spoiled", "not spoiled", "found"],
         about="a pattern of any kind and options: a text gives the same after other texts and after spoiling every returned match")
def patterns(ctx, p):
    kind = ctx.choice("kind", ["string", "functional", "regex", "chain"])
    o, opts, shared = option_sets(ctx, kind)
    found = {t: spans_for(ctx, p, k) for k, t in enumerate(TEXTS)} if kind != "string" else {}
    order = ctx.choice("order", [[1, 0, 1], [0, 0], [0, 1], [1, 0, 1, 0]][: p.orders])
    spoiled = ctx.flag("spoiled")
    rb = configured(ctx, kind, o, opts, found)
    context = {"c": 1}
    for turn, i in enumerate(order):
        res = rb.matches(TEXTS[i], context)
        fresh = configured(ctx, kind, o, {k: v for k, v in opts.items()}, found)
        if turn:
            want = snapshot(ctx, fresh.matches(TEXTS[i], {"c": 1}))
            got = snapshot(ctx, res)
            ctx.check(same(ctx, got, want), "the same as with objects never used", (got, want))
        ctx.cover("found", len(res) + len(res.markers) > 0)
        if spoiled:
            spoil(res)
        ctx.check(context == {"c": 1}, "context unchanged")
        ctx.check(shared["tags"] == ["t", "u"] and shared["value"] == {"n": 7, "g": ["v"]} and sorted(shared["formatter"]) == ["g", "n"], "configuration unchanged", shared)
    ctx.cover(kind)
    ctx.cover("spoiled" if spoiled else "not spoiled")


@harness("C37", "rules", quick=dict(hi=4), thorough=dict(hi=7), cover=["rename", "append tag", "remove tag", "crop", "revalue", "remove", "children"],
         about="rules changing matches in place: the second and third call give what the first gives")
def rules(ctx, p):
    from rebulk import rules as r
    from rebulk.rebulk import Rebulk

    kind = ctx.choice("change", ["rename", "append tag", "remove tag", "crop", "revalue", "remove", "append", "children", "own tags"])
    source = ctx.choice("source", ["functional", "regex", "two of one pattern"])
    s, e = spans_for(ctx, p, 0)
    tags = ["t", "u"]
    extra = ["new"]

    def then(self, matches, when_response, context):
        for m in when_response:
            if kind == "crop":
                m.start += 1
            elif kind == "revalue":
                m.value = "revalued"
            elif kind == "children":
                m.children.clear()
            elif kind == "own tags":
                m.tags.append("own")

    cons = {"rename": r.RenameMatch("z"), "append tag": r.AppendTags(extra), "remove tag": r.RemoveTags(["t"]), "remove": r.RemoveMatch(), "append": r.AppendMatch("z")}.get(kind)

    def when(self, matches, context):
        found = list(matches)[:1]
        if kind == "append":
            from rebulk.match import Match

            return [Match(0, 1, name="x", input_string=matches.input_string)]
        return found

    body = {"when": when, "__module__": "x"}
    if cons is not None:
        body["consequence"] = cons
    else:
        body["then"] = then
    cls = type("R", (r.Rule,), body)
    rb = Rebulk().rules(cls if ctx.flag("as class") else cls())
    if source == "regex":
        rb.regex(FakeRegex(["g"], [((s, e), [[(s, e)]])]), name="n", tags=tags, every=True)
    elif source == "functional":
        rb.functional(lambda t: {"start": s, "end": e, "name": "d"}, name="n", tags=tags)
    else:
        spans = [(s, e), (p.hi + 1, p.hi + 3)]
        rb.functional(lambda t: spans, name="n", tags=tags)
    text = "abcdefghijkl"
    results = []
    for turn in range(3):
        if turn == 1 and ctx.flag("other text between"):
            rb.matches("x" + text)
        res = rb.matches(text)
        results.append(snapshot(ctx, res))
        ctx.check(tags == ["t", "u"] and extra == ["new"], "configuration unchanged")
    for got in results[1:]:
        ctx.check(same(ctx, got, results[0]), "the same again", (results[0], got))
    ctx.cover(kind)


@harness("C37", "texts", quick=dict(n=3), thorough=dict(n=4), cover=["differ"],
         about="strings, functions and chains over any two texts: the second text gives what a fresh rebulk gives")
def texts(ctx, p):
    from rebulk.rebulk import Rebulk

    which = ctx.choice("which", ["string", "ignore case", "overlapping", "conflicts"])

    def make():
        rb = Rebulk()
        if which == "string":
            rb.string("a", name="n", tags=["t"]).string("ab", name="m")
        elif which == "ignore case":
            rb.string("A", "b", ignore_case=True, name="n")
        elif which == "overlapping":
            rb.string("aa", name="n", tags=["t"]).string("ba", name="n")
        else:
            rb.string("ab", name="n", value=5).string("b", name="m", conflict_solver=lambda m, c: m).string("a", name="a", marker=True)
        return rb

    used = make()
    t1, t2 = ctx.string("t1", "ab", 0, p.n), ctx.string("t2", "ab", 0, p.n)
    first = used.matches(t1)
    if ctx.flag("spoiled"):
        spoil(first)
    got = snapshot(ctx, used.matches(t2))
    want = snapshot(ctx, make().matches(t2))
    ctx.check(same(ctx, got, want), "the same as with objects never used", (got, want))
    ctx.cover("differ", len(first) != len(got[0]))


@harness("C37", "objects", quick=dict(), cover=["regex dict", "abbreviations", "returned dict", "literal list", "callbacks"],
         about="objects given by the caller - pattern dicts, abbreviations, dicts and lists returned by functions, literal values, context - are never changed")
def objects(ctx, p):
    from rebulk.rebulk import Rebulk

    kind = ctx.choice("kind", ["regex dict", "regex tuple", "abbreviations", "returned dict", "returned list", "literal list", "callbacks", "shared pattern"])
    a, b = ctx.int("a", 0, 3), ctx.int("b", 4, 7)
    context = {"deep": ["x"], "n": 1}
    text = "abc-def abc"
    rb = Rebulk()
    objs = []
    if kind == "regex dict":
        objs = [{"pattern": r"c-d(?P<g>e)", "flags": 0}]
        rb.regex(objs[0], name="n", abbreviations=[("-", "[ -]")], every=True)
    elif kind == "regex tuple":
        objs = [[r"c-d"]]
        rb.regex(objs[0], name="n")
    elif kind == "abbreviations":
        objs = [[("-", "[ -]")], {"g": lambda s: s}]
        rb.regex("c-(?P<g>d)", abbreviations=objs[0], formatter=objs[1], children=True)
    elif kind == "returned dict":
        objs = [{"start": a, "end": b, "name": "d", "tags": ["t"], "value": [1]}]
        rb.functional(lambda s: objs[0], tags=["u"])
    elif kind == "returned list":
        objs = [[{"start": a, "end": b, "tags": ["t"]}, (8, 9), (9, 10)]]
        rb.functional(lambda s: objs[0], name="n", tags=["u"])
    elif kind == "literal list":
        objs = [["l"], {"n": ["m"]}]
        rb.functional(lambda s: (a, b), name="n", value=objs[1]).string("abc", name="n", value=objs[0])
    elif kind == "callbacks":
        objs = [["p"]]
        rb.functional(lambda s: (a, b), name="n", tags=objs[0], pre_match_processor=lambda m: m, post_match_processor=lambda m: m, post_processor=lambda ms, pat: ms, validator={"n": lambda m: True})
    else:
        objs = [["p"]]
        rb.string("abc", name="n", tags=objs[0])
        Rebulk().pattern(*rb.effective_patterns()).matches(text, {"q": 1})

    def frozen(x):
        if isinstance(x, dict):
            return [(k, frozen(v)) for k, v in x.items()]
        if isinstance(x, (list, tuple)):
            return [frozen(v) for v in x]
        return x

    before = [frozen(o) for o in objs]
    results = []
    for _turn in range(2):
        res = rb.matches(text, context)
        results.append([snapshot(ctx, res), frozen(res.to_dict(enforce_list=ctx.flag("enforce list")) if _turn == 0 else {})][:1])
        if ctx.flag("details") if _turn == 0 else False:
            res.to_dict(details=True, first_value=True)
        for m in list(res):
            m.tags.append("spoiled")
            m.name = "spoiled"
            m.value = None
        ctx.check(context == {"deep": ["x"], "n": 1}, "context unchanged")
        ctx.check(same(ctx, [frozen(o) for o in objs], before), "objects of the caller unchanged", (objs, before))
    ctx.check(same(ctx, results[0], results[1]), "the same again", results)
    ctx.cover(kind)


@harness("C37", "options", quick=dict(hi=4, forms=5), thorough=dict(hi=6, forms=8), cover=["options first", "options later", "dict"],
         about="functions returning options for some elements and texts only: the other elements and later calls do not get them")
def options(ctx, p):
    from rebulk.rebulk import Rebulk

    forms = ["plain", "options", "value and options", "dict", "nothing", "value", "options tags", "dict tags"][: p.forms]

    def element(k, where):
        s, e = (ctx.int("s", 0, p.hi), ctx.int("e", 0, p.hi)) if where == "a" and k == 0 else (1 + k, 3)
        ctx.assume(s < e)
        f = ctx.choice(f"{where}{k}", forms)
        return f, {"plain": (s, e), "options": (s, e, {"name": "opt", "value": 5, "private": k > 0}), "value and options": (s, e, 7, {"name": "opt"}), "nothing": None,
                   "dict": {"start": s, "end": e, "name": "opt", "marker": k > 0}, "value": (s, e, 9), "options tags": (s, e, {"tags": ["x"]}), "dict tags": {"start": s, "end": e, "tags": ["x"], "value": 3}}[f]

    one = [element(k, "a") for k in range(2)]
    other = [element(0, "b")]
    opts = {"name": "n", "tags": ["t"]} if ctx.flag("pattern options") else {}

    def make():
        def fn(s):
            return [x for _, x in (one if s == TEXTS[0] else other) if x is not None]

        return Rebulk(default_rules=False).functional(fn, **opts)

    used = make()
    first = snapshot(ctx, used.matches(TEXTS[0]))
    second = snapshot(ctx, used.matches(TEXTS[1]))
    again = snapshot(ctx, used.matches(TEXTS[0]))
    ctx.check(same(ctx, second, snapshot(ctx, make().matches(TEXTS[1]))), "the same as with objects never used", second)
    ctx.check(same(ctx, first, again), "the same again", (first, again))
    # an element is what it is alone
    for f, x in one:
        if x is not None:
            alone = Rebulk(default_rules=False).functional((lambda y: lambda s: [y])(x), **opts).matches(TEXTS[0])
            for m in list(alone) + list(alone.markers):
                found = [z for z in first[0] + first[1] if same(ctx, z[:8], state(ctx, m)[:8])]
                ctx.check(len(found) > 0, "an element is what it is alone", (state(ctx, m), first))
    ctx.cover("options first", one[0][0] == "options" and one[1][0] == "plain")
    ctx.cover("options later", one[0][0] == "plain" and one[1][0] == "value and options")
    ctx.cover("dict", one[0][0] == "dict" and other[0][0] == "plain")


@harness("C37", "contexts", quick=dict(), cover=["on then off", "off then on"], about="parts enabled for one call only leave nothing behind: patterns, rules, keys of children, rule enablement, introspection and check_keys in between")
def contexts(ctx, p):
    from rebulk.introspector import introspect
    from rebulk.key import Key
    from rebulk.rebulk import Rebulk
    from rebulk.rules import RenameMatch, Rule

    t = [ctx.int(f"t{k}", 0, 3) for k in range(3)]

    class Child(Rule):
        consequence = RenameMatch("renamed")

        def when(self, matches, context):
            return matches.named("a")

    class Own(Rule):
        consequence = RenameMatch("own")
        dependency = Child

        def enabled(self, context):
            return bool(context["v"] >= t[2])

        def when(self, matches, context):
            return matches.named("b")

    def make():
        child = Rebulk(disabled=lambda c: bool((c or {"v": 0})["v"] < t[0])).regex("(?P<b>b)", children=True).rules(Child).declare_keys(Key("b", str), Key("late", int))
        other = Rebulk(disabled=lambda c: bool((c or {"v": 0})["v"] >= t[1])).string("c", name="c")
        return Rebulk().string("a", name="a").rebulk(child, other).rules(Own).declare_keys(Key("a", str))

    def result(rb, v):
        r = rb.matches("abc", {"v": v})
        return snapshot(ctx, r) + [sorted(r.declared_keys)]

    used = make()
    v = [ctx.int(f"v{k}", 0, 3) for k in range(2)]
    used.matches("cab", {"v": v[0]})
    between = ctx.choice("between", ["nothing", "introspect", "check_keys", "effective"])
    if between == "introspect":
        introspect(used, {"v": v[0]}).properties
    elif between == "check_keys":
        used.check_keys()
    elif between == "effective":
        used.effective_keys({"v": v[0]}).clear()
        used.effective_rules({"v": v[0]}).clear()
        used.effective_patterns({"v": v[0]}).clear()
    got, want = result(used, v[1]), result(make(), v[1])
    ctx.check(same(ctx, got, want), "the same as with objects never used", (got, want))
    ctx.check(sorted(used.effective_keys({"v": v[1]})) == sorted(make().effective_keys({"v": v[1]})), "keys")
    ctx.check(len(used.effective_rules({"v": v[1]})) == len(make().effective_rules({"v": v[1]})), "rules")
    ctx.check(len(used.effective_patterns({"v": v[1]})) == len(make().effective_patterns({"v": v[1]})), "patterns")
    ctx.cover("on then off", ctx.And(v[0] >= t[0], v[1] < t[0]))
    ctx.cover("off then on", ctx.And(v[0] < t[0], v[1] >= t[0]))
