"""C32, C33, C34: enablement, declared keys nothing produces, introspection."""
from symx.api import harness
from props._common import answer, is_in, same_list


def gate(ctx, name, how, level, seen):
    """disabled= of a part: a flag, or a function comparing a number of the context; (argument, is it disabled)."""
    if how == "flag":
        d = ctx.flag(f"off {name}")
        return d, d
    if how == "truthy":
        d = ctx.flag(f"off {name}")
        return (lambda context: seen.append(context) or answer(d, len(name))), d
    t = ctx.int(f"t {name}", 0, 3)

    def fn(context):
        seen.append(context)
        return bool(context["level"] >= t)

    return fn, level >= t


def recorder(events, label):
    from rebulk.rules import CustomRule

    def when(self, matches, context):
        events.append((label, [m.name for m in matches], context))

    return type("R" + label, (CustomRule,), {"when": when, "then": lambda *a: None, "__module__": "x"})


@harness("C32", "rebulks", quick=dict(children=2, patterns=1), thorough=dict(children=2, patterns=2), cover=["all on", "root off", "child off", "pattern off", "twice"],
         about="a rebulk and its children, any part disabled by flag or by any function of the context")
def rebulks(ctx, p):
    from rebulk.key import Key
    from rebulk.rebulk import Rebulk

    how = ctx.choice("how", ["flag", "truthy", "function"])
    level = ctx.int("level", 0, 2)
    seen, events = [], []
    n = p.children + 1
    rbs, off, pats, names = [], [], [], []
    pos = 0
    default_rules = ctx.flag("default rules")
    for k in range(n):
        arg, d = gate(ctx, f"rebulk{k}", how, level, seen)
        rb = Rebulk(disabled=arg, default_rules=default_rules)
        rbs.append(rb), off.append(d), pats.append([]), names.append([])
        for i in range(p.patterns if k else 2):
            parg, pd = gate(ctx, f"pattern{k}{i}", how, level, seen)
            name = f"p{k}{i}"
            (rb.string if i == 0 else rb.regex)("abcdefghij"[pos], name=name, disabled=parg)
            pats[k].append((rb.effective_patterns({"level": 9})[i], pd, pos, name))
            pos += 1
        rb.rules(recorder(events, str(k)))
        rb.declare_keys(Key(f"k{k}", str), Key("shared", str, (lambda s, k=k: (k, s))))
    root = rbs[0]
    twice = ctx.flag("first child twice")
    for c in rbs[1:] + (rbs[1:2] if twice else []):
        root.rebulk(c)
    context = {"level": level}
    given = dict(context)
    live = [k for k in range(n) if k == 0 or not off[k]]
    # what is in effect, the root's own enablement aside
    same_list(ctx, root.effective_patterns(context), [x[0] for k in live for x in pats[k]], "effective patterns")
    keys = root.effective_keys(context)
    ctx.check(sorted(keys) == sorted([f"k{k}" for k in live] + ["shared"]), "effective keys", sorted(keys))
    ctx.check(keys["shared"].converter("x") == (0, "x"), "the key of the parent wins")
    seen.clear()
    events.clear()
    res = root.matches("abcdefghij", context)
    ctx.check(context == given, "context unchanged")
    ctx.check(all(c is context for c in seen), "the context of the call is asked about")
    got = [(m.start, m.name) for m in res]
    if off[0]:
        ctx.check(got == [] and events == [] and not res.declared_keys, "a disabled rebulk yields nothing")
        ctx.cover("root off")
        return
    on = [(x[2], x[3]) for k in live for x in pats[k] if not x[1]]
    ctx.check(got == on, "exactly the enabled patterns yield, in order", (got, on))
    ctx.check([e[0] for e in events] == [str(k) for k in live], "exactly the rules of enabled rebulks run, once and in order", events)
    ctx.check(all(e[1] == [nm for _, nm in on] and e[2] is context for e in events), "rules see the matches and the context")
    ctx.check(sorted(res.declared_keys) == sorted(keys), "declared keys")
    ctx.cover("all on", len(live) == n and len(on) == sum(map(len, pats)))
    ctx.cover("child off", len(live) < n)
    ctx.cover("pattern off", len(on) < sum(len(pats[k]) for k in live))
    ctx.cover("twice", twice)


@harness("C32", "kinds", quick=dict(), cover=["on", "off"], about="a disabled pattern of any kind, marker or not, alone or shared by two children, yields nothing; with and without a context")
def kinds(ctx, p):
    from rebulk.rebulk import Rebulk

    kind = ctx.choice("kind", ["string", "regex", "functional", "chain"])
    marker = ctx.flag("marker")
    v, t = ctx.int("v", 0, 3), ctx.int("t", 0, 3)
    seen, calls = [], []
    as_function = ctx.flag("function")
    no_context = ctx.flag("no context")

    def fn(context):
        seen.append(context)
        return answer(bool((0 if no_context else context["v"]) >= t), form)

    form = ctx.pick("answer", 0, 5)
    off = bool((0 if no_context else v) >= t) if as_function else ctx.flag("disabled")
    opts = {"disabled": fn if as_function else off, "marker": marker, "name": "n"}
    rb = Rebulk()
    if kind == "string":
        rb.string("b", **opts)
    elif kind == "regex":
        rb.regex("b", **opts)
    elif kind == "functional":
        rb.functional(lambda s: calls.append(s) or (1, 2), **opts)
    else:
        rb.chain(**opts).string("b", name="part").close()
    shared = ctx.flag("shared by two children")
    root = rb
    if shared:
        other = Rebulk().pattern(*rb.effective_patterns())
        root = Rebulk().rebulk(rb, other)
    context = None if no_context else {"v": v}
    res = root.matches("abc", context)
    got = res.markers if marker else res
    ctx.check([(m.start, m.end, m.name) for m in got] == ([] if off else [(1, 2, "n")]) and len(res.markers if not marker else res) == 0, "matches", (list(res), list(res.markers)))
    ctx.check(len(calls) == (1 if kind == "functional" and not off else 0), "the function of a disabled pattern is not called")
    if as_function:
        ctx.check(len(seen) > 0 and all(c == {} if no_context else c is context for c in seen), "asked with the context of the call", seen)
    ctx.cover("off" if off else "on")


@harness("C32", "calls", quick=dict(), cover=["differ"], about="enablement is evaluated anew with the context of each call")
def calls(ctx, p):
    from rebulk.rebulk import Rebulk

    t = [ctx.int(f"t{k}", 0, 3) for k in range(3)]
    events = []
    child = Rebulk(disabled=lambda c: bool(c["v"] >= t[1])).string("b", name="b").rules(recorder(events, "c"))
    root = Rebulk(disabled=lambda c: bool(c["v"] >= t[0])).string("a", name="a", disabled=lambda c: bool(c["v"] >= t[2])).rebulk(child)
    results = []
    for k in range(2):
        v = ctx.int(f"v{k}", 0, 3)
        events.clear()
        res = [m.name for m in root.matches("ab", {"v": v})]
        root_on, child_on, a_on = bool(v < t[0]), bool(v < t[1]), bool(v < t[2])
        want = ["a"] * (root_on and a_on) + ["b"] * (root_on and child_on)
        ctx.check(res == want, "matches of this call", (res, want))
        ctx.check(len(events) == (1 if root_on and child_on else 0), "rules of this call")
        results.append(want)
    ctx.cover("differ", results[0] != results[1])


@harness("C32", "contexts", quick=dict(), cover=["empty", "none", "on", "off"], about="any context, empty or absent included, reaches every enablement function of patterns, rebulks and rules as it is")
def contexts(ctx, p):
    from rebulk.rebulk import Rebulk
    from rebulk.rules import CustomRule

    form = ctx.choice("context", ["none", "empty", "falsy values", "some", "own class"])
    v, t = ctx.int("v", 0, 3), ctx.int("t", 0, 3)

    class Context(dict):
        def __bool__(self):
            return False

    context = {"none": None, "empty": {}, "falsy values": {"v": 0, "w": None}, "some": {"v": v}, "own class": Context(v=v)}[form]
    before = dict(context or {})
    seen, ran = [], []

    def off(where):
        def disabled(c):
            seen.append((where, c))
            return bool((c["v"] if "v" in c else 0) > t)

        return disabled

    def enabled(self, c):
        seen.append(("enabled", c))
        return True

    rule = type("R", (CustomRule,), {"enabled": enabled, "when": lambda self, m, c: seen.append(("when", c)) or [1], "then": lambda self, m, r, c: ran.append(c), "__module__": "x"})
    child = Rebulk(disabled=off("child"), default_rules=False).string("b", name="b", disabled=off("child pattern")).rules(rule)
    if ctx.flag("second child"):
        Rebulk(disabled=off("other")).string("c")
    root = Rebulk(disabled=off("root")).string("a", name="a", disabled=off("pattern")).functional(lambda s, context: seen.append(("function", context)), disabled=off("function pattern")).rebulk(child)
    res = [m.name for m in (root.matches("ab") if context is None and ctx.flag("not given") else root.matches("ab", context))]
    for where, c in seen:
        ctx.check(c == {} if context is None else c is context, "the context of the call", (where, c))
    level = {"none": 0, "empty": 0, "falsy values": 0}.get(form, v)
    if level > t:
        ctx.check(res == [] and not ran and [w for w, _ in seen if w != "root"] == [], "nothing of a disabled rebulk is looked at", seen)
        ctx.cover("off")
        return
    ctx.check(res == ["a", "b"] and len(ran) == 1 and (ran[0] == {} if context is None else ran[0] is context), "everything takes effect", (res, ran))
    ctx.check({w for w, _ in seen} == {"root", "child", "pattern", "child pattern", "function pattern", "function", "enabled", "when"}, "all asked", seen)
    ctx.check(dict(context or {}) == before, "context unchanged")
    ctx.cover("empty" if form == "empty" else "none" if context is None else "on")


@harness("C32", "parts", quick=dict(), thorough=dict(), cover=["rules only", "keys only", "empty child", "off"], about="a child with any of patterns, rules and declared keys (none, one or all of them)")
def parts(ctx, p):
    from rebulk.key import Key
    from rebulk.rebulk import Rebulk

    level, t = ctx.int("level", 0, 2), ctx.int("t", 0, 3)
    events = []
    has = {k: [ctx.flag(f"{k} of {w}") for w in ("root", "child", "second")] for k in ("pattern", "rule", "key")}
    rbs = [Rebulk(), Rebulk(disabled=lambda c: bool(c["level"] >= t)), Rebulk()]
    for k, rb in enumerate(rbs):
        if has["pattern"][k]:
            rb.string("abc"[k], name="abc"[k])
        if has["rule"][k]:
            rb.rules(recorder(events, str(k)))
        if has["key"][k]:
            rb.declare_keys(Key(f"k{k}", str))
    root = rbs[0].rebulk(*rbs[1:])
    live = [0, 2] if level >= t else [0, 1, 2]
    res = root.matches("abc", {"level": level})
    ctx.check([m.name for m in res] == ["abc"[k] for k in live if has["pattern"][k]], "patterns", [m.name for m in res])
    ctx.check([e[0] for e in events] == [str(k) for k in live if has["rule"][k]], "rules", events)
    ctx.check(sorted(res.declared_keys) == [f"k{k}" for k in live if has["key"][k]], "keys", sorted(res.declared_keys))
    ctx.cover("rules only", has["rule"][1] and not has["pattern"][1] and 1 in live)
    ctx.cover("keys only", has["key"][1] and not has["pattern"][1] and not has["rule"][1])
    ctx.cover("empty child", not any(v[1] for v in has.values()))
    ctx.cover("off", 1 not in live)


# -- C33 ------------------------------------------------------------------------------------------------------------
STEPS = ["root pattern", "child pattern", "root rule", "child rule", "root key", "child key", "child added", "other child added"]


def grown(ctx, order, asked, asks):
    """A rebulk and its children built in this order, asked after some of the steps; answers of the last asks."""
    from rebulk.introspector import introspect
    from rebulk.key import Key
    from rebulk.rebulk import Rebulk

    events = []
    child = Rebulk(disabled=lambda c: bool((c or {}).get("off")), default_rules=False).string("c", name="c")
    other = Rebulk(default_rules=False).string("d", name="d").declare_keys(Key("zz", str))
    root = Rebulk(default_rules=False).rebulk(other) if "other child added" not in order else Rebulk(default_rules=False)
    acts = {
        "root pattern": lambda: root.string("a", name="a"), "child pattern": lambda: child.string("b", name="b", properties={"pp": ["v"]}),
        "root rule": lambda: root.rules(recorder(events, "root")), "child rule": lambda: child.rules(recorder(events, "child")),
        "root key": lambda: root.declare_keys(Key("a", str, lambda x: x * 2), Key("typo", str)),
        "child key": lambda: child.declare_keys(Key("b", str, lambda x: x * 3), Key("pp", str), Key("lost", str)),
        "child added": lambda: root.rebulk(child), "other child added": lambda: root.rebulk(other),
    }

    def answers():
        out = []
        for context in ({}, {"off": 1}):
            if "matches" in asks:
                del events[:]
                res = root.matches("abcd", dict(context))
                out.append([(m.start, m.end, m.name, m.value) for m in res])
                out.append([(e[0], e[1]) for e in events])
                out.append(sorted(res.declared_keys))
            if "effective" in asks:
                out += [[x.name for x in root.effective_patterns(context)], len(root.effective_rules(context)), sorted(root.effective_keys(context))]
            if "introspect" in asks:
                i = introspect(root, context)
                out += [{k: list(v) for k, v in i.properties.items()}, [dict(x.properties) for x in i.patterns], len(i.rules)]
        if "check" in asks:
            out += [root.check_keys(), root.check_keys(allowed_unused="typo")]
        return out

    for k, step in enumerate(order):
        acts[step]()
        if k in asked:
            answers()
    return answers()


def grows(ctx, asks):
    order = [x for x in STEPS if ctx.flag(x)]
    if ctx.flag("reversed"):
        order.reverse()
    asked = [k for k in range(len(order) - 1) if ctx.flag(f"asked {k}")] if len(order) < 5 else [ctx.pick("asked once", 0, len(order) - 2)]
    got, want = grown(ctx, order, asked, asks), grown(ctx, order, [], asks)
    ctx.check(got == want, "as if never asked before", (got, want))
    ctx.cover("asked", bool(asked))


@harness("C32", "grows", quick=dict(), cover=["asked"],
         about="patterns, rules, keys and children added to a rebulk or its child before and after it was asked, with contexts enabling the child or not: as if never asked before")
def c32_grows(ctx, p):
    grows(ctx, ["matches", "effective"])


@harness("C33", "grows", quick=dict(), cover=["asked"], about="check_keys asked again after the rebulk or its child has grown")
def c33_grows(ctx, p):
    grows(ctx, ["check"])


@harness("C34", "grows", quick=dict(), cover=["asked"], about="introspection asked again after the rebulk or its child has grown, or with another context")
def c34_grows(ctx, p):
    grows(ctx, ["introspect"])


@harness("C33", "sources", quick=dict(full=0), thorough=dict(full=1), cover=["none", "some", "chain", "nested", "child", "private", "allowed"],
         about="two pattern sources anywhere, any names declared at root and child, any allowed names")
def sources(ctx, p):
    from rebulk.key import Key
    from rebulk.rebulk import Rebulk

    names = ["b", "a", "c"]
    off = ctx.flag("off")
    root, child = Rebulk(disabled=off and p.full), Rebulk(disabled=off)
    produced = set()
    rb = [root, child]
    for k in range(2):
        kind = ctx.choice(f"source{k}", ["none", "string"] if k and not p.full else ["none", "string", "group", "properties", "chain", "chain name", "chain properties", "nested", "functional", "no name", "second regex", "hidden part", "optional part", "name and properties"])
        name = ctx.choice(f"name{k}", ["a", "b"]) if k == 0 or p.full else "b"
        where = rb[ctx.pick(f"where{k}", 0, 1)] if k == 0 or p.full else child
        opts = ctx.choice(f"opts{k}", [{}, {"private": True}, {"marker": True}, {"disabled": True}, {"private_names": ["a", "b"]}]) if k == 0 and (p.full or kind in ("string", "group")) else {}
        if kind == "none":
            continue
        if kind == "string":
            where.string("x", name=name, **opts)
        elif kind == "group":
            where.regex(f"(?P<{name}>x)", **opts)
        elif kind == "second regex":
            where.regex("y", f"z(?P<{name}>x)(w)", name="other", **opts)
        elif kind == "properties":
            where.regex("x", name="other", properties={name: ["v"]}, **opts)
        elif kind == "chain":
            where.chain(**opts).string("y").regex(f"(?P<{name}>x)").close()
        elif kind == "chain name":
            where.chain(name=name, **opts).string("y", name="other").close()
        elif kind == "chain properties":
            where.chain(name="other", **opts).string("y", properties={name: [None]}).close()
        elif kind == "nested":
            where.chain(**opts).string("y").chain().string("z", name=name).close()
        elif kind == "hidden part":
            where.chain(**opts).string("y").string("z", name=name).hidden().close()
        elif kind == "optional part":
            where.chain(**opts).string("y").regex(f"(?P<{name}>z)").repeater("*").close()
        elif kind == "name and properties":
            where.regex("x(?P<h>y)", name=name, properties={"other": ["v"]}, **opts)
        elif kind == "functional":
            where.functional(lambda s: None, name=name, **opts)
        else:
            where.string("x", **opts)
            continue
        produced.add(name)
        ctx.cover("chain", kind == "chain")
        ctx.cover("nested", kind == "nested")
        ctx.cover("child", where is child)
        ctx.cover("private", "private" in opts)
    root.rebulk(child)
    declared = set()
    for x in names[:2]:
        for where in ctx.choice(f"declared {x}", [[], [root], [child], rb][: 4 if p.full else 3]):
            where.declare_keys(Key(x, str))
            declared.add(x)
    if ctx.flag("declared c"):
        root.declare_keys(Key("c d", int))
        declared.add("c d")
    allowed = ctx.choice("allowed", [(), "a", ["a", "c d"], {"c d"}, "c d", "abc"])
    allow = [allowed] if isinstance(allowed, str) else allowed
    got = root.check_keys(allowed_unused=allowed) if allowed != () else root.check_keys()
    want = sorted(x for x in declared if x not in produced and x not in allow)
    ctx.check(got == want, "names nothing produces", (got, want))
    ctx.check(root.check_keys(allowed_unused=allowed) == want, "the same when asked again")
    ctx.cover("none", not want and len(declared) > 0)
    ctx.cover("some", len(want) == 2)
    ctx.cover("allowed", "c d" in declared and "c d" not in got)


@harness("C33", "levels", quick=dict(), cover=["asked", "grandchild", "generator"], about="a rebulk, two children and a grandchild: keys and patterns of the rebulk and its direct children count, those further down do not; any iterable of allowed names")
def levels(ctx, p):
    from rebulk.key import Key
    from rebulk.rebulk import Rebulk

    names = ["b", "a"]
    bulks = [Rebulk() for _ in range(4)]
    root, first, second, grand = bulks
    first.rebulk(grand)
    root.rebulk(first, second)
    declared, produced = set(), set()
    for x in names:
        for label, add, into in (("key", lambda w: w.declare_keys(Key(x, str)), declared), ("pattern", lambda w: w.string("x", name=x), produced)):
            k = ctx.choice(f"{label} {x}", [None, 0, 1, 2, 3])
            if k is not None:
                add(bulks[k])
                if k < 3:
                    into.add(x)
                else:
                    ctx.cover("grandchild")
    allowed = ctx.choice("allowed", [[], ["a"], ["b"]])
    form = ctx.choice("form", ["tuple", "generator", "dict", "frozenset"]) if allowed else "tuple"
    given = {"tuple": tuple(allowed), "generator": (x for x in allowed), "dict": dict.fromkeys(allowed), "frozenset": frozenset(allowed)}[form]
    got = root.check_keys(allowed_unused=given)
    want = sorted(x for x in declared if x not in produced and x not in allowed)
    ctx.check(got == want, "names nothing produces", (got, want))
    ctx.cover("asked", len(want) == 2)
    ctx.cover("generator", form == "generator" and len(want) == 1)


# -- C34 ------------------------------------------------------------------------------------------------------------
def merged(items):
    out = {}
    for key, values in items:
        lst = out.setdefault(key, [])
        for v in values:
            if v not in lst:
                lst.append(v)
    return out


@harness("C34", "patterns", quick=dict(), cover=["properties", "values", "strings", "regex", "hidden"], about="one pattern of any kind with any declarations: its description and the report")
def patterns(ctx, p):
    from rebulk.introspector import introspect
    from rebulk.pattern import FunctionalPattern, RePattern, StringPattern
    from rebulk.rebulk import Rebulk

    kind = ctx.choice("kind", ["string", "regex", "functional", "chain"])
    opts = {}
    v1, v2 = ctx.int("v1", 1, 3), ctx.int("v2", 1, 3)
    if ctx.flag("named"):
        opts["name"] = "n"
    props = ctx.choice("properties", [None, "one", "two", "empty"])
    if props is not None:
        opts["properties"] = {"one": {"q": [v1, v2]}, "two": {"q": [v1], "n": [None]}, "empty": {}}[props]
    vals = ctx.choice("value", [None, "plain", "dict", "falsy"])
    if vals is not None:
        opts["value"] = {"plain": v1, "dict": {"w": v1, "n": v2}, "falsy": {"w": ctx.choice("falsy", [0, "", False, []]), "n": v2}}[vals]
    pn = ctx.subset("private", ["n", "g"])
    if pn:
        opts["private_names"] = pn
    hidden = ctx.choice("hidden", [None, "private", "marker"])
    if hidden:
        opts[hidden] = True
    pc = ctx.flag("private children")
    if pc:
        opts["private_children"] = True
    if props is None and vals is None and not hidden:
        opts.update(ctx.choice("returned", [{}, {"children": True}, {"every": True}, {"private_parent": True}, {"ignore_names": ["n", "g"]}]))
    rb = Rebulk()
    name = opts.get("name")
    base = {}
    own = kind != "chain" and ctx.flag("own class")
    if own:
        cls, args = {"string": (StringPattern, ("s1", "s2", "s1")), "regex": (RePattern, ("(?P<g>a)(b)(?P<h>c)", "(?P<g>a)(?P<i>x)")), "functional": (FunctionalPattern, (lambda s: None,))}[kind]
        rb.pattern(type("Own", (cls,), {})(*args, **opts))
    if kind == "string":
        own or rb.string("s1", "s2", "s1", **opts)
        base = {name: ["s1", "s2"]}
    elif kind == "regex":
        own or rb.regex("(?P<g>a)(b)(?P<h>c)", "(?P<g>a)(?P<i>x)", **opts)
        base = {x: [None] for x in ([name] if name else []) + ([] if pc else ["g", "h", "i"]) if x not in pn}
    elif kind == "functional":
        own or rb.functional(lambda s: None, **opts)
        base = {name: [None]} if name and name not in pn else {}
    else:
        rb.chain(**opts).string("a", name="part").close()
    copies = {k: (dict(v) if isinstance(v, dict) else v) for k, v in opts.items()}
    res = introspect(rb)
    if hidden:
        ctx.check(len(res.patterns) == 0 and dict(res.properties) == {}, "private patterns and markers are not reported")
        ctx.cover("hidden")
        return
    if props in ("one", "two"):
        want = merged(opts["properties"].items())
        ctx.cover("properties")
    elif vals == "plain":
        want = {name: [v1]}
        ctx.cover("values")
    elif vals == "dict":
        want = {"w": [v1], "n": [v2]}
    elif vals == "falsy":
        want = {k: [v] for k, v in opts["value"].items()}
    else:
        want = base
        ctx.cover("strings" if kind == "string" else kind)
    ctx.check(len(res.patterns) == 1 and res.patterns[0].pattern is rb.effective_patterns()[0], "the pattern is described")
    for got in (res.patterns[0].properties, res.properties):
        ctx.check(list(got) == list(want), "names", (list(got), list(want)))
        for k in want:
            ctx.check(len(got[k]) == len(want[k]) and all(x == y for x, y in zip(got[k], want[k])), "values", (k, got[k], want[k]))
    ctx.check(all(opts[k] == copies[k] for k in opts), "the options are left unchanged")


@harness("C34", "report", quick=dict(full=0), thorough=dict(full=1), cover=["merged", "child off", "rules"], about="several patterns and rules of a rebulk and its children: what is covered and how it is merged")
def report(ctx, p):
    from rebulk.introspector import introspect
    from rebulk.rebulk import Rebulk
    from rebulk.rules import CustomRule

    level = ctx.int("level", 0, 3)
    t = ctx.int("t", 0, 3)
    as_function = ctx.flag("function")
    off = bool(level >= t) if as_function else ctx.flag("child off")
    root, child = Rebulk(default_rules=False), Rebulk(disabled=(lambda c: bool(c["level"] >= t)) if as_function else off, default_rules=False)
    items, descs = [], []
    objs = []
    vals = [ctx.int(f"v{k}", 1, 2 + p.full) for k in range(3)]
    for k in range(3):
        rb = root if k < 2 else child
        hid = ctx.choice(f"hidden{k}", [{}, {"private": True}, {"marker": True}] if k == 1 or p.full else [{}, {"marker": True}]) if k else {}
        name = ctx.choice(f"name{k}", ["a", "b"]) if k or p.full else "a"
        props = {name: [vals[k], None]}
        if ctx.flag(f"values{k}") if k < 2 or p.full else False:
            rb.functional(lambda s: None, name=name, value=vals[k], **hid)
            props = {name: [vals[k]]}
        else:
            rb.string("z", name="zz", properties=props, **hid)
        if not hid and (rb is root or not off):
            items += props.items()
            descs.append(props)
            objs.append(rb.effective_patterns()[-1])
    rules = []
    for k in range(2):
        rp = ctx.choice(f"rule{k}", [None, {"a": [None]}, {"r": ["x", "x"], "b": [2]}][1 - p.full:] if k else [None, {"a": [None]}, {"r": ["x", "x"], "b": [2]}])
        cls = type(f"R{k}", (CustomRule,), {"when": lambda *a: None, "then": lambda *a: None, "__module__": "x", "enabled": lambda *a, on=ctx.flag(f"rule{k} on"): on, **({"properties": rp} if rp else {})})
        (child if k else root).rules(cls)
        if not k or not off:
            rules.append((cls, rp or {}))
            items += (rp or {}).items()
    root.rebulk(child)
    res = introspect(root, {"level": level})
    same_list(ctx, [d.pattern for d in res.patterns], objs, "patterns")
    ctx.check([type(d.rule) for d in res.rules] == [c for c, _ in rules], "rules")
    for d, (_c, rp) in zip(res.rules, rules):
        ctx.check({k: list(v) for k, v in d.properties.items()} == {k: list(dict.fromkeys(v)) for k, v in rp.items()}, "properties of a rule")
    for d, props in zip(res.patterns, descs):
        ctx.check({k: list(v) for k, v in d.properties.items()} == {k: list(v) for k, v in props.items()}, "properties of a pattern")
    want, got = merged(items), res.properties
    ctx.check(list(got) == list(want), "names of the report", (list(got), list(want)))
    for k in want:
        ctx.check(len(got[k]) == len(want[k]) and all(x == y for x, y in zip(got[k], want[k])), "values of the report", (k, got[k], want[k]))
    again = res.properties
    ctx.check({k: list(v) for k, v in again.items()} == {k: list(v) for k, v in got.items()}, "the same when asked again")
    ctx.cover("merged", any(len(v) >= 3 for v in want.values()))
    ctx.cover("child off", off)
    ctx.cover("rules", len(rules) == 2 and all(r for _, r in rules))


@harness("C34", "levels", quick=dict(), cover=["context on", "context off", "grandchild", "rule"],
         about="patterns and rules of the rebulk, of two children enabled by flag or by the context given, and of a grandchild, which takes no part")
def levels34(ctx, p):
    from rebulk.introspector import introspect
    from rebulk.rebulk import Rebulk
    from rebulk.rules import CustomRule

    context = ctx.choice("context", ["none", "empty", "on", "off"])
    given = {"none": None, "empty": {}, "on": {"use": True}, "off": {"use": False}}[context]
    gates = [False, ctx.choice("gate1", [False, True, "context"]), ctx.choice("gate2", [False, "context"]), False]
    asked = []

    def gate(c):
        asked.append(c)
        return not (c or {}).get("use")

    bulks = [Rebulk(disabled=gate if g == "context" else g) for g in gates]
    root, first, second, grand = bulks
    first.rebulk(grand)
    root.rebulk(first, second)
    on = [not g or (g == "context" and context == "on") for g in gates]
    on[3] = False
    pats, rules = {}, []
    for k, b in enumerate(bulks):
        if ctx.flag(f"pattern{k}"):
            b.string(f"s{k}", name=f"p{k}")
            if on[k]:
                pats[f"p{k}"] = [f"s{k}"]
        if ctx.flag(f"rule{k}"):
            cls = type(f"R{k}", (CustomRule,), {"when": lambda *a: None, "then": lambda *a: None, "properties": {f"r{k}": [k]}})
            b.rules(cls)
            if on[k]:
                rules.append(cls)
    res = introspect(root, given) if given is not None or ctx.flag("explicit") else introspect(root)
    ctx.check([dict(d.properties) for d in res.patterns] == [{k: v} for k, v in pats.items()], "patterns", ([d.pattern for d in res.patterns], pats))
    ctx.check(all(c is given for c in asked), "enablement is asked with the context as given", asked)
    own = [d for d in res.rules if type(d.rule).__name__.startswith("R") and type(d.rule).__name__[1:].isdigit()]
    ctx.check([type(d.rule) for d in own] == rules, "rules", ([d.rule for d in res.rules], rules))
    want = {**pats, **{f"r{c.__name__[1:]}": [int(c.__name__[1:])] for c in rules}}
    ctx.check({k: list(v) for k, v in res.properties.items()} == want, "report", (dict(res.properties), want))
    ctx.cover("context on", gates[1] == "context" and on[1] and "p1" in pats)
    ctx.cover("context off", gates[1] == "context" and not on[1] and grand._patterns)
    ctx.cover("grandchild", on[1] and bool(grand._patterns))
    ctx.cover("rule", len(rules) == 3)
