"""C29: rule consequences."""
from symx.api import harness
from props._common import is_in, make_matches, same_list


def shape(ctx, items, twice=True):
    """A response with these matches, in one of the forms rules give."""
    from rebulk.utils import IdentitySet

    forms = ["list", "tuple", "generator", "set"] + (["twice"] if twice else []) + (["single"] if len(items) == 1 else [])
    f = ctx.choice("form", forms)
    if f == "single":
        return items[0], f
    if f == "generator":
        return (x for x in items), f
    if f == "set":
        return IdentitySet(items), f
    if f == "twice":  # the same match can be found in two ways
        return items[:1] + items[1:] + items[-1:] + items[:1], f
    return (list(items) if f == "list" else tuple(items)), f


def setup(ctx, p):
    """A list of different matches with any spans, names and tags, and a response: any subset, and an outsider."""
    from rebulk.match import Match, Matches

    ms = make_matches(ctx, p.n, p.hi)
    out = Match(ctx.int("os", 0, p.hi), p.hi + 1, name="x", tags=["t"], value=99)
    for k, m in enumerate(ms):
        m.value = k + 1
        m.name = "xyxy"[k]
        m.tags = [["u", "t", "s"], [], ["v", "t", "t"], ["t"]][k]
    lst = Matches(list(ms))
    if ctx.flag("asked before"):
        lst.named("x"), lst.tagged("t")
    given = [m for k, m in enumerate(ms) if ctx.flag(f"given{k}")]
    if ctx.flag("outsider"):
        given = given[:1] + [out] + given[1:]
    if len(given) > 1 and ctx.flag("reversed"):
        given = given[::-1]
    resp, form = shape(ctx, given) if given else ([], "list")
    return ms, lst, out, given, resp, form


def state(m):
    return (m.start, m.end, m.value, m.name, list(m.tags), m.private)


def unchanged(ctx, ms, before, label):
    for m in ms:
        a, b = state(m), before[m.value]
        ctx.check(ctx.And([ctx.eq(x, y) if not isinstance(x, list) else x == y for x, y in zip(a, b)]), label)


def lookups(ctx, lst):
    content = list(lst)
    for q in ("x", "y", "z"):
        same_list(ctx, lst.named(q), [m for m in content if m.name == q], "named")
    for q in ("t", "u", "v", "new"):
        same_list(ctx, lst.tagged(q), [m for m in content if q in m.tags], "tagged")


@harness("C29", "remove", quick=dict(n=3, hi=4), thorough=dict(n=3, hi=8), cover=["single", "outsider"], about="RemoveMatch: any content and response")
def remove(ctx, p):
    from rebulk.rules import RemoveMatch

    ms, lst, out, given, resp, form = setup(ctx, p)
    before = {m.value: state(m) for m in ms + [out]}
    RemoveMatch().then(lst, resp, {})
    same_list(ctx, lst, [m for m in ms if not is_in(m, given)], "exactly the given matches are removed")
    unchanged(ctx, ms + [out], before, "no match is changed")
    lookups(ctx, lst)
    ctx.cover("single", form == "single")
    ctx.cover("outsider", is_in(out, given))


@harness("C29", "append", quick=dict(n=3, hi=4), thorough=dict(n=3, hi=8), cover=["single", "named", "present single", "given twice"], about="AppendMatch with or without a name: any content and response")
def append(ctx, p):
    from rebulk.rules import AppendMatch

    ms, lst, out, given, resp, form = setup(ctx, p)
    named = ctx.flag("named")
    before = {m.value: state(m) for m in ms + [out]}
    (AppendMatch("z") if named else AppendMatch()).then(lst, resp, {})
    add = is_in(out, given)
    same_list(ctx, lst, ms + ([out] if add else []), "exactly the absent ones are added")
    if add and named:
        ctx.check(out.name == "z", "an added match gets the name")
        ctx.cover("named")
        unchanged(ctx, ms, before, "present matches are not changed")
    else:
        unchanged(ctx, ms + [out], before, "no match is changed")
    lookups(ctx, lst)
    ctx.cover("single", form == "single" and add)
    ctx.cover("given twice", form == "twice" and add and given[0] is out)
    ctx.cover("present single", form == "single" and not add and named)


@harness("C29", "rename", quick=dict(n=3, hi=4), thorough=dict(n=3, hi=8), cover=["single", "outsider", "two"], about="RenameMatch: any content and response")
def rename(ctx, p):
    from rebulk.rules import RenameMatch

    ms, lst, out, given, resp, form = setup(ctx, p)
    before = {m.value: state(m) for m in ms + [out]}
    RenameMatch("z").then(lst, resp, {})
    changed(ctx, lst, ms, out, given, before)
    for m in ms:
        if is_in(m, given):
            a, b = state(m), before[m.value]
            ctx.check(m.name == "z" and ctx.And(ctx.eq(a[:2], b[:2]), a[2] == b[2]) and a[4:] == b[4:], "only the name changes")
    lookups(ctx, lst)
    ctx.cover("single", form == "single")
    ctx.cover("outsider", is_in(out, given))
    ctx.cover("two", len(given) == 2)


def changed(ctx, lst, ms, out, given, before):
    content = list(lst)
    ctx.check(len(content) == len(ms) and all(is_in(m, content) for m in ms), "the same matches are in the list")
    rest = [m for m in ms if not is_in(m, given)]
    same_list(ctx, [m for m in content if is_in(m, rest)], rest, "the others keep their order")
    unchanged(ctx, rest + [out], before, "no other match is changed")


@harness("C29", "tags", quick=dict(n=2, hi=4), thorough=dict(n=3, hi=6), cover=["append", "remove", "already there"], about="AppendTags and RemoveTags: any content and response")
def tags(ctx, p):
    from rebulk.rules import AppendTags, RemoveTags

    ms, lst, out, given, resp, form = setup(ctx, p)
    before = {m.value: state(m) for m in ms + [out]}
    which = ctx.choice("tags", [["t"], ["new", "t"], ["u", "v"]])
    mine = list(which)
    add = ctx.flag("add")
    (AppendTags if add else RemoveTags)(mine).then(lst, resp, {})
    ctx.check(mine == which, "the tags of the consequence are left alone")
    changed(ctx, lst, ms, out, given, before)
    for m in ms:
        if is_in(m, given):
            b = before[m.value]
            want = set(b[4]) | set(which) if add else set(b[4]) - set(which)
            ctx.check(set(m.tags) == want, "tags", (m.tags, want))
            ctx.check(list(dict.fromkeys(t for t in m.tags if t in b[4])) == list(dict.fromkeys(t for t in b[4] if t in want)), "order of the tags kept")
            ctx.check(ctx.And(ctx.eq(m.span, b[:2]), m.name == b[3], m.value == b[2]), "only the tags change")
            ctx.cover("already there", add and which[0] in b[4])
    lookups(ctx, lst)
    ctx.cover("append" if add else "remove", len(given) > 0)


@harness("C29", "several", quick=dict(n=3, hi=9), cover=["rename then remove", "single response"], about="a list of consequences, each with its element of the response")
def several(ctx, p):
    from rebulk.match import Matches
    from rebulk.rules import AppendTags, RemoveMatch, RenameMatch, Rule

    ms = make_matches(ctx, p.n, p.hi)
    for k, m in enumerate(ms):
        m.value, m.name = k + 1, "x"
    lst = Matches(list(ms))
    calls = []

    class Rec(RemoveMatch):
        def then(self, matches, when_response, context):
            calls.append((when_response, context))

    kinds = [ctx.choice(f"kind{k}", ["remove", "rename", "tags"]) for k in range(2)]
    make = {"remove": RemoveMatch, "rename": RenameMatch("z"), "tags": AppendTags(["new"])}
    els = [ms[ctx.pick("first", 0, 2)], [ms[ctx.pick("second", 0, 2)]]]
    one = ctx.flag("single consequence")
    form = list if one else ctx.choice("form", [list, tuple])

    class R(Rule):
        consequence = make[kinds[0]] if one else form([make[kinds[0]], make[kinds[1]], Rec])

        def when(self, matches, context):
            return els[0] if one else form(els + ["last"])

    ctxt = {"k": 1}
    r = R()
    r.then(lst, r.when(lst, ctxt), ctxt)
    if not one:
        ctx.check(calls == [("last", ctxt)], "each consequence gets its element")
    done = [(kinds[0], els[0])] + ([] if one else [(kinds[1], els[1][0])])
    gone, new, tagged = [], [], []
    for kind, m in done:
        if is_in(m, gone):
            continue
        (gone if kind == "remove" else new if kind == "rename" else tagged).append(m)
    for m in ms:
        ctx.check(is_in(m, lst) == (not is_in(m, gone)), "removed")
        ctx.check((m.name == "z") == is_in(m, new), "renamed")
        ctx.check(m.tags == (["new"] if is_in(m, tagged) else []) or len([x for x in tagged if x is m]) == 2, "tagged")
    ctx.cover("rename then remove", not one and kinds == ["rename", "remove"] and els[0] is els[1][0])
    ctx.cover("single response", one)


@harness("C29", "order", quick=dict(n=3), cover=["unsorted", "set"],
         about="several matches, absent or present, given in any order of positions: they end up at the end of the list in the order given; the consequence serves several lists")
def order(ctx, p):
    from rebulk.match import Match, Matches
    from rebulk.rules import AppendMatch, AppendTags, RemoveTags, RenameMatch

    kind = ctx.choice("kind", ["append", "append named", "rename", "add tags", "remove tags"])
    cons = {"append": AppendMatch(), "append named": AppendMatch("z"), "rename": RenameMatch("z"), "add tags": AppendTags(["u"]), "remove tags": RemoveTags(["t"])}[kind]
    form = ctx.choice("form", ["list", "tuple", "generator", "matches", "one by one"])
    for call in range(2):
        ms = []
        for k in range(p.n):
            s = ctx.int(f"s{call}{k}", 0, 9) if not call else 9 - k
            ms.append(Match(s, s + 1, name="x", tags=["t"], value=k + 1))
        first = Match(20, 21, name="x", value=9)
        lst = Matches([first] + ([] if kind.startswith("append") else list(ms)))
        if ctx.flag("asked before") if not call else False:
            lst.named("x"), lst.tagged("t")
        if form == "one by one":
            for m in ms:
                cons.then(lst, m, {})
        else:
            cons.then(lst, {"list": list, "tuple": tuple, "generator": iter, "matches": Matches}[form](ms), {})
        same_list(ctx, lst, [first] + ms, "in the order given")
        lookups(ctx, lst)
        ctx.check(first.name == "x" and first.tags == [], "the others are left alone")
        want = {"append": ("x", ["t"]), "append named": ("z", ["t"]), "rename": ("z", ["t"]), "add tags": ("x", ["t", "u"]), "remove tags": ("x", [])}[kind]
        ctx.check(all((m.name, m.tags) == want for m in ms), "name and tags", [(m.name, m.tags) for m in ms])
        ctx.cover("unsorted", ctx.And(ms[1].start < ms[0].start, call == 0))
    ctx.cover("set", form == "matches")


@harness("C29", "two lists", quick=dict(), cover=["present", "absent"],
         about="one consequence and the same match serve two lists, holding it or not: each list is treated by what it holds")
def two_lists(ctx, p):
    from rebulk.match import Match, Matches
    from rebulk.rules import AppendMatch, AppendTags, RemoveMatch, RemoveTags, RenameMatch

    kind = ctx.choice("kind", ["append", "append named", "remove", "rename", "add tags", "remove tags"])
    cons = {"append": AppendMatch(), "append named": AppendMatch("z"), "remove": RemoveMatch(), "rename": RenameMatch("z"), "add tags": AppendTags(["u"]), "remove tags": RemoveTags(["t"])}[kind]
    s = ctx.int("s", 0, 5)
    m, other = Match(s, 6, name="x", tags=["t"], value=1), Match(s, 6, name="o", value=2)
    held = [ctx.flag("first holds"), ctx.flag("second holds")]
    lists = [Matches([other] + ([m] if h else [])) for h in held]
    for h, lst in zip(held, lists):
        if ctx.flag("asked before"):
            lst.named("x"), lst.tagged("t")
    for h, lst in zip(held, lists):
        mine = lst
        cons.then(mine, m if ctx.flag("single") else [m], {})
        inside = kind.startswith("append") or (h and kind != "remove")
        same_list(ctx, mine, [other] + ([m] if inside else []), "by what the list holds")
        ctx.cover("present" if h else "absent")
    if not any(held):
        ctx.check((m.name, m.tags) == ("z" if kind == "append named" else "x", ["t"]), "a match no list holds is left alone")


@harness("C29", "twins", quick=dict(n=3), cover=["second twin"], about="equal matches in one list: the given one is changed, not its twin")
def twins(ctx, p):
    from rebulk.match import Match, Matches
    from rebulk.rules import RemoveMatch

    s, e = ctx.int("s", 0, 5), ctx.int("e", 0, 5)
    ctx.assume(s < e)
    ms = [Match(s, e, name="x", tags=[str(k)]) for k in range(p.n)]
    lst = Matches(list(ms))
    if ctx.flag("asked before"):
        lst.named("x"), lst.tagged("t"), lst.tagged("1")
    given = [m for k, m in enumerate(ms) if ctx.flag(f"given{k}")]
    resp, form = shape(ctx, given, twice=False) if given else ([], "list")
    RemoveMatch().then(lst, resp, {})
    same_list(ctx, lst, [m for m in ms if not is_in(m, given)], "exactly the given matches are removed")
    same_list(ctx, lst.named("x"), list(lst), "named")
    for k, m in enumerate(ms):
        same_list(ctx, lst.tagged(str(k)), [m] if is_in(m, lst) else [], "tagged")
    ctx.cover("second twin", len(given) == 1 and given[0] is ms[1])


@harness("C29", "matches", quick=dict(hi=6), cover=["pattern tags kept"], about="a rule tagging or renaming one match of a pattern leaves the other matches, the pattern and later results alone")
def matches(ctx, p):
    from rebulk.rebulk import Rebulk
    from rebulk.rules import AppendTags, RemoveTags, RenameMatch, Rule

    which = ctx.pick("which", 0, 1)
    kind = ctx.choice("kind", ["add", "remove", "rename"])
    cons = {"add": AppendTags(["new"]), "remove": RemoveTags(["t"]), "rename": RenameMatch("z")}[kind]

    class R(Rule):
        consequence = cons

        def when(self, matches, context):
            return matches.named("n")[which]

    a, b = ctx.int("a", 0, p.hi), ctx.int("b", 0, p.hi)
    ctx.assume(ctx.Or(a + 2 <= b, b + 2 <= a))
    given = ["t", "u"]
    rb = Rebulk().functional(lambda _s: [(a, a + 2), (b, b + 2)], name="n", tags=given).rules(R)
    for _turn in range(2):
        res = rb.matches("abcdefghij")
        ctx.check(len(res) == 2, "two matches")
        for m in res:
            hit = (m.start == a) if which == 0 else (m.start == b)
            if hit:
                want = {"add": ["t", "u", "new"], "remove": ["u"], "rename": ["t", "u"]}[kind]
                ctx.check(m.tags == want and m.name == ("z" if kind == "rename" else "n"), "the given match is changed")
            else:
                ctx.check(m.tags == ["t", "u"] and m.name == "n", "the other match of the pattern is not")
    ctx.check(given == ["t", "u"] and rb.effective_patterns()[0].tags == ["t", "u"], "the pattern is not changed")
    ctx.cover("pattern tags kept", kind == "add")
