"""C05: validators."""
from props._common import NO, TEXT, YES, OwnDict, one_occurrence
from symx.api import harness

ASSUMES = ["the regex engine is a stub reporting one occurrence with arbitrary spans", "validators are stubs with arbitrary verdicts"]
KEYS = ["p", "a", "b", "__parent__", "__children__", None]


def setup(ctx, n, names, pname, registered, form, flag, exempt=()):
    from rebulk.pattern import RePattern

    (ps, pe), caps, fake = one_occurrence(ctx, n, names)
    asked = []  # (validator key, match)

    def mk(key):
        def validator(match):
            asked.append((key, match))
            return verdicts[ident(match)]

        return validator

    def ident(match):
        if match.parent is None:
            return 0
        for k, c in enumerate(match.parent.children):
            if c is match:
                return k + 1
        return 0

    verdicts = [ctx.bool(f"verdict{k}") for k in range(n + 1)]
    if form == "function":
        val = mk(None)
        registered = [None]
    else:
        val = {k: None if k in exempt else mk(k) for k in registered}
        val = OwnDict(val) if form == "own class" else val
    pat = RePattern(fake, name=pname, validator=val, **flag)
    pat.repeated_captures = False
    return pat, asked, verdicts, (ps, pe), caps, registered


def resolve(registered, name, role):
    for k in ([name] if name else []) + [role, None]:
        if k in registered:
            return True, k
    return False, None


def expect(ctx, pat, asked, verdicts, n, names, pname, registered, flag, exempt=()):
    got = pat.matches(TEXT)
    parent_asked = not flag["children"] or flag["every"] or flag["validate_all"]
    kids_asked = flag["children"] or flag["every"] or flag["validate_all"]
    decisive, allowed = [], []
    ok, key = resolve(registered, pname, "__parent__")
    if parent_asked and ok and key not in exempt:
        decisive.append(verdicts[0])
        allowed.append((0, key))
    for k in range(n):
        ok, key = resolve(registered, names[k] or pname, "__children__")
        if kids_asked and ok and key not in exempt:
            decisive.append(verdicts[k + 1])
            allowed.append((k + 1, key))
    accepted = ctx.And(decisive) if decisive else True
    parent_out = not flag["children"] or flag["every"] or flag.get("private_parent")
    kids_out = flag["children"] or flag["every"] or flag.get("private_children")
    count = (1 if parent_out else 0) + (n if kids_out else 0)
    ctx.observe("got", [(m.start, m.end) for m in got])
    if count:
        if len(got) == 0:
            ctx.check(ctx.Not(accepted), "discarded although every consulted validator accepts")
        else:
            ctx.check(accepted, "emitted although a consulted validator refuses")
            ctx.check(len(got) == count, "all of the accepted matches are emitted", (len(got), count))
    else:
        ctx.check(len(got) == 0, "nothing to emit")
    seen = []
    for key, m in asked:
        i = 0 if m.parent is None else [k + 1 for k, c in enumerate(m.parent.children) if c is m][0]
        ctx.check((i, key) in allowed, "the validator consulted is the one registered for this match", (i, key))
        seen.append((i, key))
    if accepted is True or (len(got) and count):
        ctx.check(all(a in seen for a in allowed), "every due validator is consulted before emission")


@harness("C05", "precedence", quick=dict(kids=1), assumes=ASSUMES, cover=["validator by name", "by role", "validate_all", "exempt by name"],
         about="every registration of validators by name, role and default")
def precedence(ctx, p):
    n = ctx.pick("kids", 0, p.kids)
    pname = ctx.choice("pname", [None, "p"])
    names = [ctx.choice(f"name{k}", [None, "a"]) for k in range(n)]
    flag = {f: ctx.flag(f) for f in ("children", "every", "validate_all")}
    registered = ctx.subset("registered", ["p", "a", "__parent__", "__children__", None])
    ctx.assume(bool(registered))
    exempt = [k for k in [ctx.choice("exempt", ["nobody"] + registered)] if k != "nobody"]  # registered with no validator: accepted
    pat, asked, verdicts, _, _, registered = setup(ctx, n, names, pname, registered, "dict", flag, exempt)
    expect(ctx, pat, asked, verdicts, n, names, pname, registered, flag, exempt)
    ctx.cover("exempt by name", exempt == ["a"] and None in registered and names == ["a"])
    ctx.cover("validator by name", "a" in registered and names == ["a"])
    ctx.cover("by role", "__children__" in registered and n > 0)
    ctx.cover("validate_all", flag["validate_all"] and flag["children"])


@harness("C05", "family", quick=dict(kids=2), thorough=dict(kids=3), assumes=ASSUMES, cover=["two children"],
         about="several children, private_parent and private_children, a single validator or one per role")
def family(ctx, p):
    n = ctx.pick("kids", 0, p.kids)
    names = [ctx.choice(f"name{k}", [None, "ab"[k % 2]]) for k in range(n)]
    for i in range(n):
        for j in range(i):
            ctx.assume(names[i] is None or names[i] != names[j])
    flag = {f: ctx.flag(f) for f in ("children", "every", "validate_all", "private_parent", "private_children")}
    registered = ctx.choice("registered", ["function", ["__parent__", "__children__"], ["__children__"], ["a", "b"], ["a", None]])
    form = "function" if registered == "function" else ctx.choice("form", ["dict", "own class"])
    pat, asked, verdicts, _, _, registered = setup(ctx, n, names, "p", registered, form, flag)
    expect(ctx, pat, asked, verdicts, n, names, "p", registered, flag)
    ctx.cover("two children", n == 2)


@harness("C05", "occurrences", quick=dict(n=2), thorough=dict(n=4), assumes=ASSUMES, cover=["one of several refused"],
         about="several occurrences: each is judged on its own")
def occurrences(ctx, p):
    from rebulk.pattern import FunctionalPattern

    spans = []
    for k in range(p.n):
        s, e = ctx.int(f"s{k}", 0, 9), ctx.int(f"e{k}", 0, 9)
        ctx.assume(s < e)
        spans.append((s, e))
    verdicts = [ctx.bool(f"v{k}") for k in range(p.n)]
    yes, no = ctx.choice("yes", YES), ctx.choice("no", NO)
    seen = []

    def validator(match):
        seen.append(match)
        return yes if verdicts[len(seen) - 1] else no

    got = FunctionalPattern(lambda string: list(spans), validator=validator).matches(TEXT)
    ctx.check(len(seen) == p.n, "every occurrence is judged once")
    want = [spans[k] for k in range(p.n) if verdicts[k]]
    ctx.check(ctx.eq([m.span for m in got], want), "exactly the accepted occurrences, in order")
    ctx.cover("one of several refused", 0 < len(want) < p.n)


@harness("C05", "many", quick=dict(kids=11), thorough=dict(kids=14), assumes=["the regex engine is a stub reporting one occurrence", "validators are stubs with arbitrary verdicts"],
         cover=["last refused", "all accepted"], about="a match with many children: each of them counts")
def many(ctx, p):
    from props._common import FakeRegex
    from rebulk.pattern import RePattern

    caps = [[(k, k + 1)] for k in range(p.kids)]
    names = [f"g{k}" for k in range(p.kids)]
    verdicts = [ctx.bool(f"v{k}") for k in range(p.kids)]
    by_name = ctx.flag("by name")
    if by_name:
        validator = {nm: lambda m, v=v: v for nm, v in zip(names, verdicts)}
    else:
        validator = {"__children__": lambda m: verdicts[m.start]}
    pat = RePattern(FakeRegex(names, [((0, p.kids), caps)]), children=True, validator=validator)
    got = pat.matches(TEXT)
    ctx.check(ctx.Iff(len(got) == p.kids, ctx.And(verdicts)), "emitted exactly when every child is accepted")
    ctx.check(len(got) in (0, p.kids), "all or none")
    ctx.cover("last refused", ctx.And(ctx.And(verdicts[:-1]), ctx.Not(verdicts[-1])))
    ctx.cover("all accepted", ctx.And(verdicts))


@harness("C05", "chained", quick=dict(), assumes=["validators are stubs with arbitrary verdicts"], cover=["by name", "by role", "validate_all", "child refused"],
         about="the validators of a chain judge the chain match and, when children are returned or all are validated, the matches of its parts")
def chained(ctx, p):
    from rebulk import Rebulk

    cname = ctx.choice("cname", [None, "p"])
    names = [ctx.choice(f"name{k}", [None, "ab"[k]]) for k in range(2)]
    flag = {f: ctx.flag(f) for f in ("children", "every", "validate_all", "private_parent", "private_children")}
    single = ctx.flag("single")
    registered = [None] if single else ctx.choice("registered", [["p"], ["a"], ["__parent__"], ["__children__"], ["__children__", "a"], [None, "b"], ["p", "__parent__", "__children__", None]])
    verdicts = [ctx.bool(f"verdict{k}") for k in range(3)]
    asked = []

    def who(m):
        return 0 if m.parent is None else 1 + [c is m for c in m.parent.children].index(True)

    def mk(key):
        def validator(m):
            asked.append((key, who(m)))
            return verdicts[who(m)]

        return validator

    ch = Rebulk().chain(name=cname, validator=mk(None) if single else {k: mk(k) for k in registered}, **flag)
    rb = ch.string("ab", name=names[0]).string("cd", name=names[1]).close()
    got = rb.effective_patterns()[0].matches("xabcdx")
    due, allowed = [], []
    ok, key = resolve(registered, cname, "__parent__")
    if ok and (not flag["children"] or flag["every"] or flag["validate_all"]):
        due.append(verdicts[0])
        allowed.append((key, 0))
    for k in range(2):
        ok, key = resolve(registered, names[k], "__children__")
        if ok and (flag["children"] or flag["every"] or flag["validate_all"]):
            due.append(verdicts[k + 1])
            allowed.append((key, k + 1))
    parent_out = not flag["children"] or flag["every"] or flag["private_parent"]
    kids_out = flag["children"] or flag["every"] or flag["private_children"]
    count = (1 if parent_out else 0) + (2 if kids_out else 0)
    accepted = ctx.And(due) if due else True
    ctx.check(ctx.Iff(len(got) > 0, ctx.And(accepted, count > 0)), "emitted exactly when every consulted validator accepts", len(got))
    if len(got):
        ctx.check(len(got) == count, "all of it", (len(got), count))
        ctx.check(all(x in asked for x in allowed), "every due validator is consulted before emission", (asked, allowed))
    ctx.check(all(x in allowed for x in asked), "the validator consulted is the one registered for this match", (asked, allowed))
    ctx.cover("by name", "a" in registered and names[0] == "a" and flag["children"])
    ctx.cover("by role", "__children__" in registered and flag["every"])
    ctx.cover("validate_all", flag["validate_all"] and single)
    ctx.cover("child refused", ctx.And(verdicts[0], verdicts[1], ctx.Not(verdicts[2]), len(got) == 0, count > 0))
