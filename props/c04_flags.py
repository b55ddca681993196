"""C04: parent/child emission and privacy."""
from props._common import TEXT, one_occurrence
from symx.api import harness

ASSUMES = ["the regex engine is a stub reporting one occurrence with arbitrary spans"]


@harness("C04", "flags", quick=dict(kids=2), thorough=dict(kids=3), assumes=ASSUMES,
         cover=["children only", "private children", "name ignored", "private by name"],
         about="all flag combinations, names, private_names and ignore_names, arbitrary spans")
def flags(ctx, p):
    from rebulk.pattern import RePattern

    n = ctx.pick("kids", 0, p.kids)
    pname = ctx.choice("pname", [None, "p"])
    names = []
    for k in range(n):
        nm = ctx.choice(f"name{k}", [None, "abc"[k]])
        names.append(nm)
    flag = {f: ctx.flag(f) for f in ("children", "every", "private_parent", "private_children", "private")}
    universe = [x for x in ["p"] + ["abc"[k] for k in range(n)]]
    private_names = ctx.choice("private_names", [[], universe[:1], universe[1:2], universe[-2:]])
    ignore_names = ctx.choice("ignore_names", [[], universe[:1], universe[1:2], universe[-2:], [None], [None, "b"]])
    (ps, pe), caps, fake = one_occurrence(ctx, n, names)
    pat = RePattern(fake, name=pname, private_names=private_names, ignore_names=ignore_names, **flag)
    pat.repeated_captures = False
    got = pat.matches(TEXT)

    want = []
    parent_out = (not flag["children"] or flag["every"] or flag["private_parent"]) and pname not in ignore_names
    if parent_out:
        want.append((ps, pe, pname, flag["private"] or flag["private_parent"] or pname in private_names))
    if flag["children"] or flag["every"] or flag["private_children"]:
        for k in range(n):
            nm = names[k] or pname
            if nm not in ignore_names:
                s, e = caps[k][0]
                want.append((s, e, nm, flag["private"] or flag["private_children"] or nm in private_names))
    ctx.observe("got", [(m.start, m.end, m.name, bool(m.private)) for m in got])
    ctx.check(len(got) == len(want), "number of emitted matches", (len(got), len(want)))
    for m, (s, e, nm, priv) in zip(got, want):
        ctx.check(ctx.And(m.start == s, m.end == e), "parent first, then children in order")
        ctx.check(m.name == nm, "name")
        ctx.check(bool(m.private) == bool(priv), "privacy")
    ctx.cover("children only", flag["children"] and not flag["every"] and n > 0)
    ctx.cover("private children", flag["private_children"] and n > 0)
    ctx.cover("name ignored", bool(ignore_names))
    ctx.cover("private by name", "p" in private_names and pname == "p")


@harness("C04", "childless", quick={}, assumes=["a functional pattern returning one arbitrary span"], cover=["children asked"],
         about="patterns without children obey the same flags")
def childless(ctx, p):
    from rebulk.pattern import FunctionalPattern

    s, e = ctx.int("s", 0, 9), ctx.int("e", 0, 9)
    ctx.assume(s < e)
    flag = {f: ctx.flag(f) for f in ("children", "every", "private_parent", "private_children", "private", "marker")}
    ign = ctx.choice("ignore", [None, ["p"], ["q"]])
    got = FunctionalPattern(lambda string: (s, e), name="p", ignore_names=ign, **flag).matches(TEXT)
    out = (not flag["children"] or flag["every"] or flag["private_parent"]) and ign != ["p"]
    ctx.check(len(got) == (1 if out else 0), "emission")
    for m in got:
        ctx.check(ctx.And(m.start == s, m.end == e), "span")
        ctx.check(bool(m.private) == (flag["private"] or flag["private_parent"]), "privacy")
        ctx.check(bool(m.marker) == flag["marker"], "marker flag")
    ctx.cover("children asked", flag["children"] and not flag["every"])


@harness("C04", "chained", quick=dict(), cover=["children only", "private children", "ignored", "private by name", "private part"],
         about="chains obey the same flags: the chain match is the parent, the matches of its parts the children, wherever the chain is in the text")
def chained(ctx, p):
    from rebulk import Rebulk

    cname = ctx.choice("cname", [None, "p"])
    names = [ctx.choice(f"name{k}", [None, "ab"[k]]) for k in range(2)]
    own = ctx.flag("part private")
    flag = {f: ctx.flag(f) for f in ("children", "every", "private_parent", "private_children", "private")}
    private_names, ignore_names = ctx.choice("names", [([], []), (["p"], ["a"]), (["a"], ["p"]), (["b", "p"], []), (["b"], ["b", "p"]), (["a"], [None])])
    before = ctx.choice("before", ["", "xy"])
    text, at = before + "abcd" + "x", len(before)
    ch = Rebulk().chain(name=cname, private_names=private_names, ignore_names=ignore_names, **flag)
    rb = ch.string("ab", name=names[0], **({"private": True} if own else {})).string("cd", name=names[1]).close()
    got = rb.effective_patterns()[0].matches(text)
    want = []
    if (not flag["children"] or flag["every"] or flag["private_parent"]) and cname not in ignore_names:
        want.append((at, at + 4, cname, flag["private"] or flag["private_parent"] or cname in private_names))
    if flag["children"] or flag["every"] or flag["private_children"]:
        for k in range(2):
            if names[k] not in ignore_names:
                want.append((at + 2 * k, at + 2 * k + 2, names[k], (own and k == 0) or flag["private_children"] or names[k] in private_names))
    ctx.observe("got", [(m.start, m.end, m.name, bool(m.private)) for m in got])
    ctx.check(len(got) == len(want), "number of emitted matches", (len(got), len(want)))
    for m, (s, e, nm, priv) in zip(got, want):
        ctx.check(ctx.And(m.start == s, m.end == e), "the chain match first, then the matches of its parts in order")
        ctx.check(m.name == nm, "name", (m.name, nm))
        ctx.check(bool(m.private) == bool(priv), "privacy", (nm, m.private, priv))
    ctx.cover("children only", flag["children"] and not flag["every"])
    ctx.cover("private children", flag["private_children"])
    ctx.cover("ignored", bool(ignore_names) and len(got) == 1)
    ctx.cover("private by name", "a" in private_names and names[0] == "a")
    ctx.cover("private part", own)
