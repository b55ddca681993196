"""C02: regex patterns, against an arbitrary regex engine."""
from props._common import TEXT, FakeRegex
from symx.api import harness

ASSUMES = ["the regex engine is a stub that may report any occurrences (ordered, non-overlapping), any participating groups and captures"]


def arbitrary_occurrences(ctx, n_occ, groups, max_caps, hi):
    occ = []
    prev = 0
    for k in range(n_occ):
        s, e = ctx.int(f"o{k}.s", 0, hi), ctx.int(f"o{k}.e", 0, hi)
        ctx.assume(ctx.And(prev <= s, s <= e))
        prev = e
        caps = []
        for g in range(groups):
            c = []
            for j in range(ctx.pick(f"o{k}.g{g}.captures", 0, max_caps)):
                cs, ce = ctx.int(f"o{k}.g{g}.{j}.s", 0, hi), ctx.int(f"o{k}.g{g}.{j}.e", 0, hi)
                ctx.assume(cs <= ce)
                c.append((cs, ce))
            caps.append(c)
        occ.append(((s, e), caps))
    return occ


def body(ctx, p, repeated):
    from rebulk.pattern import RePattern

    groups = ctx.pick("groups", 0, p.groups)
    gnames = []
    for g in range(groups):
        nm = ctx.choice(f"g{g}.name", [None, "x", "y"])
        ctx.assume(nm is None or nm not in gnames)
        gnames.append(nm)
    pname = ctx.choice("pattern.name", [None, "p"])
    n_occ = ctx.pick("occurrences", 0, p.occ)
    occ = arbitrary_occurrences(ctx, n_occ, groups, p.caps, p.hi)
    fake = FakeRegex(gnames, occ)
    pat = RePattern(fake, name=pname)
    pat.repeated_captures = repeated
    got = pat.matches(TEXT)
    want = []
    for (s, e), caps in occ:
        if s < e:
            kids = []
            for g in range(groups):
                for cs, ce in (caps[g] if repeated else caps[g][-1:]):
                    if cs < ce:
                        kids.append((cs, ce, gnames[g] or pname))
            want.append((s, e, kids))
    ctx.observe("got", [(m.start, m.end, m.name, [(c.start, c.end, c.name) for c in m.children]) for m in got])
    ctx.check(len(got) == len(want), "one match per non-empty occurrence", (len(got), len(want)))
    for m, (s, e, kids) in zip(got, want):
        ctx.check(ctx.And(m.start == s, m.end == e), "span of the occurrence, in order")
        ctx.check(m.name == pname and m.pattern is pat, "name and pattern of the occurrence")
        ctx.check(len(m.children) == len(kids), "one child per non-empty capture", (len(m.children), len(kids)))
        for c, (cs, ce, nm) in zip(m.children, kids):
            ctx.check(ctx.And(c.start == cs, c.end == ce), "span of the group, in group order")
            ctx.check(c.name == nm, "name of the group, else of the pattern")
            ctx.check(c.parent is m and c.pattern is pat, "parent and pattern of the child")
    ctx.check(fake.calls == [TEXT], "the text is scanned once")
    if n_occ:
        ctx.cover("empty occurrence", occ[0][0][0] == occ[0][0][1])
        if groups:
            ctx.cover("group not participating", not occ[0][1][0])
            if occ[0][1][0]:
                ctx.cover("empty group", occ[0][1][0][-1][0] == occ[0][1][0][-1][1])
                ctx.cover("group at offset 0", occ[0][1][0][-1][0] == 0)
        if groups == 2:
            ctx.cover("named after unnamed", gnames[0] is None and gnames[1] is not None)


COVER = ["empty occurrence", "group not participating", "empty group", "group at offset 0", "named after unnamed"]


@harness("C02", "last_capture", quick=dict(groups=2, occ=2, caps=1, hi=9), thorough=dict(groups=3, occ=2, caps=2, hi=9), cover=COVER, assumes=ASSUMES,
         about="repeated captures off: any spans, groups, names")
def last_capture(ctx, p):
    body(ctx, p, False)


@harness("C02", "repeated_captures", quick=dict(groups=2, occ=1, caps=2, hi=9), thorough=dict(groups=2, occ=2, caps=2, hi=9), cover=COVER, assumes=ASSUMES,
         about="repeated captures on: any number of captures per group")
def repeated_captures(ctx, p):
    body(ctx, p, True)


@harness("C02", "several_expressions", quick=dict(hi=9), cover=["both match"], assumes=ASSUMES,
         about="two expressions in one pattern: results in the given order, each with its own group names")
def several(ctx, p):
    from rebulk.pattern import RePattern

    occ1, occ2 = arbitrary_occurrences(ctx, 1, 1, 1, p.hi), []
    s, e = ctx.int("q.s", 0, p.hi), ctx.int("q.e", 0, p.hi)
    ctx.assume(s <= e)
    gs, ge = ctx.int("qg.s", 0, p.hi), ctx.int("qg.e", 0, p.hi)
    ctx.assume(gs < ge)
    occ2 = [((s, e), [[(gs, ge)]])]
    marker = ctx.flag("marker")
    pat = RePattern(FakeRegex(["x"], occ1), FakeRegex([None], occ2), name="p", marker=marker)
    pat.repeated_captures = False
    res = pat.matches(TEXT)
    for m in res:
        ctx.check(bool(m.marker) == marker and all(bool(c.marker) == marker for c in m.children), "marker flag of matches and children")
        ctx.check(all(a is b for a, b in zip(m.children[:], m.children)), "children can be sliced")
    got = [(m.start, m.end, [(c.start, c.end, c.name) for c in m.children]) for m in res]
    want = []
    (s1, e1), caps = occ1[0]
    if s1 < e1:
        want.append((s1, e1, [(a, b, "x") for a, b in caps[0] if a < b]))
    if s < e:
        want.append((s, e, [(gs, ge, "p")]))
    ctx.observe("got", got)
    ctx.check(ctx.eq(got, want), "results of both expressions in order")
    ctx.cover("both match", len(want) == 2)


@harness("C02", "many", quick=dict(n=12, hi=40), thorough=dict(n=20, hi=60), cover=["many captures", "many groups"], assumes=ASSUMES,
         about="many captures of one group, many groups, many occurrences (all non-empty)")
def many(ctx, p):
    from rebulk.pattern import RePattern

    what = ctx.choice("what", ["captures", "groups", "occurrences"])
    n = ctx.pick("n", 1, p.n)
    caps_n, groups, occs = {"captures": (n, 1, 1), "groups": (1, n, 1), "occurrences": (1, 1, n)}[what]
    names = [None if g % 2 else f"g{g}" for g in range(groups)]
    occ, prev = [], 0
    for k in range(occs):
        s, e = ctx.int(f"o{k}.s", 0, p.hi), ctx.int(f"o{k}.e", 0, p.hi)
        ctx.assume(ctx.And(prev <= s, s < e))
        prev = e
        caps = []
        for g in range(groups):
            c = []
            for j in range(caps_n):
                cs, ce = ctx.int(f"o{k}.g{g}.{j}.s", 0, p.hi), ctx.int(f"o{k}.g{g}.{j}.e", 0, p.hi)
                ctx.assume(cs < ce)
                c.append((cs, ce))
            caps.append(c)
        occ.append(((s, e), caps))
    pat = RePattern(FakeRegex(names, occ), name=ctx.choice("pattern.name", [None, "p"]))
    pat.repeated_captures = True
    got = [(m.start, m.end, [(c.start, c.end, c.name) for c in m.children]) for m in pat.matches(TEXT)]
    want = [(s, e, [(cs, ce, names[g] or pat.name) for g in range(groups) for cs, ce in caps[g]]) for (s, e), caps in occ]
    ctx.check(ctx.eq(got, want), "every occurrence, group and capture in order")
    ctx.cover("many captures", what == "captures" and n == p.n)
    ctx.cover("many groups", what == "groups" and n == p.n)
