"""C24-C26: conflict resolution, private matches and markers."""
from symx.api import harness
from props._common import is_in, make_matches, overlap, same_list

TXT = "abcdefghij"


def at(s, e):
    return lambda _text: (s, e)


def process(lst):
    """Default processing of a match list."""
    from rebulk.processors import ConflictSolver, PrivateRemover
    from rebulk.rules import Rules

    Rules(ConflictSolver, PrivateRemover).execute_all_rules(lst, {})


def ov(ctx, a, b):
    return ctx.And(a.start < b.end, b.start < a.end)


def conflict_check(ctx, ms, public, res, size):
    """ms: all matches before, res: those left; size(m): length that counts."""
    for k, m in enumerate(ms):
        inside = is_in(m, res)
        if not public[k]:
            continue
        others = [x for j, x in enumerate(ms) if j != k and public[j]]
        if not inside:
            ctx.check(ctx.Or([ctx.And(ov(ctx, m, x), size(m) < size(x)) for x in others]) if others else False, "removed only if it overlapped a longer one")
        else:
            for x in others:
                if is_in(x, res):
                    ctx.check(ctx.Implies(ov(ctx, m, x), size(m) == size(x)), "remaining overlaps have equal lengths")


@harness("C24", "plain", quick=dict(n=3, hi=4, private=[1]), thorough=dict(n=4, hi=4, private=[0, 1, 2]), cover=["chain of removals", "equal lengths", "private overlaps"],
         about="any spans and privacy flags, no parents, through the conflict rule")
def plain(ctx, p):
    from rebulk.match import Match, Matches
    from rebulk.processors import ConflictSolver
    from rebulk.rules import Rules

    ms = make_matches(ctx, p.n, p.hi)
    public = [not (k in p.private and ctx.flag(f"private{k}")) for k in range(p.n)]
    for k, (m, pub) in enumerate(zip(ms, public)):
        m.private = not pub
        if (not pub or k == 0) and ctx.flag(f"children{k}"):
            m.children.append(Match(m.start, m.end, parent=m, private=ctx.flag(f"private child{k}")))
    lst = Matches(list(ms))
    Rules(ConflictSolver).execute_all_rules(lst, {})
    res = list(lst)
    ctx.check(all(is_in(m, ms) for m in res), "no new matches")
    for m, pub in zip(ms, public):
        if not pub:
            ctx.check(is_in(m, res), "private matches are not removed by conflicts")
    conflict_check(ctx, ms, public, res, lambda m: m.end - m.start)
    same_list(ctx, res, [m for m in ms if is_in(m, res)], "order kept")
    if all(public):
        ctx.cover("chain of removals", len(res) == 1)
        ctx.cover("equal lengths", ctx.And(len(res) == p.n, ov(ctx, ms[0], ms[1]), ms[0].start < ms[1].start))
    else:
        ctx.cover("private overlaps", ctx.And(ov(ctx, ms[0], ms[1]), (ms[0].end - ms[0].start) != (ms[1].end - ms[1].start)))


@harness("C24", "parents", quick=dict(hi=3, big=5), thorough=dict(hi=4, big=7), cover=["child of a longer parent wins", "siblings"],
         about="three matches, some children of a parent with any span (in the list or not)")
def parents(ctx, p):
    from rebulk.match import Match, Matches

    par = Match(ctx.int("ps", 0, p.big), ctx.int("pe", 0, p.big))
    ctx.assume(par.start < par.end)
    mid = Match(0, 1, parent=par)
    ms = make_matches(ctx, 2, p.hi)
    for k, m in enumerate(ms):
        m.parent = ctx.choice(f"parent{k}", [None, par, mid])
    if ctx.flag("parent listed"):
        ms = ms + [par]
    else:
        ms = ms + make_matches(ctx, 1, p.hi, name="x")
    lst = Matches(list(ms))
    process(lst)
    res = list(lst)

    def size(m):
        top = m if m.parent is None else par
        return top.end - top.start

    conflict_check(ctx, ms, [True] * 3, res, size)
    ctx.cover("child of a longer parent wins", ctx.And(is_in(ms[0], res), ms[0].parent is par, ms[1].parent is None, ov(ctx, ms[0], ms[1]),
                                                       (ms[0].end - ms[0].start) < (ms[1].end - ms[1].start)))
    ctx.cover("siblings", ctx.And(ms[0].parent is par, ms[1].parent is par, ov(ctx, ms[0], ms[1]), len(res) == 3))


@harness("C24", "matches", quick=dict(n=3, hi=4), thorough=dict(n=3, hi=6), cover=["removed", "nested"], about="the same through Rebulk.matches on functional patterns")
def through(ctx, p):
    from rebulk.rebulk import Rebulk

    sp = []
    rb = Rebulk()
    for k in range(p.n):
        s, e = ctx.int(f"s{k}", 0, p.hi), ctx.int(f"e{k}", 0, p.hi)
        ctx.assume(s < e)
        sp.append((s, e))
        rb.functional(at(s, e), name="f%d" % k)
    res = rb.matches(TXT)
    left = [m.name for m in res]
    ctx.check(len(set(left)) == len(left), "each once")

    def size(k):
        return sp[k][1] - sp[k][0]

    for m in res:
        k = int(m.name[1])
        ctx.check(ctx.eq(m.span, sp[k]), "spans")
    for k in range(p.n):
        o = [ctx.And(overlap(ctx, sp[k], sp[j]), size(k) < size(j)) for j in range(p.n) if j != k]
        if "f%d" % k in left:
            for j in range(p.n):
                if j != k and "f%d" % j in left:
                    ctx.check(ctx.Implies(overlap(ctx, sp[k], sp[j]), size(k) == size(j)), "remaining overlaps have equal lengths")
        else:
            ctx.check(ctx.Or(o), "removed only if it overlapped a longer one")
    ctx.check(left == ["f%d" % k for k in range(p.n) if "f%d" % k in left], "pattern order")
    ctx.cover("removed", len(left) == 1)
    ctx.cover("nested", ctx.And(sp[0][0] < sp[1][0], sp[1][1] < sp[0][1], len(left) < 3))


ANSWERS = ["own", "other", "none", "default"]


def solver(calls, tag, answer):
    def solve(match, conflicting):
        calls.append((tag, match, conflicting))
        if answer == "own":
            return match
        if answer == "other":
            return conflicting
        return None if answer == "none" else "".join(["__", "default", "__"])  # equal to the marker

    return solve


@harness("C25", "one", quick=dict(hi=7), cover=["shorter kept", "kept both", "default"], about="two overlapping matches with any spans, one with a solver of any answer; a third private match")
def one(ctx, p):
    from rebulk.match import Match, Matches

    ms = make_matches(ctx, 2, p.hi)
    a, b = ms
    ctx.assume(ov(ctx, a, b))
    ctx.assume(ctx.Not(ctx.eq(a.span, b.span)))
    who = ctx.pick("who", 0, 1)
    ans = ctx.choice("answer", ANSWERS)
    calls = []
    ms[who].conflict_solver = solver(calls, who, ans)
    own, other = ms[who], ms[1 - who]
    extra = [Match(0, p.hi, name="private", private=True)] if ctx.flag("private") else []
    lst = Matches(ms + extra)
    process(lst)
    res = list(lst)
    la, lb = a.end - a.start, b.end - b.start
    if ans == "own":
        want = [other]
    elif ans == "other":
        want = [own]
    elif ans == "none":
        want = ms
        ctx.cover("kept both", la != lb)
    else:
        want = ms if la == lb else [a] if la > lb else [b]
        ctx.cover("default", la != lb)
    same_list(ctx, res, want, "the solver decides")
    ctx.check(len(calls) > 0, "the solver is asked")
    for _, m, c in calls:
        ctx.check(m is own and c is other, "own match first, then the conflicting one")
    ctx.cover("shorter kept", ctx.And(la < lb, len(res) == 1, is_in(a, res)))


@harness("C25", "both", quick=dict(hi=5), cover=["agree", "fallback", "both default"], about="two overlapping matches that both have a solver")
def both(ctx, p):
    from rebulk.match import Matches

    ms = make_matches(ctx, 2, p.hi)
    a, b = ms
    ctx.assume(ov(ctx, a, b))
    ctx.assume(ctx.Not(ctx.eq(a.span, b.span)))
    ans = [ctx.choice(f"answer{k}", ANSWERS) for k in range(2)]
    calls = []
    for k in range(2):
        ms[k].conflict_solver = solver(calls, k, ans[k])
    lst = Matches(list(ms))
    process(lst)
    res = list(lst)
    for k, m, c in calls:
        ctx.check(m is ms[k] and c is ms[1 - k], "own match first, then the conflicting one")
    ctx.check(len(res) >= 1, "never both removed")

    def removed(k):  # the match solver k wants removed
        return {"own": ms[k], "other": ms[1 - k]}.get(ans[k])

    if ans[0] == ans[1] == "default":
        la, lb = a.end - a.start, b.end - b.start
        same_list(ctx, res, ms if la == lb else [a] if la > lb else [b], "longer wins")
        ctx.cover("both default")
    elif "default" in ans:
        k = 1 - ans.index("default")
        r = removed(k)
        same_list(ctx, res, [m for m in ms if m is not r], "the other solver decides")
        ctx.cover("fallback", r is not None)
    elif removed(0) is removed(1):
        same_list(ctx, res, [m for m in ms if m is not removed(0)], "both agree")
        ctx.cover("agree", removed(0) is not None)


@harness("C25", "patterns", quick=dict(hi=5), cover=["solver of a pattern"], about="solvers given to patterns, through Rebulk.matches; bystanders without overlap stay")
def patterns(ctx, p):
    from rebulk.rebulk import Rebulk

    s0, e0 = ctx.int("s0", 0, p.hi), ctx.int("e0", 0, p.hi)
    s1, e1 = ctx.int("s1", 0, p.hi), ctx.int("e1", 0, p.hi)
    ctx.assume(ctx.And(s0 < e0, s1 < e1))
    ans = ctx.choice("answer", ANSWERS)
    calls = []
    rb = Rebulk().functional(at(s0, e0), name="a", conflict_solver=solver(calls, 0, ans)).functional(at(s1, e1), name="b")
    rb.functional(at(p.hi + 1, p.hi + 3), name="c", conflict_solver=solver(calls, 2, "own"))
    res = rb.matches(TXT)
    left = [m.name for m in res]
    ctx.check(not any(c[0] == 2 for c in calls) and "c" in left, "no conflict, no solver call")
    o = overlap(ctx, (s0, e0), (s1, e1))
    if not o:
        ctx.check(left == ["a", "b", "c"] and not calls, "no overlap: both stay, no solver call")
        return
    l0, l1 = e0 - s0, e1 - s1
    want = {"own": ["b"], "other": ["a"], "none": ["a", "b"]}.get(ans)
    if want is None:
        want = ["a", "b"] if l0 == l1 else ["a"] if l0 > l1 else ["b"]
    ctx.check(left == want + ["c"], "the solver decides", (left, want))
    ctx.cover("solver of a pattern", ctx.And(ans == "own", l0 > l1))


@harness("C26", "flags", quick=dict(n=3, hi=4), thorough=dict(n=4, hi=3), cover=["private marker", "marker over match", "private over match", "twin of a private match"],
         about="any spans, private and marker flags; public matches do not overlap", )
def flags(ctx, p):
    from rebulk.rebulk import Rebulk

    rb = Rebulk()
    spec = []
    for k in range(p.n):
        s, e = ctx.int(f"s{k}", 0, p.hi), ctx.int(f"e{k}", 0, p.hi)
        ctx.assume(s < e)
        private, marker = ctx.flag(f"private{k}"), ctx.flag(f"marker{k}")
        kw = {}
        if private:
            kw["private"] = True if k else 1  # any true value
        elif k:
            kw["private"] = 0
        if marker:
            kw["marker"] = True if k else "yes"
        spec.append((s, e, private, marker))
        rb.functional(at(s, e), **kw)
    pub = [x for x in spec if not x[2] and not x[3]]
    for i, x in enumerate(pub):
        for y in pub[:i]:
            ctx.assume(ctx.Not(overlap(ctx, x, y)))
    res = rb.matches(TXT)
    ctx.check(not any(m.private for m in res), "no private match")
    ctx.check(not any(m.marker for m in res), "no marker")
    ctx.check(all(m.marker for m in res.markers), "markers list")
    ctx.check(res.input_string == TXT and res.markers.input_string == TXT, "both lists know the text", (res.input_string, res.markers.input_string))
    for lst in (res, res.markers):
        ctx.check(lst.max_end == len(TXT), "both reach the end of the text")
    ctx.check(len(res) == len(pub), "every public match", (len(res), len(pub)))
    ctx.check(ctx.And([ctx.eq(m.span, x[:2]) for m, x in zip(res, pub)] + [True]), "in pattern order")
    mk = [x for x in spec if x[3]]
    ctx.check(len(res.markers) == len(mk), "every marker")
    ctx.check(ctx.And([ctx.eq(m.span, x[:2]) for m, x in zip(res.markers, mk)] + [True]), "markers in pattern order")
    x, y = spec[0], spec[1]
    o = overlap(ctx, x, y)
    ctx.cover("private marker", x[2] and x[3])
    if x[3] and not x[2] and not y[2] and not y[3]:
        ctx.cover("marker over match", ctx.And(o, x[1] - x[0] > y[1] - y[0]))
    if x[2] and not x[3] and not y[2] and not y[3]:
        ctx.cover("private over match", ctx.And(o, x[1] - x[0] > y[1] - y[0]))
        ctx.cover("twin of a private match", ctx.And(x[0] == y[0], x[1] == y[1]))


@harness("C26", "families", quick=dict(hi=2), thorough=dict(hi=4), cover=["private child of a public parent", "public child of a private parent", "public child of a public parent", "marker family", "shared text"],
         assumes=["the regex engine is a stub reporting one occurrence with arbitrary group spans in it"],
         about="matches and children of a regex, private by any of the pattern's flags or names: only the public ones stay, children of private parents too")
def families(ctx, p):
    from props._common import FakeRegex
    from rebulk.rebulk import Rebulk

    spans = []
    for k in range(2):
        s, e = ctx.int(f"s{k}", 0, p.hi), ctx.int(f"e{k}", 0, p.hi)
        ctx.assume(s < e)
        spans.append((s, e))
    mode = ctx.choice("mode", [{}, {"children": True}, {"every": True}])
    private = ctx.choice("private", [{}, {"private": True}, {"private_parent": True}, {"private_children": True}, {"private_names": ["g"]}, {"private_names": ["p"]},
                                     {"private_parent": True, "private_children": True}, {"private_parent": True, "private_names": ["h"]}])
    marker = ctx.flag("marker")
    rb = Rebulk()
    rb.functional(at(p.hi + 2, p.hi + 3), name="before", marker=ctx.flag("other marker"))
    rb.regex(FakeRegex(["g", "h"], [((0, p.hi), [[spans[0]], [spans[1]]])]), name="p", **mode, **private, **({"marker": True} if marker else {}))
    rb._patterns[-1].repeated_captures = False
    rb.functional(at(p.hi + 4, p.hi + 5), name="after")
    res = rb.matches(TXT)
    names = private.get("private_names", [])
    hidden = {"p": bool(private.get("private") or private.get("private_parent") or "p" in names)}
    for g in "gh":
        hidden[g] = bool(private.get("private") or private.get("private_children") or g in names)
    made = []
    if "children" not in mode or private.get("private_parent"):
        made.append("p")
    if mode or private.get("private_children"):
        made += ["g", "h"]
    family = [(n, hidden[n]) for n in made]
    other = any(m.name == "before" for m in res.markers)
    want = ([] if other else ["before"]) + ([] if marker else [n for n, priv in family if not priv]) + ["after"]
    ctx.check([m.name for m in res] == want, "every public match, in pattern order", ([m.name for m in res], want))
    listed = (["before"] if other else []) + ([n for n, _ in family] if marker else [])
    ctx.check([m.name for m in res.markers] == listed, "the markers, private ones too", ([m.name for m in res.markers], listed))
    ctx.check(not any(m.private or m.marker for m in res) and all(m.marker for m in res.markers), "each in its list")
    for m in list(res) + list(res.markers):
        k = "gh".find(m.name)
        if k >= 0:
            ctx.check(ctx.And(m.start == spans[k][0], m.end == spans[k][1]), "its own span")
            ctx.check(m.parent is not None and m.parent.name == "p" and bool(m.parent.private) == hidden["p"], "the parent is known")
    pub = [n for n, priv in family if not priv] if not marker else []
    ctx.cover("private child of a public parent", "p" in pub and "every" in mode and hidden["g"])
    ctx.cover("public child of a private parent", "g" in pub and hidden["p"] and "p" in made)
    ctx.cover("public child of a public parent", pub == ["p", "g", "h"])
    ctx.cover("marker family", marker and len(made) == 3)
    ctx.cover("shared text", ctx.And(pub == ["p", "g", "h"], spans[0][0] < spans[1][1], spans[1][0] < spans[0][1]))


@harness("C26", "sources", quick=dict(), cover=["marker part", "returned marker", "child rebulk", "marker of a match", "all apart"],
         about="matches of every kind of pattern, markers or private by their pattern, by options a function returned, by a chain or by its parts, in a rebulk and its child")
def sources(ctx, p):
    from rebulk.rebulk import Rebulk

    ctx.fork_find()
    root, child = Rebulk(), Rebulk()
    flags = [{}, {"marker": True}, {"private": True}, {"marker": True, "private": True}]
    made = []  # (span, marker, private) in the order of emission
    where = ctx.choice("where", ["root", "child"])
    bulk = root if where == "root" else child
    kind = ctx.choice("kind", ["string", "functional", "chain", "post"])
    own = ctx.choice("flags", flags)
    if kind == "string":
        bulk.string("c", **own)
        made.append(((2, 3), own))
    elif kind == "functional":
        given = [ctx.choice(f"returned{k}", flags + [{"marker": False}, {"private": False}]) for k in range(2)]
        bulk.functional(lambda s: [(0, 1, given[0]), (4, 5, given[1])], **own)
        made += [((0, 1), {**own, **given[0]}), ((4, 5), {**own, **given[1]})]
        ctx.cover("returned marker", given[0] == {"marker": True} and not own and not given[1])
        ctx.cover("marker of a match", "marker" in own and given[0] == {"marker": False})
    elif kind == "chain":
        mode = ctx.choice("mode", [{}, {"children": True}, {"every": True}])
        parts = [ctx.choice(f"part{k}", flags) for k in range(2)]
        if ctx.flag("accepting"):
            mode = {**mode, "validator": lambda m: True, "chain_breaker": lambda ms: False}
        bulk.chain(**own, **mode).string("a", **parts[0]).string("b", **parts[1]).close()
        if "children" not in mode:
            made.append(((0, 2), own))
        if "children" in mode or "every" in mode:
            made += [((0, 1), {**own, **parts[0]} if own.get("private") else parts[0]), ((1, 2), {**own, **parts[1]} if own.get("private") else parts[1])]
        ctx.cover("marker part", "every" in mode and parts[0] == {"marker": True} and not parts[1] and not own)
    else:
        second = ctx.choice("replaced", flags)

        def post(matches, pattern):
            from rebulk.match import Match

            return [*matches, Match(3, 4, input_string="abcdef", **second)]

        bulk.string("c", post_processor=post, **own)
        made += [((2, 3), own), ((3, 4), second)]
    if kind == "chain" and own.get("private"):
        return  # whether a private chain makes the matches of its parts private is left to C04
    root.string("f")
    root.rebulk(child)
    last = ((5, 6), {})
    made = [last, *made] if where == "child" else [*made, last]
    res = root.matches("abcdef")
    want = [sp for sp, f in made if not f.get("marker") and not f.get("private")]
    marks = [sp for sp, f in made if f.get("marker")]
    ctx.check([m.span for m in res] == want, "every public match, in pattern order", ([m.span for m in res], want))
    ctx.check([m.span for m in res.markers] == marks, "every marker", ([m.span for m in res.markers], marks))
    ctx.check(all(not m.marker and not m.private for m in res) and all(m.marker for m in res.markers), "each in its list")
    ctx.cover("child rebulk", where == "child" and kind == "functional" and len(want) == 3)
    ctx.cover("all apart", len(want) == 1 and len(marks) == 2)


@harness("C26", "conflicts", quick=dict(hi=4), cover=["decided by length"], about="overlapping public matches next to markers and private matches")
def conflicts(ctx, p):
    from rebulk.rebulk import Rebulk

    rb = Rebulk()
    sp = []
    for k, kw in enumerate([{}, {"marker": True}, {}]):
        s, e = ctx.int(f"s{k}", 0, p.hi), ctx.int(f"e{k}", 0, p.hi)
        ctx.assume(s < e)
        sp.append((s, e))
        if k == 1 and ctx.flag("private instead"):
            kw = {"private": True}
        rb.functional(at(s, e), name="f%d" % k, **kw)
    res = rb.matches(TXT)
    left = [m.name for m in res]
    a, c = sp[0], sp[2]
    la, lc = a[1] - a[0], c[1] - c[0]
    o = overlap(ctx, a, c)
    ctx.check(ctx.Iff("f0" in left, ctx.Not(ctx.And(o, la < lc))), "only the other public match counts")
    ctx.check(ctx.Iff("f2" in left, ctx.Not(ctx.And(o, lc < la))), "only the other public match counts")
    ctx.cover("decided by length", len(left) == 1)


@harness("C26", "guards", quick={}, cover=["refused", "accepted"], about="adding a match of the wrong kind is refused and changes nothing; slices and copies keep the kind")
def guards(ctx, p):
    from rebulk.match import Markers, Match, Matches

    kind = ctx.flag("markers")
    cls = Markers if kind else Matches
    ms = make_matches(ctx, 2, 9)
    for m in ms:
        m.marker, m.name, m.tags = kind, "n", ["t"]
    lst = cls(list(ms))
    same_list(ctx, lst, ms, "built from matches")
    part = lst[0:1]
    ctx.check(isinstance(part, cls), "a slice is a list of the same kind")
    same_list(ctx, part, ms[:1], "slice")
    if ctx.flag("asked before"):
        lst.named("n"), lst.tagged("t"), lst.starting(0), lst.max_end
    new = Match(ctx.int("s", 0, 5), 9 + ctx.pick("end", 1, 2), name="new", tags=["u"], marker=ctx.flag("marker"))
    op = ctx.choice("op", ["append", "insert", "setitem", "setslice", "extend", "iadd"])
    try:
        if op == "append":
            lst.append(new)
        elif op == "insert":
            lst.insert(0, new)
        elif op == "setitem":
            lst[1] = new
        elif op == "setslice":
            lst[0:1] = [new]
        elif op == "extend":
            lst.extend([new])
        else:
            lst += [new]
    except AssertionError:
        ctx.check(new.marker != kind, "refused only for the wrong kind")
        same_list(ctx, lst, ms, "content unchanged by a refused match")
        same_list(ctx, lst.named("n"), ms, "lookups unchanged by a refused match")
        ctx.check(not lst.named("new") and not lst.tagged("u"), "lookups unchanged by a refused match")
        ctx.check(lst.max_end <= 9, "maximal end unchanged by a refused match")
        ctx.cover("refused")
        return
    ctx.check(new.marker == kind, "the wrong kind is refused")
    ctx.check(is_in(new, lst), "added")
    ctx.cover("accepted")
