"""C16-C19, C23: queries on a match list."""
from symx.api import harness
from props._common import OwnInt, answer, ident_index, is_in, make_matches, same_list

NAMES = ["n0", "n1", "n2", "n3", "n4"]


def some_list(ctx, n, hi, text=None, same_name=None, **kw):
    """A list of n different non-empty matches with arbitrary spans."""
    from rebulk.match import Matches

    ms = make_matches(ctx, n, hi, input_string=text, **kw)
    if same_name if same_name is not None else ctx.flag("same name"):  # different by their spans, or by their names
        for k, m in enumerate(ms):
            m.name = "n"
            m.tags = ["t"]
            for x in ms[:k]:
                ctx.assume(ctx.Or(m.start != x.start, m.end != x.end))
    else:
        for k, m in enumerate(ms):
            m.name = NAMES[k]
    return ms, Matches(list(ms), input_string=text)


def same_set(ctx, got, members, label):
    """got holds exactly the matches whose condition is true, each once; members = [(match, condition)]."""
    got = list(got)
    for i, x in enumerate(got):
        ctx.check(not is_in(x, got[:i]), label + ": each once")
        ctx.check(is_in(x, [m for m, _ in members]), label + ": matches of the list")
    for m, c in members:
        ctx.check(ctx.Iff(is_in(m, got), c), label + ": exactly the qualifying ones")


@harness("C16", "edges", quick=dict(n=3, hi=30), thorough=dict(n=4, hi=30), cover=["shared start"], about="starting and ending, any spans")
def edges(ctx, p):
    ms, lst = some_list(ctx, p.n, p.hi)
    q = ctx.int("q", 0, p.hi)
    if ctx.flag("ending"):
        same_list(ctx, lst.ending(q), [m for m in ms if m.end == q], "ending")
    else:
        r = lst.starting(q)
        same_list(ctx, r, [m for m in ms if m.start == q], "starting")
        ctx.cover("shared start", len(r) == 2)


@harness("C16", "covering", quick=dict(n=3, hi=4), thorough=dict(n=3, hi=6), cover=["nested"], about="at_index, any spans and position")
def covering(ctx, p):
    ms, lst = some_list(ctx, p.n, p.hi)
    q = ctx.int("q", 0, p.hi)
    r = lst.at_index(q)
    same_list(ctx, r, [m for m in ms if ctx.And(m.start <= q, q < m.end)], "at_index")
    ctx.cover("nested", len(r) == p.n)


@harness("C16", "range", quick=dict(n=3, hi=30), thorough=dict(n=4, hi=30), cover=["touching range", "open end"], about="range, any spans and bounds")
def range_(ctx, p):
    ms, lst = some_list(ctx, p.n, p.hi)
    a = ctx.int("a", 0, p.hi)
    if ctx.flag("open end"):
        ctx.assume(ctx.Or([a < m.end for m in ms]))
        r = lst.range(a)
        b = p.hi
        ctx.cover("open end")
    else:
        b = ctx.int("b", 0, p.hi + 2)
        ctx.assume(a < b)
        r = lst.range(a, b)
    same_set(ctx, r, [(m, ctx.And(m.start < b, a < m.end)) for m in ms], "range")
    for x, y in zip(r, r[1:]):
        ctx.check(ctx.Or(x.start < y.start, ctx.And(x.start == y.start, x.end <= y.end)), "range: sorted by span")
    ctx.cover("touching range", ctx.And(ms[0].end == a, len(r) > 0))


@harness("C16", "twins", quick=dict(hi=20), cover=["twins in the range"], about="equal matches (same span, value and name) are both reported by every query")
def twins(ctx, p):
    from rebulk.match import Match, Matches

    s, e, a, b = (ctx.int(k, 0, p.hi) for k in "seab")
    ctx.assume(s < e, a < b)
    ms = [Match(s, e, name="n", value="v"), Match(s, e, name="n", value="v", tags=["t"])]
    ms.append(Match(ctx.int("s2", 0, 3), ctx.int("e2", 4, p.hi), name="o", value="w"))
    lst = Matches(list(ms))
    kind = ctx.choice("query", ["range", "starting", "ending", "named"])
    if kind == "range":
        got, want = lst.range(a, b), [(m, ctx.And(m.start < b, a < m.end)) for m in ms]
    elif kind == "starting":
        got, want = lst.starting(a), [(m, m.start == a) for m in ms]
    elif kind == "ending":
        got, want = lst.ending(a), [(m, m.end == a) for m in ms]
    else:
        got, want = lst.named("n"), [(m, m.name == "n") for m in ms]
    same_set(ctx, got, want, kind)
    ctx.cover("twins in the range", kind == "range" and len(got) == 3)


@harness("C16", "span", quick=dict(n=2, hi=4), thorough=dict(n=3, hi=5), cover=["only the last position", "strictly inside"], about="at_span and at_match, any spans")
def span(ctx, p):
    ms, lst = some_list(ctx, p.n, p.hi)
    a, b = ctx.int("a", 0, p.hi), ctx.int("b", 0, p.hi)
    ctx.assume(a < b)
    if ctx.flag("match"):
        from rebulk.match import Match

        r = lst.at_match(Match(a, b, name="q"))
    else:
        r = lst.at_span((a, b))
    same_set(ctx, r, [(m, ctx.Or(ctx.And(m.start <= a, a < m.end), ctx.And(m.start < b, b <= m.end))) for m in ms], "at_span")
    ctx.cover("only the last position", ctx.And(len(r) == 1, ms[0].start > a, is_in(ms[0], r)))
    ctx.cover("strictly inside", ctx.And(a < ms[0].start, ms[0].end < b))


@harness("C16", "conflicts", quick=dict(n=3, hi=4), thorough=dict(n=3, hi=6), cover=["both others", "touching", "outside match"], about="conflicting, any spans, match of the list or not")
def conflicts(ctx, p):
    ms, lst = some_list(ctx, p.n, p.hi)
    m = ms[ctx.pick("which", 0, 1)]
    if ctx.flag("outside"):
        from rebulk.match import Match

        m = Match(m.start, m.end, name="other")
        ctx.cover("outside match")
    r = lst.conflicting(m)
    same_set(ctx, r, [(x, ctx.And(x.start < m.end, m.start < x.end) if x is not m else False) for x in ms], "conflicting")
    ctx.cover("both others", len(r) == 2)
    ctx.cover("touching", ctx.And(ms[0].end == ms[1].start))


@harness("C17", "previous", quick=dict(n=3, hi=5), thorough=dict(n=4, hi=6), cover=["two nearest", "none", "touching"], about="previous, any spans; the other matches may be empty")
def previous(ctx, p):
    empties = ctx.flag("empties")
    ms, lst = some_list(ctx, p.n, p.hi, nonempty=not empties, same_name=False if empties else None)
    m = ms[0]
    ctx.assume(m.start < m.end)
    if ctx.flag("outside"):
        from rebulk.match import Match

        lst.remove(m)
        ms = ms[1:]
    r = lst.previous(m)
    nearest = [(x, ctx.And(x.end <= m.start, *[ctx.Or(y.end <= x.end, y.end > m.start) for y in ms])) for x in ms]
    same_set(ctx, r, nearest, "previous")
    same_list(ctx, r, [x for x in ms if is_in(x, r)], "previous: list order")
    ctx.cover("two nearest", len(r) == 2)
    ctx.cover("none", len(r) == 0)
    ctx.cover("touching", ctx.And(len(r) == 1, ms[-1].end == m.start))


@harness("C17", "next", quick=dict(n=3, hi=5), thorough=dict(n=4, hi=6), cover=["two nearest", "none", "overlapping"], about="next, any spans; the other matches may be empty")
def next_(ctx, p):
    empties = ctx.flag("empties")
    ms, lst = some_list(ctx, p.n, p.hi, nonempty=not empties, same_name=False if empties else None)
    m = ms[0]
    ctx.assume(m.start < m.end)
    if ctx.flag("outside"):
        lst.remove(m)
        ms = ms[1:]
    r = lst.next(m)
    nearest = [(x, ctx.And(x.start > m.start, *[ctx.Or(y.start >= x.start, y.start <= m.start) for y in ms])) for x in ms]
    same_set(ctx, r, nearest, "next")
    same_list(ctx, r, [x for x in ms if is_in(x, r)], "next: list order")
    ctx.cover("two nearest", len(r) == 2)
    ctx.cover("none", len(r) == 0)
    ctx.cover("overlapping", ctx.And(len(r) == 1, ms[-1].start < m.end))


def hole_range(ctx, lst, hi, **kw):
    """Calls holes on an arbitrary range; returns (holes, start, end)."""
    a = ctx.int("a", 0, hi) if ctx.flag("start given") else 0
    top = lst.max_end
    if ctx.flag("end given"):
        b = ctx.int("b", 0, hi + 1)
        ctx.assume(a <= b)
        r = lst.holes(a, b, **kw)
        b = ctx.Ite(b < top, b, top)
    else:
        b = top
        r = lst.holes(a, **kw)
    return r, a, b


@harness("C18", "holes", quick=dict(n=2, hi=5), thorough=dict(n=3, hi=5), cover=["hole between", "cut by the range", "starts in a gap", "match beyond"], about="any spans, any range, with or without a text")
def holes(ctx, p):
    size = ctx.choice("text", [None, 3])
    text = None if size is None else "abcdefgh"[:size]
    ms, lst = some_list(ctx, p.n, p.hi, text)
    r, a, b = hole_range(ctx, lst, p.hi)
    holes_check(ctx, r, a, b, ms, p.hi)
    ctx.cover("hole between", ctx.And(ms[0].end < ms[1].start, ms[0].start == 0))
    ctx.cover("cut by the range", ctx.And(len(r) == 1, ms[0].end < a, a < ms[1].start, b < ms[1].start))
    ctx.cover("starts in a gap", ctx.And(ms[0].end == a, ms[0].end > 1, ms[1].start > a))
    if text:
        ctx.cover("match beyond", ms[0].end > size)


def holes_check(ctx, r, a, b, ms, hi):
    ctx.observe("holes", [x.span for x in r])
    prev = -1
    for x in r:
        ctx.check(x.start < x.end, "non-empty")
        ctx.check(x.start > prev, "in order and maximal")
        prev = x.end
        ctx.check(not is_in(x, ms), "new matches")
    for k in range(hi + 2):
        cov = ctx.Or([ctx.And(m.start <= k, k < m.end) for m in ms]) if ms else False
        want = ctx.And(a <= k, k < b, ctx.Not(cov))
        ctx.check(ctx.Iff(ctx.Or([ctx.And(x.start <= k, k < x.end) for x in r]) if r else False, want), "exactly the uncovered positions of the range")


@harness("C18", "ignore", quick=dict(n=2, hi=4), thorough=dict(n=3, hi=4), cover=["ignored in a hole"], about="matches ignored by a predicate (any verdicts); formatter and predicate")
def ignore(ctx, p):
    ms, lst = some_list(ctx, p.n, p.hi, "abcd", False)
    ign = [ctx.bool(f"ignore{k}") for k in range(p.n)]
    fmt = lambda raw: "F" + raw  # noqa: E731
    r, a, b = hole_range(ctx, lst, p.hi, ignore=lambda m: answer(ign[ident_index(m, ms)], ident_index(m, ms) + 1), formatter=fmt)
    kept = [m for k, m in enumerate(ms) if not ign[k]]
    holes_check(ctx, r, a, b, kept, p.hi)
    for x in r:
        ctx.check(x.value == "F" + "abcd"[x.start:x.end], "formatter")
    if len(kept) < p.n:
        ctx.cover("ignored in a hole", len(r) > 0)


@harness("C18", "separators", quick=dict(n=1, size=5, seps=2), thorough=dict(n=2, size=5, seps=2), cover=["leading separator", "split hole", "range starts on a separator"],
         about="any text, any spans, any range, with separators")
def separators(ctx, p):
    text = ctx.string("text", "aA- \n\t\0.", p.size, p.size)
    ms, lst = some_list(ctx, p.n, p.size, text, True)
    seps = ctx.string("seps", "A- \n\t\0.", 1, p.seps)
    r, a, b = hole_range(ctx, lst, p.size, seps=seps)
    ctx.observe("holes", [x.span for x in r])
    sep = [ctx.Or([text[k] == c for c in seps]) for k in range(p.size)]
    prev = -1
    for x in r:
        ctx.check(x.start < x.end, "non-empty")
        ctx.check(x.start >= prev, "disjoint and in order")
        ctx.check(ctx.And(a <= x.start, x.end <= b), "inside the range")
        prev = x.end
    for k in range(p.size):
        cov = ctx.Or([ctx.And(m.start <= k, k < m.end) for m in ms])
        hole = ctx.Or([ctx.And(x.start <= k, k < x.end) for x in r]) if r else False
        inner = ctx.Or([ctx.And(x.start < k, k < x.end) for x in r]) if r else False
        rng = ctx.And(a <= k, k < b)
        ctx.check(ctx.Implies(hole, ctx.Not(cov)), "holes are uncovered")
        ctx.check(ctx.Implies(ctx.And(rng, ctx.Not(cov), ctx.Not(hole)), sep[k]), "uncovered positions outside holes hold separators")
        ctx.check(ctx.Implies(inner, ctx.Not(sep[k])), "no separator after the first character")
    ctx.cover("leading separator", ctx.And(sep[0], a == 0, len(r) > 0))
    ctx.cover("split hole", ctx.And(len(r) == 2, sep[2], ms[0].end == 1))
    ctx.cover("range starts on a separator", ctx.And(a == 2, sep[2], ms[0].end == 1, b > 3))


def chain_setup(ctx, p):
    text = ctx.string("text", "aA- \n\t\0.", p.size, p.size)
    use = ctx.flag("predicate")
    ms, lst = some_list(ctx, p.n, p.size, text, not use)
    acc = [ctx.bool(f"accept{k}") for k in range(p.n)] if use else [True] * p.n
    kw = {"predicate": lambda m: answer(acc[ident_index(m, ms)], ident_index(m, ms) + 1)} if use else {}
    seps = ctx.string("seps", "A- \n\t\0.", 1, p.seps)
    sep = [ctx.Or([text[k] == c for c in seps]) for k in range(p.size)]
    ok = [ctx.Or(sep[k], *[ctx.And(acc[i], ms[i].start <= k, k < ms[i].end) for i in range(p.n)]) for k in range(p.size)]
    return seps, ms, lst, kw, acc, ok


def chain_verify(ctx, r, ms, acc, reached, key):
    """reached[k]: the walk gets to position k unbroken; key(m): distance at which the walk meets m."""
    members = [(m, ctx.And(acc[i], ctx.Or([ctx.And(m.start <= k, k < m.end, c) for k, c in reached.items()]))) for i, m in enumerate(ms)]
    same_set(ctx, r, members, "chain")
    for x, y in zip(r, r[1:]):
        kx, ky = key(x), key(y)
        ctx.check(ctx.Or(kx < ky, ctx.And(kx == ky, ident_index(x, ms) < ident_index(y, ms))), "nearest first")


@harness("C19", "before", quick=dict(n=2, size=4, seps=1), thorough=dict(n=3, size=4, seps=2), cover=["two chained", "stopped by text", "match given", "limit"],
         about="any text, spans, position, limit and predicate verdicts")
def before(ctx, p):
    seps, ms, lst, kw, acc, ok = chain_setup(ctx, p)
    if ctx.flag("match given"):
        arg = ms[0]
        pos = arg.start
        if ctx.flag("raw"):
            arg.raw_start, arg.raw_end = ctx.pick("raw start", 0, 1), p.size - 1  # the span counts, not the raw span
        ctx.cover("match given")
    else:
        arg = pos = ctx.int("pos", 0, p.size + 1)
    lim = 0
    if ctx.flag("limit"):
        lim = kw["start"] = ctx.int("lim", 0, p.size)
    r = lst.chain_before(arg, seps, **kw)
    reached = {k: ctx.And(lim <= k, k < pos, *[ctx.Or(j >= pos, ok[j]) for j in range(k + 1, p.size)]) for k in range(p.size)}
    chain_verify(ctx, r, ms, acc, reached, lambda m: ctx.Ite(m.end < pos, 0 - m.end, 0 - pos))
    ctx.cover("two chained", len(r) == 2)
    ctx.cover("stopped by text", ctx.And(len(r) == 0, ms[0].end + 1 == pos))
    ctx.cover("limit", ctx.And(lim > 0, len(r) == 1))


@harness("C19", "after", quick=dict(n=2, size=4, seps=1), thorough=dict(n=3, size=4, seps=2), cover=["two chained", "stopped by text", "match given", "limit"],
         about="any text, spans, position, limit and predicate verdicts")
def after(ctx, p):
    seps, ms, lst, kw, acc, ok = chain_setup(ctx, p)
    if ctx.flag("match given"):
        arg = ms[0]
        pos = arg.end
        if ctx.flag("raw"):
            arg.raw_start, arg.raw_end = 1, p.size - ctx.pick("raw end", 0, 1)
        ctx.cover("match given")
    else:
        arg = pos = ctx.int("pos", 0, p.size + 1)
    lim = p.size
    if ctx.flag("limit"):
        lim = kw["end"] = ctx.int("lim", 0, p.size + 1)
    r = lst.chain_after(arg, seps, **kw)
    reached = {k: ctx.And(pos <= k, k < lim, *[ctx.Or(j < pos, ok[j]) for j in range(0, k)]) for k in range(p.size)}
    chain_verify(ctx, r, ms, acc, reached, lambda m: ctx.Ite(m.start > pos, m.start, pos))
    ctx.cover("two chained", len(r) == 2)
    ctx.cover("stopped by text", ctx.And(len(r) == 0, ms[0].start == pos + 1))
    ctx.cover("limit", ctx.And(lim < p.size, len(r) == 1))


QUERIES = {
    "named": lambda l, m, *a, **k: l.named("n", *a, **k),
    "named2": lambda l, m, *a, **k: l.named("n", "zz", *a, **k),
    "tagged": lambda l, m, *a, **k: l.tagged("t", *a, **k),
    "starting": lambda l, m, *a, **k: l.starting(m.start, *a, **k),
    "ending": lambda l, m, *a, **k: l.ending(m.end, *a, **k),
    "range": lambda l, m, *a, **k: l.range(m.start, m.end, *a, **k),
    "previous": lambda l, m, *a, **k: l.previous(m, *a, **k),
    "next": lambda l, m, *a, **k: l.next(m, *a, **k),
    "conflicting": lambda l, m, *a, **k: l.conflicting(m, *a, **k),
    "at_match": lambda l, m, *a, **k: l.at_match(m, *a, **k),
    "at_span": lambda l, m, *a, **k: l.at_span((m.start, m.end), *a, **k),
    "at_index": lambda l, m, *a, **k: l.at_index(m.start, *a, **k),
}
BY_SPAN = {
    "holes": lambda l, m, **k: l.holes(0, None, **k),
    "children holes": lambda l, m, **k: l.holes(m.start, m.end, ignore=lambda x: x is m, **k),
}


@harness("C23", "queries", quick=dict(n=3, hi=2), thorough=dict(n=3, hi=3), cover=["filtered", "negative index", "out of bounds"],
         about="every query, any predicate verdicts, any index; the returned list is the caller's own")
def queries(ctx, p):
    from rebulk.match import Match, Markers, Matches

    kind = ctx.choice("query", list(QUERIES))
    q = QUERIES[kind]
    ms = make_matches(ctx, p.n, p.hi)
    marker = ctx.flag("markers")
    for k, m in enumerate(ms):
        m.name, m.value, m.tags, m.marker = "n", k + 1, ["t"], marker
    lst = (Markers if marker else Matches)(list(ms))
    probe = ms[0]
    plain = list(q(lst, probe))
    acc = [ctx.bool(f"accept{k}") for k in range(p.n)]
    pred = lambda m: answer(acc[m.value - 1], m.value)  # noqa: E731
    if len(plain) < 2 and ctx.flag("skip singles"):
        return
    kept = [m for m in plain if acc[m.value - 1]]
    same_list(ctx, q(lst, probe, pred), kept, "predicate")
    if len(kept) != len(plain):
        ctx.cover("filtered", len(kept) > 0)
    i = ctx.pick("index", -p.n - 1, p.n)

    def at(items):
        return items[i] if -len(items) <= i < len(items) else None

    form = ctx.choice("form", ["in place of the predicate", "keyword", "both"])
    if form == "both":
        ctx.check(q(lst, probe, pred, i) is at(kept), "predicate and index")
    elif form == "keyword":
        ctx.check(q(lst, probe, predicate=pred, index=i) is at(kept), "keywords")
        ctx.check(q(lst, probe, index=i) is at(plain), "index keyword")
    else:
        ctx.check(q(lst, probe, i) is at(plain), "index")
    ctx.cover("negative index", i < 0 and at(plain) is not None)
    ctx.cover("out of bounds", at(plain) is None and len(plain) > 1)
    got = q(lst, probe)
    got.append(probe)
    got.reverse()
    same_list(ctx, q(lst, probe), plain, "altering a result alters nothing")
    same_list(ctx, lst, ms, "content")


@harness("C23", "holes", quick=dict(n=2, hi=4), cover=["filtered", "out of bounds"], about="the same for holes (new matches, compared by span)")
def holes_query(ctx, p):
    from rebulk.match import Matches

    kind = ctx.choice("query", list(BY_SPAN))
    q = BY_SPAN[kind]
    ms = make_matches(ctx, p.n, p.hi)
    lst = Matches(list(ms), input_string="abcd")
    plain = [m.span for m in q(lst, ms[0])]
    limit = ctx.int("limit", 0, p.hi)
    pred = lambda m: m.start >= limit  # noqa: E731
    kept = [s for s in plain if s[0] >= limit]
    ctx.check(ctx.eq([m.span for m in q(lst, ms[0], predicate=pred)], kept), "predicate")
    i = ctx.pick("index", -2, 2)
    items = kept if ctx.flag("both") else plain
    r = q(lst, ms[0], predicate=pred, index=i) if items is kept else q(lst, ms[0], index=i)
    if -len(items) <= i < len(items):
        ctx.check(r is not None and ctx.eq(r.span, items[i]), "index")
    else:
        ctx.check(r is None, "out of bounds")
        ctx.cover("out of bounds")
    ctx.cover("filtered", 0 < len(kept) < len(plain))


@harness("C23", "filter", quick=dict(n=4), thorough=dict(n=6), cover=["filtered", "index only"], about="the selection helper on any list of integers")
def filter_(ctx, p):
    from rebulk.loose import filter_index

    n = ctx.pick("n", 0, p.n)
    items = [ctx.int(f"x{k}", 0, 9) for k in range(n)]
    limit = ctx.int("limit", 0, 9)
    i = ctx.pick("index", -p.n - 1, p.n)
    kept = [x for x in items if x < limit]
    yes, no = ctx.choice("answers", [(True, False), (1, None), ("x", 0)])
    got = filter_index(list(items), lambda x: yes if x < limit else no)
    ctx.check(ctx.eq(got, kept), "predicate")
    want = kept[i] if -len(kept) <= i < len(kept) else None
    ctx.check(ctx.eq(filter_index(list(items), lambda x: x < limit, i), want), "both")
    want = items[i] if -n <= i < n else None
    ctx.check(ctx.eq(filter_index(list(items), i), want), "index in place of the predicate")
    ctx.check(ctx.eq(filter_index(list(items), OwnInt(i)), want), "index of a class of the caller")
    ctx.check(ctx.eq(filter_index(list(items), None, i), want), "index")
    ctx.check(ctx.eq(filter_index(list(items)), items), "plain")
    ctx.cover("filtered", len(kept) == 2)
    ctx.cover("index only", want is not None)


# -- asked again after a change -------------------------------------------------------------------------------------
AGAIN = {
    "C16": {k: QUERIES[k] for k in ("starting", "ending", "range", "conflicting", "at_match", "at_span", "at_index", "named", "tagged")},
    "C17": {k: QUERIES[k] for k in ("previous", "next")},
    "C18": {"holes": lambda l, m: l.holes(), "holes in": lambda l, m: l.holes(0, 3), "holes seps": lambda l, m: l.holes(seps="-" if l.input_string else None),
            "holes formatter": lambda l, m: l.holes(formatter=str)},
    "C19": {"chain_before": lambda l, m: l.chain_before(m, "-"), "chain_after": lambda l, m: l.chain_after(m, "-"),
            "chain_before at": lambda l, m: l.chain_before(3, "-", 0), "chain_after at": lambda l, m: l.chain_after(1, "-", 3)},
}


def again(ctx, p, cid):
    from rebulk.match import Match, Matches

    kind = ctx.choice("query", list(AGAIN[cid]))
    q = AGAIN[cid][kind]
    text = "a-b-"
    ms = make_matches(ctx, 2, 3, input_string=text)
    for k, m in enumerate(ms):
        m.name, m.tags, m.value = "n", ["t"], k + 1
    spare = Match(*[(0, 1), (1, 3)][ctx.pick("spare", 0, 1)], name="n", tags=["t"], value=9, input_string=text)
    probe = Match(*[(0, 2), (1, 2)][ctx.pick("probe", 0, 1)], value="probe", input_string=text)
    if ctx.flag("probe of the list"):
        probe = ms[0]
    lst = Matches(list(ms), input_string=text)
    first = q(lst, probe)
    before = list(first)
    same_list(ctx, lst, ms, "asking changes nothing in the list")
    op = ctx.choice("op", ["replace", "append", "insert", "remove", "pop", "swap", "slice", "text", "answer changed"])
    if op == "replace":
        lst[ctx.pick("at", 0, 1)] = spare
    elif op == "append":
        lst.append(spare)
    elif op == "insert":
        lst.insert(0, spare)
    elif op == "remove":
        lst.remove(ms[1])
    elif op == "pop":
        lst.pop(0)
    elif op == "swap":
        lst.reverse()
    elif op == "slice":
        lst[0:2] = [spare, ms[1]]
    elif op == "text":
        lst.input_string = "--bcd"
    else:
        del first[:]
        first.append(spare)
    fresh = Matches(list(lst), input_string=lst.input_string)
    got, want = list(q(lst, probe)), list(q(fresh, probe))
    if cid == "C18":
        ctx.check(len(got) == len(want) and ctx.And([ctx.And(a.start == b.start, a.end == b.end) for a, b in zip(got, want)]), "the holes of the present content", (got, want))
        ctx.check(all((a.input_string, a.formatter) == (b.input_string, b.formatter) for a, b in zip(got, want)), "text and formatter")
    else:
        same_list(ctx, got, want, "as for a list never asked")
    ctx.cover("differs", len(got) != len(before))


@harness("C16", "again", quick=dict(), cover=["differs"], about="any query asked again after any change of the list, or of the list returned: as for a list never asked before")
def c16_again(ctx, p):
    again(ctx, p, "C16")


@harness("C17", "again", quick=dict(), cover=["differs"], about="previous and next asked again after any change of the list: as for a list never asked before")
def c17_again(ctx, p):
    again(ctx, p, "C17")


@harness("C18", "again", quick=dict(), cover=["differs"], about="holes asked again after any change of the list: as for a list never asked before")
def c18_again(ctx, p):
    again(ctx, p, "C18")


@harness("C19", "again", quick=dict(), cover=["differs"], about="chains asked again after any change of the list: as for a list never asked before")
def c19_again(ctx, p):
    again(ctx, p, "C19")
