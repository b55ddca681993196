"""C08-C10: pattern chains."""
from symx.api import harness

BOUNDS = {"1": (1, 1), "2": (2, 2), "{2}": (2, 2), "?": (0, 1), "*": (0, None), "+": (1, None), "{1,2}": (1, 2), "{2,3}": (2, 3), "{,2}": (0, 2),
          "{2,}": (2, None), "{0,1}": (0, 1)}


def within(n, rep):
    lo, hi = BOUNDS[rep]
    return n >= lo and (hi is None or n <= hi)


KINDS = [{}, {"marker": True}, {"private": True}, {"marker": True, "private": True}]


def build(ctx, parts, options=(), **chain_kw):
    """parts: list of (text, repeater or None, hidden).  Returns (Chain, [part pattern])."""
    from rebulk import Rebulk

    ctx.fork_find()
    cb = Rebulk().chain(**chain_kw)
    for k, (text, rep, hidden) in enumerate(parts):
        part = cb.string(text, **(options[k] if k < len(options) else {}))
        for r in rep if isinstance(rep, tuple) else [rep]:
            if r is not None:
                part.repeater(r)  # the last one set counts
        if hidden:
            part.hidden()
        cb = part
    rebulk = part.close()
    chain = rebulk.effective_patterns()[0]
    return chain, [p.pattern for p in chain.parts]


def part_of(child, patterns):
    for i, q in enumerate(patterns):
        if child.pattern is q:
            return i
    return -1


def hidden_counts(n, lo_hi, size):
    lo, hi = lo_hi
    cap = n // size
    return range(lo, (cap if hi is None else min(hi, cap)) + 1)


def sound(ctx, m, parts, patterns, text):
    """Some assignment of repetitions to the hidden parts explains this chain match."""
    n = len(text)
    idx = [part_of(c, patterns) for c in m.children]
    ctx.check(all(i >= 0 for i in idx) and idx == sorted(idx), "children come from the parts, in declared order", idx)
    ctx.check(not any(parts[i][2] for i in idx), "hidden parts give no children")
    counts = [idx.count(i) for i in range(len(parts))]
    for i, (_, rep, hidden) in enumerate(parts):
        if not hidden:
            ctx.check(within(counts[i], rep), "repetitions within bounds", (i, counts[i], rep))
    hid = [i for i, x in enumerate(parts) if x[2]]
    options = [[]]
    for i in hid:
        options = [o + [c] for o in options for c in hidden_counts(n, BOUNDS[parts[i][1]], len(parts[i][0]))]
    explain = []
    for o in options:
        cnt = list(counts)
        for i, c in zip(hid, o):
            cnt[i] = c
        offs, q, kids = [], 0, []
        for i, (t, _, hidden) in enumerate(parts):
            for _ in range(cnt[i]):
                offs.append((q, t))
                if not hidden:
                    kids.append((q, t))
                q += len(t)
        if not kids or q > n:
            continue
        base = m.children[0].start - kids[0][0]
        conds = [base >= 0, base + q <= n]
        conds += [text[base + d:base + d + len(t)] == t for d, t in offs]
        conds += [ctx.And(c.start == base + d, c.end == base + d + len(t)) for c, (d, t) in zip(m.children, kids)]
        explain.append(ctx.And(conds))
    ctx.check(ctx.Or(explain) if explain else False, "the stretch is the gapless concatenation of the parts, children at their true positions")
    ctx.check(ctx.And(m.start == m.children[0].start, m.end == m.children[-1].end), "span from the first to the last child")
    for c in m.children:
        ctx.check(c.parent is m and c.input_string is text, "children belong to the match and to the whole text")


def soundness(ctx, parts, text):
    chain, patterns = build(ctx, parts)
    ms = chain.matches(text)
    ctx.observe("ms", [(m.start, m.end, [(c.start, c.end) for c in m.children]) for m in ms])
    prev = 0
    for m in ms:
        ctx.check(len(m.children) > 0, "a chain match has children")
        sound(ctx, m, parts, patterns, text)
        ctx.check(m.start >= prev, "chain matches follow each other without overlapping")
        prev = m.end
    return ms


@harness("C08", "two_parts", quick=dict(n=4, reps=["1", "?", "*", "+", "{1,2}"]), thorough=dict(n=7, reps=sorted(BOUNDS)), cover=["two chain matches", "hidden part"],
         about="two parts, every repeater and hidden flag, text over {a, b, _, space, -}")
def two_parts(ctx, p):
    texts = ctx.choice("texts", [("a", "b"), ("a", "ab"), ("aa", "a"), ("ba", "b")])
    parts = [(t, ctx.choice(f"rep{i}", p.reps), ctx.flag(f"hidden{i}")) for i, t in enumerate(texts)]
    text = ctx.string("text", "ab_ -\n\t\0.", 0, p.n)
    ms = soundness(ctx, parts, text)
    ctx.cover("two chain matches", len(text) >= 4 and len(ms) == 2)
    ctx.cover("hidden part", parts[0][2] or parts[1][2])


@harness("C08", "three_parts", quick=dict(n=5, reps=["1", "?", "+"]), thorough=dict(n=7, reps=["1", "?", "*", "+", "{2}"]), cover=["restart inside"],
         about="three parts over {a,b,c}: restarts after a failed attempt")
def three_parts(ctx, p):
    texts = ctx.choice("texts", [("a", "b", "c"), ("a", "b", "a"), ("ab", "a", "b")])
    parts = [(t, ctx.choice(f"rep{i}", p.reps), i == 1 and ctx.flag("hidden1")) for i, t in enumerate(texts)]
    text = ctx.string("text", "abc_\n.", 0, p.n)
    soundness(ctx, parts, text)
    ctx.cover("restart inside", text == "abca" if len(text) == 4 else False)


def written(ctx, parts, counts):
    return [t for (t, _, _), c in zip(parts, counts) for _ in range(c)]


@harness("C08", "raw spans", quick=dict(before=2, size=3), thorough=dict(before=3, size=5), cover=["first part", "second part", "before", "after"],
         about="a processor of a part narrows the span and keeps the raw one: the chain goes on after the raw span, both are at their true positions")
def raw_spans(ctx, p):
    from rebulk import Rebulk

    text = "_" * ctx.pick("before", 0, p.before)
    base = len(text)
    words = ["a" * (p.size - 1) + "b", "c" * (p.size - 1) + "d"]
    text = text + words[0] + words[1] + "x" + "_"
    which = ctx.pick("part", 0, 1)
    s, e = ctx.int("cut", 0, p.size - 1), ctx.int("keep", 1, p.size)
    ctx.assume(s < e)
    moment = ctx.choice("moment", ["pre_match_processor", "post_match_processor"])

    def narrow(m):
        if s > 0:
            m.raw_start, m.start = m.start, m.start + s
            ctx.cover("before")
        if e < p.size:
            m.raw_end, m.end = m.end, m.end - (p.size - e)
            ctx.cover("after")

    ch = Rebulk().chain(name="c")
    for k, w in enumerate(words):
        ch = ch.string(w, **({moment: narrow} if k == which else {}))
    got = ch.string("x").close().effective_patterns()[0].matches(text)
    ctx.check(len(got) == 1 and len(got[0].children) == 3, "found", got)
    for k, c in enumerate(got[0].children[:2]):
        b = base + k * p.size
        ctx.check(ctx.And(c.raw_start == b, c.raw_end == b + p.size), "raw span", (k, c.raw_start, c.raw_end))
        ctx.check(c.raw == words[k], "raw text", c.raw)
        ctx.check(ctx.And(c.start == (b + s if k == which else b), c.end == (b + e if k == which else b + p.size)), "narrowed span", (k, c.span))
    ctx.check(got[0].children[2].span == (base + 2 * p.size, base + 2 * p.size + 1), "the next part follows the raw span")
    ctx.cover("first part", which == 0)
    ctx.cover("second part", which == 1)


@harness("C08", "regex parts", quick=dict(kids=1, reps=2), thorough=dict(kids=2, reps=3), cover=["groups only", "groups and match", "repeated", "hidden", "twin groups"],
         assumes=["the regex engine is a stub reporting adjacent occurrences with arbitrary group spans in them"],
         about="parts with groups: every match and group their patterns return is a child of the chain match, once, at its true position")
def regex_parts(ctx, p):
    from props._common import TEXT, FakeRegex
    from rebulk import Rebulk

    base = ctx.pick("base", 0, 1)
    mid = base + ctx.pick("len0", 1, 2)
    reps = ctx.pick("reps", 1, p.reps)
    spans = [[(base, mid)], [(mid + 2 * i, mid + 2 * i + 2) for i in range(reps)]]
    groups = [[], []]
    for part in (0, 1):
        nk = ctx.pick(f"kids{part}", 0, p.kids + (part == 1 and reps == 1 and p.kids == 1))
        for i, (s, e) in enumerate(spans[part]):
            caps = []
            for k in range(nk):
                gs, ge = ctx.int(f"g{part}{i}{k}s", s, e), ctx.int(f"g{part}{i}{k}e", s, e)
                ctx.assume(gs < ge)
                caps.append((gs, ge))
            groups[part].append(caps)
    modes = [ctx.choice(f"mode{k}", ["default", "children", "every"]) for k in (0, 1)]
    hide = ctx.flag("hidden")
    named = ctx.flag("named")
    names = [["g", "h"], ["i", "j"]] if named else [[None, None], [None, None]]

    def engine(part):
        def occurrences(string):
            off = len(TEXT) - len(string)
            return [((s - off, e - off), [[(a - off, b - off)] for a, b in caps]) for (s, e), caps in zip(spans[part], groups[part]) if s >= off]

        return FakeRegex(names[part][:len(groups[part][0])], occurrences)

    ch = Rebulk().chain(name="c")
    for part in (0, 1):
        ch = ch.regex(engine(part), name=f"p{part}", **({modes[part]: True} if modes[part] != "default" else {}))
        if part == 1:
            ch.repeater("+")
        elif hide:
            ch.hidden()
    chain = ch.close().effective_patterns()[0]
    for q in chain.parts:
        q.pattern.repeated_captures = False
    got = chain.matches(TEXT)
    want = []  # (part, start, end, name), groups before the match they belong to
    for part in (0, 1):
        if part == 0 and hide:
            continue
        for (s, e), caps in zip(spans[part], groups[part]):
            want += [(part, a, b, names[part][k] or f"p{part}") for k, (a, b) in enumerate(caps)]
            if modes[part] != "children":
                want.append((part, s, e, f"p{part}"))
    if not want:
        ctx.check(len(got) == 0, "no chain match without children", got)
        return
    ctx.check(len(got) == 1, "one chain match", got)
    m = got[0]
    kids = [(0 if c.pattern is chain.parts[0].pattern else 1, c.start, c.end, c.name) for c in m.children]
    ctx.check(len(kids) == len(want) and [c[0] for c in kids] == [w[0] for w in want], "one child per match and group returned, in the order of the parts", (kids, want))
    ctx.check(ctx.eq(kids, want), "at their true positions, groups before the match they belong to", (kids, want))
    ctx.check(ctx.And([c.input_string == TEXT for c in m.children]), "on the whole text")
    tops = [w for w in want if modes[w[0]] == "children" or w[3] in ("p0", "p1")]
    ctx.check(ctx.And([m.start <= w[1] for w in tops] + [m.end >= w[2] for w in tops]), "the span covers every match returned")
    ctx.check(ctx.And(ctx.Or([m.start == w[1] for w in tops]), ctx.Or([m.end == w[2] for w in tops])), "and nothing more")
    ctx.cover("groups only", modes[1] == "children" and any(groups[1]))
    ctx.cover("groups and match", modes[0] == "every" and any(groups[0]))
    ctx.cover("repeated", reps > 1 and any(groups[1]))
    ctx.cover("hidden", hide)
    if len(groups[1][0]) == 2 and modes[1] == "children" and not named:
        ctx.cover("twin groups", ctx.eq(groups[1][0][0], groups[1][0][1]))


@harness("C08", "functional parts", quick=dict(reps=2), thorough=dict(reps=3), cover=["options", "gap", "repeated", "hidden", "nothing"],
         assumes=["the function of the last part is a stub returning spans, options or both for the text it is given"],
         about="parts that are functions: they are given the text left, their adjacent matches are children with their options, at their true positions")
def functional_parts(ctx, p):
    from props._common import TEXT
    from rebulk import Rebulk

    first = ctx.pick("first", 1, 2)
    base = ctx.pick("base", 0, 1)
    reps = ctx.pick("reps", 0, p.reps)
    spans, opts = [], []
    q = base + first
    for i in range(reps):
        q = q + ctx.int(f"gap{i}", 0, 1)
        size = ctx.int(f"size{i}", 1, 2)
        spans.append((q, q + size))
        q = q + size
        opts.append(ctx.choice(f"options{i}", [{}, {"name": "own"}, {"tags": ["u"]}]))
    shape = ctx.choice("shape", ["tuples", "dicts"])
    hide = ctx.flag("hidden")
    seen = []

    def function(string):
        seen.append(string)
        off = len(TEXT) - len(string)
        if off < base + first:
            return None  # the chain starts only once
        here = [((s - off, e - off), o) for (s, e), o in zip(spans, opts)]
        if shape == "dicts":
            return [dict(o, start=s, end=e) for (s, e), o in here]
        return [(s, e, dict(o)) if o else (s, e) for (s, e), o in here]

    ch = Rebulk().chain(name="c").string(TEXT[base:base + first], name="a")
    ch = ch.functional(function, name="f", tags=["t"])
    ch.repeater("*")
    if hide:
        ch.hidden()
    chain = ch.close().effective_patterns()[0]
    got = chain.matches(TEXT)
    run = []
    edge = base + first
    for (s, e), o in zip(spans, opts):
        if s == edge:
            run.append((s, e, o))
            edge = e
        else:
            break
    ctx.check(seen[0] == TEXT[base + first:], "given the text left", seen[:1])
    ctx.check(len(got) == 1, "one chain match", got)
    m = got[0]
    want = [(base, base + first, "a", [])] + ([] if hide else [(s, e, o.get("name", "f"), o.get("tags", ["t"])) for s, e, o in run])
    kids = [(c.start, c.end, c.name, c.tags) for c in m.children]
    ctx.check(len(kids) == len(want), "the adjacent matches are the children", (kids, want))
    ctx.check(ctx.eq(kids, want), "with their options, at their true positions", (kids, want))
    ctx.check(ctx.And(m.start == base, m.end == want[-1][1]), "the span")
    ctx.check(all(c.input_string == TEXT and c.parent is m for c in m.children), "on the whole text")
    ctx.cover("options", len(run) > 0 and bool(run[0][2]) and shape == "tuples")
    ctx.cover("gap", len(run) < reps)
    ctx.cover("repeated", len(run) > 1)
    ctx.cover("hidden", hide and len(run) > 0)
    ctx.cover("nothing", reps == 0)


@harness("C09", "written_out", quick=dict(reps=sorted(BOUNDS), stretches=1, foreign=2, parts=2, cap=3),
         thorough=dict(reps=["1", "{2}", "?", "*", "+", "{1,2}", "{2,}"], stretches=2, foreign=2, parts=3, cap=3), cover=["repeated part", "optional part absent", "hidden part"],
         about="foreign text, the parts written out within their bounds, foreign text: found as one chain match each time")
def written_out(ctx, p):
    texts = [ctx.choice("text0", ["a", "ab"]), "c", "d"][:p.parts]
    parts = [(t, ctx.choice(f"rep{i}", p.reps), ctx.flag(f"hidden{i}")) for i, t in enumerate(texts)]
    ctx.assume(BOUNDS[parts[0][1]][0] >= 1)
    body = ctx.string("f0", "_ -x\n\t\0.", 0, p.foreign)
    text = body
    want = []
    for k in range(ctx.pick("stretches", 1, p.stretches)):
        kids = []
        pos = len(text)
        for i, (t, rep, hidden) in enumerate(parts):
            lo, hi = BOUNDS[rep]
            c = ctx.pick(f"count{k}.{i}", lo, p.cap if hi is None else hi)
            for _ in range(c):
                if not hidden:
                    kids.append((pos, pos + len(t)))
                pos += len(t)
                text = text + t
            ctx.cover("repeated part", c > 1)
            ctx.cover("optional part absent", c == 0)
            ctx.cover("hidden part", hidden)
        text = text + ctx.string(f"f{k + 1}", "_ -x\n\t\0.", 1 if k + 1 < p.stretches else 0, p.foreign)
        if kids:
            want.append((kids[0][0], kids[-1][1], kids))
    text = ctx.wrap(text)
    chain, patterns = build(ctx, parts)
    ms = chain.matches(text)
    got = [(m.start, m.end, [(c.start, c.end) for c in m.children]) for m in ms]
    ctx.observe("got", got)
    ctx.check(ctx.eq(got, want), "each written-out stretch is one chain match", (got, want))


@harness("C09", "repeater_notation", quick=dict(cap=4), cover=["{m}", "int"],
         about="every notation of a repeater accepts exactly the numbers of repetitions it denotes")
def repeater_notation(ctx, p):
    lo = ctx.pick("lo", 0, 3)
    hi = ctx.pick("hi", 0, 3)
    big = ctx.flag("two digits")
    if big:
        lo, hi = lo + 9, hi + 9
    form = ctx.choice("form", ["int", "str", "{m}", "{m,}", "{,n}", "{m,n}", "{ m , n }", "?", "*", "+", "none"])
    if form in ("{m,n}", "{ m , n }"):
        ctx.assume(lo <= hi)
    rep, bounds = {
        "int": (lo, (lo, lo)), "str": (str(lo), (lo, lo)), "{m}": ("{%d}" % lo, (lo, lo)), "{m,}": ("{%d,}" % lo, (lo, None)),
        "{,n}": ("{,%d}" % hi, (0, hi)), "{m,n}": ("{%d,%d}" % (lo, hi), (lo, hi)), "{ m , n }": ("{ %d , %d }" % (lo, hi), (lo, hi)),
        "?": ("?", (0, 1)), "*": ("*", (0, None)), "+": ("+", (1, None)), "none": (None, (1, 1))}[form]
    ctx.cover(form)
    count = ctx.pick("count", 0, p.cap)
    if big:
        count += 8
    before = ctx.choice("set before", [None, "{1,2}", "+", 2]) if not big else None
    # first part mandatory, then the repeated part, then an end mark: found exactly when the count is allowed
    text = ctx.wrap("a" + "b" * count + "c")
    ctx.assume(before is None or rep is not None)
    chain, _ = build(ctx, [("a", None, False), ("b", rep if before is None else (before, rep), False), ("c", None, False)])
    ms = chain.matches(text)
    ok = count >= bounds[0] and (bounds[1] is None or count <= bounds[1])
    ctx.check(len(ms) == (1 if ok else 0), "found exactly when the number of repetitions is allowed", (rep, count))
    for m in ms:
        ctx.check(m.start == 0 and m.end == count + 2 and len(m.children) == count + 2, "whole stretch")


@harness("C09", "stretches", quick=dict(stretches=3, reps=["1", "?", "+"]), thorough=dict(stretches=4, reps=["1", "2", "?", "*", "+", "{1,2}"]), cover=["three stretches", "one-character stretch last", "adjacent stretches"],
         about="several stretches in one text, separated (or adjacent when the first part is exact) and surrounded by foreign characters")
def stretches(ctx, p):
    texts = ("a", ctx.choice("text1", ["b", "bc"]))
    parts = [("a", ctx.choice("rep0", ["1", "+"]), False), (texts[1], ctx.choice("rep1", p.reps), ctx.flag("hidden1"))]
    text = ctx.string("f0", "_ -x\n\t\0.", 0, 1)
    want = []
    # an exact first part delimits the stretches by itself
    gap = 0 if parts[0][1] == "1" else 1
    n = ctx.pick("stretches", 1, p.stretches)
    for k in range(n):
        kids, pos = [], len(text)
        for i, (t, rep, hidden) in enumerate(parts):
            lo, hi = BOUNDS[rep]
            for _ in range(ctx.pick(f"count{k}.{i}", lo, 2 if hi is None else hi)):
                if not hidden:
                    kids.append((pos, pos + len(t)))
                pos += len(t)
                text = text + t
        text = text + ctx.string(f"f{k + 1}", "_ -x\n\t\0.", gap if k + 1 < n else 0, 1)
        want.append((kids[0][0], kids[-1][1], kids))
    text = ctx.wrap(text)
    chain, patterns = build(ctx, parts)
    got = [(m.start, m.end, [(c.start, c.end) for c in m.children]) for m in chain.matches(text)]
    ctx.check(ctx.eq(got, want), "each written-out stretch is one chain match", (got, want))
    ctx.cover("three stretches", n >= 3)
    ctx.cover("adjacent stretches", n > 1 and want[1][0] == want[0][1])
    ctx.cover("one-character stretch last", n > 1 and want[-1][1] - want[-1][0] == 1 and want[-1][1] == len(text))


@harness("C09", "nested", quick=dict(reps=2, cs=2), thorough=dict(reps=3, cs=3), cover=["repeated chain", "absent chain", "two stretches", "hidden"],
         about="a chain as part of a chain, repeated like any other part: its matches and their children are children of the outer match")
def nested(ctx, p):
    from rebulk import Rebulk

    rep = ctx.choice("repeater", ["1", "?", "*", "+", "{1,2}"])
    lo, hi = BOUNDS[rep]
    crep = ctx.choice("inner repeater", ["1", "+"])
    hide = ctx.flag("hidden")
    first = ctx.flag("head")  # else the inner chain is the first part
    ctx.assume(first or lo > 0)
    rb = Rebulk()
    outer = rb.chain(name="outer")
    if first:
        outer.string("a", name="a")
    inner = outer.chain(name="inner")
    inner.string("b", name="b")
    inner.string("c", name="c").repeater(crep)
    part = rb._patterns[0].parts[-1].repeater(rep)
    if hide:
        part.hidden()
    outer.string("d", name="d")
    text = ctx.string("f0", "_x", 0, 1)
    want = []
    n = ctx.pick("stretches", 1, 2)
    for k in range(n):
        kids, start = [], len(text)
        if first:
            kids.append(("a", len(text), len(text) + 1))
            text = text + "a"
        for r in range(ctx.pick(f"count{k}", lo, p.reps if hi is None else min(hi, p.reps))):
            b = len(text)
            nc = ctx.pick(f"c{k}{r}", 1, p.cs if crep == "+" else 1)
            if not hide:
                kids += [("b", b, b + 1)] + [("c", b + 1 + j, b + 2 + j) for j in range(nc)] + [("inner", b, b + 1 + nc)]
            text = text + "b" + "c" * nc
        kids.append(("d", len(text), len(text) + 1))
        text = text + "d"
        want.append((kids[0][1], kids[-1][2], kids))
        text = text + ctx.string(f"f{k + 1}", "_x", 1, 1)
    text = ctx.wrap(text)
    ctx.fork_find()
    got = [(m.start, m.end, [(c.name, c.start, c.end) for c in m.children]) for m in rb._patterns[0].matches(text)]
    ctx.check(ctx.eq(got, want), "each written-out stretch is one match of the outer chain", (got, want))
    ctx.cover("repeated chain", rep == "+" and len(want[0][2]) > 5 and not hide)
    ctx.cover("absent chain", len(want[0][2]) == 2 and not hide)
    ctx.cover("two stretches", n == 2)
    ctx.cover("hidden", hide)


@harness("C09", "spelled", quick=dict(n=6, words=[["a", "b", "a"], ["a", "a", "b"], ["ab", "a", "b"], ["a", "ba"], ["b", "b"]]),
         thorough=dict(n=8, words=[["a", "b", "a"], ["a", "a", "b"], ["ab", "a", "b"], ["a", "ba"], ["b", "b"], ["a", "b", "a", "b"], ["ab", "ab"], ["abb", "a"], ["a", "a", "a"], ["ba", "b", "a"]]),
         cover=["two", "not at the first start", "inside a failed attempt"],
         about="parts once each that share characters: the word they spell is found wherever it is next, also inside an attempt that failed")
def spelled(ctx, p):
    parts = ctx.choice("parts", p.words)
    word = "".join(parts)
    n = ctx.pick("n", 0, p.n)
    text = ctx.string("text", "ab_", n, n)
    ctx.fork_find()
    chain, _ = build(ctx, [(x, "1", False) for x in parts])
    got = [(m.start, m.end, [(c.start, c.end) for c in m.children]) for m in chain.matches(text)]
    want, k, w = [], 0, len(word)
    while k + w <= n:
        if text[k:k + w] == word:
            kids, q = [], k
            for x in parts:
                kids.append((q, q + len(x)))
                q += len(x)
            want.append((k, k + w, kids))
            k += w
        else:
            k += 1
    ctx.check(ctx.eq(got, want), "the left-to-right occurrences of the word the parts spell", (got, want))
    ctx.cover("two", len(want) == 2)
    if want:
        first = [k for k in range(n) if text[k:k + len(parts[0])] == parts[0]]
        ctx.cover("not at the first start", first[0] < want[0][0])
        ctx.cover("inside a failed attempt", any(k < want[0][0] < k + w - 1 and text[k:k + len(parts[0] + parts[1])] == parts[0] + parts[1] for k in first))


@harness("C10", "shortening", quick=dict(first=2, last=4), thorough=dict(first=3, last=7), cover=["shortened", "nothing accepted", "last part given up"],
         assumes=["the validator is a stub with an arbitrary verdict for every number of remaining parts"],
         about="validator rejecting some forms of the chain match")
def shortening(ctx, p):
    n1 = ctx.pick("first", 1, p.first)
    n2 = ctx.pick("last", 0, p.last)
    pre = ctx.string("foreign", "_ -x\n\t\0.", 0, 2)
    suf = ctx.string("foreign2", "_ -x\n\t\0.", 0, 2)
    text = pre + ctx.wrap("a" * n1 + "bc" * n2) + suf
    verdict = [ctx.bool(f"ok{k}") for k in range(n1 + n2 + 1)]
    said = ctx.choice("said", [None, (1, 0), ("yes", "")])
    asked = []

    def validator(match):
        asked.append((len(match.children), match.end))
        ret = verdict[len(match.children)]
        return said[0 if ret else 1] if said else ret

    chain, _ = build(ctx, [("a", "+", False), ("bc", "*", False)], validator=validator)
    ms = chain.matches(text)
    base = len(pre)
    # the last part with an occurrence is the one that can give repetitions up
    total = n1 + n2
    floor = n1 if n2 else 0
    best = None
    for k in range(total, floor - 1, -1):
        if verdict[k]:
            best = k
            break
    ends = {k: base + min(k, n1) + 2 * max(0, k - n1) for k in range(total + 1)}
    if best is None or best == 0:
        ctx.check(len(ms) == 0, "nothing is emitted when no form is accepted")
    else:
        ctx.check(len(ms) == 1, "the longest accepted form is emitted", len(ms))
        m = ms[0]
        ctx.check(len(m.children) == best, "longest accepted form", (len(m.children), best))
        ctx.check(ctx.And(m.start == base, m.end == ends[best]), "span ends at the last remaining child")
        ctx.check(ctx.eq([(c.start, c.end) for c in m.children],
                         [(ends[k], ends[k + 1]) for k in range(best)]), "remaining children are the first ones")
    for k, e in asked:
        ctx.check(e == ends[k], "the validator sees the span of the form it judges")
    ctx.cover("shortened", best is not None and best < total)
    ctx.cover("nothing accepted", best is None)
    ctx.cover("last part given up", best == n1 and n2 > 0)


SHAPES = [  # (text, repeater, hidden) of each part
    [("a", "+", False), ("-", None, True), ("b", "+", False)],
    [("a", "+", False), ("-", "?", False), ("b", "*", False)],
    [("a", None, False), ("b", "*", False), ("-", "*", True)],
    [("ab", "+", False)],
    [("a", None, False), ("b", "*", False), ("c", "?", False)],
    [("a", None, True), ("b", "{1,2}", False), ("c", "*", False)],
]


@harness("C10", "shapes", quick=dict(cap=2), thorough=dict(cap=4), cover=["hidden before the last part", "last declared part absent"],
         assumes=["the validator is a stub with an arbitrary verdict for every number of remaining parts"],
         about="validator rejecting some forms; hidden, optional and single parts")
def shapes(ctx, p):
    parts = ctx.choice("parts", SHAPES)
    text = ctx.string("foreign", "_ x\n\t\0", 0, 1)
    kids, owner = [], []
    for i, (t, rep, hidden) in enumerate(parts):
        lo, hi = BOUNDS[rep or "1"]
        for _ in range(ctx.pick(f"count{i}", lo, p.cap if hi is None else hi)):
            if not hidden:
                kids.append((len(text), len(text) + len(t)))
                owner.append(i)
            text = text + t
    ctx.assume(bool(kids))
    text = ctx.wrap(text + ctx.string("foreign2", "_ x\n\t\0", 0, 1))
    verdict = [ctx.bool(f"ok{k}") for k in range(len(kids) + 1)]
    asked = []

    def validator(match):
        asked.append((len(match.children), match.end))
        return verdict[len(match.children)]

    chain, _ = build(ctx, parts, [ctx.choice("kind", KINDS)] if len(kids) == 2 else [], validator=validator)
    ms = chain.matches(text)
    floor = len(kids) - owner.count(owner[-1])
    best = None
    for k in range(len(kids), floor - 1, -1):
        if verdict[k]:
            best = k
            break
    if not best:
        ctx.check(len(ms) == 0, "nothing is emitted when no form is accepted")
    else:
        ctx.check(len(ms) == 1, "the longest accepted form is emitted", len(ms))
        ctx.check(ctx.eq([(c.start, c.end) for c in ms[0].children], kids[:best]), "remaining children are the first ones")
        ctx.check(ctx.eq((ms[0].start, ms[0].end), (kids[0][0], kids[best - 1][1])), "span ends at the last remaining child")
    for k, e in asked:
        if k:
            ctx.check(e == kids[k - 1][1], "the validator sees the span of the form it judges")
    ctx.cover("hidden before the last part", parts[1:] and parts[1][2] and best == 1)
    ctx.cover("last declared part absent", len(parts) > 1 and owner[-1] < len(parts) - 1 and best is not None and best < len(kids))


@harness("C10", "groups", quick=dict(kids=2, reps=2), thorough=dict(kids=2, reps=3), cover=["groups only", "groups and match", "shortened", "nothing accepted", "longer group first"],
         assumes=["the regex engine is a stub reporting adjacent occurrences with arbitrary group spans in them", "the validator is a stub with an arbitrary verdict for every number of remaining repetitions"],
         about="last part with groups: a repetition is given up with its match and all its groups, and the span covers the children left")
def groups(ctx, p):
    from props._common import TEXT, FakeRegex
    from rebulk import Rebulk

    reps = ctx.pick("reps", 1, p.reps)
    lead = ctx.flag("lead")  # another part before
    base = 1 if lead else 0
    spans = [(base + 2 * i, base + 2 * i + 2) for i in range(reps)]
    nk = ctx.pick("kids", 1, p.kids)
    caps = []
    for i, (s, e) in enumerate(spans):
        caps.append([])
        for k in range(nk):
            gs, ge = ctx.int(f"g{i}{k}s", s, e), ctx.int(f"g{i}{k}e", s, e)
            ctx.assume(gs < ge)
            caps[i].append((gs, ge))
    mode = ctx.choice("mode", ["children", "every"])
    verdict = [ctx.bool(f"ok{i}") for i in range(reps + 1)]

    def occurrences(string):
        off = len(TEXT) - len(string)
        return [((s - off, e - off), [[(a - off, b - off)] for a, b in c]) for (s, e), c in zip(spans, caps) if s >= off]

    last = FakeRegex(["h", "i"][:nk], occurrences)
    first = FakeRegex([], lambda string: [((0, 1), [])] if len(string) == len(TEXT) else [])

    def validator(m):
        size = nk + (mode == "every")
        whole = len(m.children) - lead
        ctx.check(whole % size == 0, "whole repetitions are judged", (whole, size))
        return verdict[whole // size]

    ch = Rebulk().chain(name="c", validator={"__parent__": validator})
    if lead:
        ch = ch.regex(first, name="f")
    ch = ch.regex(last, name="m", **{mode: True})
    ch.repeater("+")
    chain = ch.close().effective_patterns()[0]
    for q in chain.parts:
        q.pattern.repeated_captures = False
    got = chain.matches(TEXT)
    left = [i for i in range(reps, -1, -1) if verdict[i]]
    want = [(0, 1, "f")] if lead else []
    for i in range(left[0] if left else 0):
        want += [(a, b, n) for (a, b), n in zip(caps[i], ["h", "i"])]
        if mode == "every":
            want.append((*spans[i], "m"))
    if not left or not want:
        ctx.check(len(got) == 0, "nothing is emitted when no form is accepted", got)
    else:
        ctx.check(len(got) == 1, "the longest accepted form is emitted", len(got))
        kids = [(c.start, c.end, c.name) for c in got[0].children]
        ctx.check(len(kids) == len(want), "the children of the repetitions left", (kids, want))
        ctx.check(ctx.eq(kids, want), "the children of the repetitions left", (kids, want))
        end = got[0].end
        ctx.check(ctx.And(ctx.And([end >= w[1] for w in want]), ctx.Or([end == w[1] for w in want])), "the span ends with the children left", (end, want))
    short = bool(left) and 0 < left[0] < reps
    ctx.cover("groups only", mode == "children")
    ctx.cover("groups and match", mode == "every")
    ctx.cover("shortened", short)
    ctx.cover("nothing accepted", not left)
    ctx.cover("longer group first", ctx.And(short and nk > 1 and mode == "children", caps[0][0][1] > caps[0][-1][1]))


@harness("C10", "breaker", quick=dict(first=2, last=3), thorough=dict(first=3, last=5), cover=["kept out", "all kept out"],
         assumes=["the chain breaker is a stub with an arbitrary answer per candidate"],
         about="chain breaker with arbitrary answers")
def breaker(ctx, p):
    n1 = ctx.pick("first", 1, p.first)
    n2 = ctx.pick("last", 0, p.last)
    pre = ctx.string("foreign", "_ x\n\t\0", 0, 2)
    text = pre + ctx.wrap("a" * n1 + "bc" * n2)
    calls = []
    answers = [ctx.bool(f"break{k}") for k in range(n1 + n2)]
    said = ctx.choice("said", [None, (1, 0), ("stop", None)])

    def chain_breaker(matches):
        calls.append([(m.start, m.end) for m in matches])
        ret = answers[len(calls) - 1]
        return said[0 if ret else 1] if said else ret

    kinds = [ctx.choice(f"kind{k}", KINDS[: 4 if k else 2]) for k in range(2)] if n1 + n2 == 3 else []
    chain, _ = build(ctx, [("a", "+", False), ("bc", "*", False)], kinds, chain_breaker=chain_breaker, **({"marker": True} if kinds and ctx.flag("marker chain") else {}))
    ms = chain.matches(text)
    base = len(pre)
    cands = [(base + k, base + k + 1) for k in range(n1)] + [(base + n1 + 2 * k, base + n1 + 2 * k + 2) for k in range(n2)]
    ctx.check(len(calls) == len(cands), "asked once per candidate repetition")
    kept = []
    for k, c in enumerate(cands):
        ctx.check(ctx.eq(calls[k], kept + [c]), "asked with the parts kept so far and the candidate")
        if not answers[k]:
            kept.append(c)
    if kept:
        ctx.check(len(ms) == 1, "one chain match")
        ctx.check(ctx.eq([(c.start, c.end) for c in ms[0].children], kept), "exactly the candidates not broken")
        ctx.check(ctx.And(ms[0].start == kept[0][0], ms[0].end == kept[-1][1]), "span of the kept parts")
    else:
        ctx.check(len(ms) == 0, "nothing left")
    ctx.cover("kept out", 0 < len(kept) < len(cands))
    ctx.cover("all kept out", not kept)
