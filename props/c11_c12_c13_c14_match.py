"""C11-C14: a single match: split, crop, comparison, text."""
from symx.api import harness
from props._common import answer


@harness("C11", "split", quick=dict(n=6, seps=2), thorough=dict(n=9, seps=3), cover=["leading separator", "two pieces", "no separator"],
         about="any text, any span in it, any set of separators")
def split(ctx, p):
    from rebulk.match import Match

    n = ctx.pick("n", 1, p.n)
    text = ctx.string("text", "aA-+ \n\t\0.", n, n)
    seps = ctx.string("seps", "aA- \n\t\0.", 0, p.seps)
    s, e = ctx.int("s", 0, n), ctx.int("e", 0, n)
    ctx.assume(s < e)
    tags = ["t", "u"]
    m = Match(s, e, name="nm", tags=tags, input_string=text)
    kid = Match(s, e, name="kid", parent=m, input_string=text)
    m.children.append(kid)
    pieces = m.split(seps)
    ctx.observe("pieces", [x.span for x in pieces])
    ctx.check(ctx.And(m.start == s, m.end == e), "original unchanged")
    sep = [ctx.Or([text[k] == c for c in seps]) if len(seps) else False for k in range(n)]
    prev = -1
    for x in pieces:
        ctx.check(x is not m and x.name == "nm" and x.input_string is text, "new matches on the same text")
        ctx.check(list(x.tags) == ["t", "u"], "tags of the match")
        ctx.check(x.start < x.end, "non-empty")
        ctx.check(x.start > prev, "in order, separated")
        ctx.check(x.value == text[x.start:x.end], "text of the piece")
        prev = x.end
    for k in range(n):
        inside = ctx.And(s <= k, k < e)
        cov = ctx.Or([ctx.And(x.start <= k, k < x.end) for x in pieces]) if pieces else False
        ctx.check(ctx.Iff(cov, ctx.And(inside, ctx.Not(sep[k]))), "exactly the characters that are no separators")
    for x in pieces:  # altering the pieces does not alter the original
        x.tags.append("new")
        for y in list(x.children):
            y.name = "other"
        x.children.clear()
    ctx.check(m.tags == ["t", "u"] and tags == ["t", "u"] and len(m.children) == 1 and m.children[0] is kid and kid.name == "kid" and kid.parent is m,
              "the original shares nothing with the pieces")
    ctx.cover("leading separator", ctx.And(s == 0, sep[0]))
    if n >= 3:
        ctx.cover("two pieces", ctx.And(s == 0, e == n, sep[1], ctx.Not(sep[0]), ctx.Not(sep[2])))
    ctx.cover("no separator", ctx.And([ctx.Not(x) for x in sep]))


@harness("C11", "pieces", quick=dict(), cover=["literal", "formatter", "marker", "two pieces"],
         about="every piece is like the match in all but its span: value, formatter, flags, tags, solver and parent")
def pieces_(ctx, p):
    from rebulk.match import Match

    text = ctx.string("text", "a-", 4, 4)
    kind = ctx.choice("kind", ["plain", "literal", "formatter", "both"])
    value = {"v": [1]} if kind in ("literal", "both") else None
    fmt = (lambda raw: ("F", raw)) if kind in ("formatter", "both") else None
    private, marker = ctx.flag("private"), ctx.flag("marker")
    root = Match(0, 4, name="root", input_string=text) if ctx.flag("parent") else None
    m = Match(0, 4, value=value, name="nm", tags=["t", "t"], input_string=text, formatter=fmt, private=private, marker=marker, parent=root, conflict_solver=answer)
    m.match_index = ctx.int("index", 0, 3)
    res = m.split("-" if not ctx.symbolic else ctx.wrap("-"))
    for x in res:
        ctx.check(x.name == "nm" and x.tags == ["t", "t"] and x.private == private and x.marker == marker, "name, tags and flags", (x.tags, x.private, x.marker))
        ctx.check(x.conflict_solver is answer and ctx.eq(x.match_index, m.match_index), "solver and index")
        ctx.check(x.parent == root if root is not None else x.parent is None, "parent")
        if value is not None:
            ctx.check(x.value == {"v": [1]} and x.has_literal_value, "literal value", x.value)
        elif fmt is not None:
            ctx.check(x.value[0] == "F" and x.value[1] == text[x.start:x.end], "formatter of the match, applied to the text of the piece")
        else:
            ctx.check(x.value == text[x.start:x.end], "text of the piece")
    ctx.cover("literal", kind == "both" and len(res) > 0)
    ctx.cover("formatter", kind == "formatter" and len(res) > 0)
    ctx.cover("marker", marker and len(res) > 0)
    ctx.cover("two pieces", len(res) == 2)


@harness("C11", "select", quick=dict(n=5), cover=["out of bounds"], about="predicate and index of split")
def select(ctx, p):
    from rebulk.match import Match

    text = ctx.string("text", "a-", p.n, p.n)
    m = Match(0, p.n, input_string=text)
    plain = [x.span for x in m.split("-" if not ctx.symbolic else ctx.wrap("-"))]
    verdict = [ctx.bool(f"v{k}") for k in range(p.n)]
    sep = ctx.wrap("-")

    def pred(x):
        return verdict[x.start]

    kept = [sp for sp in plain if verdict[sp[0]]]
    idx = ctx.pick("index", -4, 3)
    mode = ctx.choice("mode", ["predicate", "index", "both"])
    want = kept if mode != "index" else plain
    if mode == "predicate":
        got = m.split(sep, pred)
        ctx.check(ctx.eq([x.span for x in got], want), "predicate filters")
        return
    got = m.split(sep, idx) if mode == "index" else m.split(sep, pred, idx)
    if -len(want) <= idx < len(want):
        ctx.check(got is not None and ctx.eq(got.span, want[idx]), "index picks")
    else:
        ctx.check(got is None, "None out of bounds")
        ctx.cover("out of bounds")


def crop_body(ctx, k, hi, empty_ok, as_match):
    from rebulk.match import Match

    s, e = ctx.int("s", 0, hi), ctx.int("e", 0, hi)
    ctx.assume(s < e)
    m = Match(s, e, name="nm", tags=["t"])
    spans = []
    for i in range(k):
        a, b = ctx.int(f"a{i}", 0, hi), ctx.int(f"b{i}", 0, hi)
        ctx.assume(a <= b if empty_ok else a < b)
        spans.append((a, b))
    objs = [Match(a, b) for a, b in spans] if as_match else spans
    if as_match and objs:  # other raw bounds do not matter
        objs[0].raw_end = ctx.int("raw_end", 0, hi)
        objs[-1].raw_start = ctx.int("raw_start", 0, hi)
    return m, (s, e), spans, objs


def crop_check(ctx, m, span, spans, pieces, hi):
    s, e = span
    ctx.observe("pieces", [x.span for x in pieces])
    ctx.check(ctx.And(m.start == s, m.end == e), "original unchanged")
    pos = ctx.int("pos", 0, hi)  # any position
    inside = ctx.And(s <= pos, pos < e, *[ctx.Not(ctx.And(a <= pos, pos < b)) for a, b in spans])
    cov = [ctx.And(x.start <= pos, pos < x.end) for x in pieces]
    ctx.check(ctx.Iff(ctx.Or(cov) if cov else False, inside), "exactly the positions of the match outside the crops")
    for i, x in enumerate(pieces):
        ctx.check(x is not m and x.name == "nm" and list(x.tags) == ["t"], "new matches")
        x.tags.append("new")
        ctx.check(m.tags == ["t"], "the original shares nothing with the pieces")
        ctx.check(x.start < x.end, "non-empty pieces")
        for j in range(i):
            y = pieces[j]
            ctx.check(ctx.Or(x.end <= y.start, y.end <= x.start), "disjoint pieces")
            for u, v in ((x, y), (y, x)):
                ctx.check(ctx.Or(u.end != v.start, *[ctx.And(a == b, a == u.end) for a, b in spans]), "not adjacent unless an empty crop separates")


@harness("C12", "spans", quick=dict(k=2, hi=12), thorough=dict(k=3, hi=16), cover=["crop inside", "overlapping crops", "empty crop"],
         about="any match, any list of (possibly empty) spans")
def spans_(ctx, p):
    k = ctx.pick("k", 0, p.k)
    m, span, spans, objs = crop_body(ctx, k, p.hi, True, False)
    pieces = m.crop(ctx.choice("held in", [list, tuple])(objs))
    crop_check(ctx, m, span, spans, pieces, p.hi)
    if k:
        ctx.cover("crop inside", ctx.And(span[0] < spans[0][0], spans[0][1] < span[1]))
        ctx.cover("empty crop", ctx.And(spans[0][0] == spans[0][1], span[0] < spans[0][0], spans[0][1] < span[1]))
    if k > 1:
        ctx.cover("overlapping crops", ctx.And(spans[0][0] < spans[1][0], spans[1][0] < spans[0][1], spans[0][1] < spans[1][1]))


@harness("C12", "three", quick=dict(k=3, hi=12), thorough=dict(k=4, hi=12), cover=["three inside"], about="several non-empty crops given as matches")
def three(ctx, p):
    m, span, spans, objs = crop_body(ctx, p.k, p.hi, False, True)
    from rebulk.match import Matches

    pieces = m.crop(ctx.choice("held in", [list, tuple, Matches])(objs))
    crop_check(ctx, m, span, spans, pieces, p.hi)
    for o, (a, b) in zip(objs, spans):
        ctx.check(ctx.And(o.start == a, o.end == b), "crops unchanged")
    ctx.cover("three inside", ctx.And([ctx.And(span[0] < a, b < span[1]) for a, b in spans]))


@harness("C12", "single", quick=dict(hi=12), cover=["match"], about="a single span or match instead of a list; predicate and index")
def single(ctx, p):
    form = ctx.choice("form", ["tuple", "match", "list of one", "tuple of one", "list"])
    m, span, spans, objs = crop_body(ctx, 1, p.hi, True, form == "match")
    arg = objs if form == "list of one" else tuple(objs) if form == "tuple of one" else list(objs[0]) if form == "list" else objs[0]
    pieces = m.crop(arg)
    crop_check(ctx, m, span, spans, pieces, p.hi)
    first = m.crop(arg, 0)
    ctx.check((first is None) == (not pieces), "index picks or None")
    if pieces:
        ctx.check(ctx.eq(first.span, pieces[0].span), "index 0 is the first piece")
        lst = m.crop(arg, lambda x: x.start > span[0])
        ctx.check(ctx.eq([x.span for x in lst], [x.span for x in pieces if x.start > span[0]]), "predicate filters")
    ctx.cover("match", form == "match")


def some_match(ctx, tag, hi, parents, cls=None):
    from rebulk.match import Match

    s, e = ctx.int(f"{tag}.s", 0, hi), ctx.int(f"{tag}.e", 0, hi)
    v = ctx.int(f"{tag}.v", 1, 3)
    nm = ctx.string(f"{tag}.name", "xy", 1, 1)
    par = ctx.choice(f"{tag}.parent", parents)
    return (cls or Match)(s, e, value=v, name=nm, parent=par), (s, e, v, nm)


def own_class(ctx):
    from rebulk.match import Match

    return type("Own", (Match,), {}) if ctx.flag("own class") else Match


def same(ctx, a, b):
    return ctx.And([x == y for x, y in zip(a, b)])


@harness("C13", "equality", quick=dict(hi=9), cover=["equal", "same span other value", "parents"], about="two matches with arbitrary spans, values, names and parents")
def equality(ctx, p):
    from rebulk.match import Match

    p1, f1 = some_match(ctx, "p1", p.hi, [None])
    p2, f2 = some_match(ctx, "p2", p.hi, [None])
    a, fa = some_match(ctx, "a", p.hi, [None, p1])
    b, fb = some_match(ctx, "b", p.hi, [None, p1, p2], own_class(ctx))
    if a.parent is None or b.parent is None:
        par = a.parent is b.parent
    else:
        par = a.parent is b.parent or same(ctx, f1, f2)
    want = ctx.And(same(ctx, fa, fb), par)
    r = a == b
    ctx.check(ctx.Iff(r, want), "equal exactly when span, value, name and parent are equal")
    ctx.check(ctx.Iff(b == a, want), "symmetric")
    ctx.check(ctx.Iff(a != b, ctx.Not(want)), "inequality is its negation")
    ctx.check(a == a and not a != a, "reflexive")
    ctx.check(a != "text" and not (a == (a.start, a.end)), "not equal to other types")
    ctx.cover("equal", want)
    ctx.cover("same span other value", ctx.And(fa[0] == fb[0], fa[1] == fb[1], fa[2] != fb[2]))
    ctx.cover("parents", a.parent is p1 and b.parent is p2)


@harness("C13", "values", quick=dict(n=4), cover=["same text"], about="values computed from the text and formatters")
def values(ctx, p):
    from rebulk.match import Match

    text = ctx.string("text", "ab", p.n, p.n)
    s1, e1 = ctx.int("s1", 0, p.n), ctx.int("e1", 0, p.n)
    s2, e2 = ctx.int("s2", 0, p.n), ctx.int("e2", 0, p.n)
    ctx.assume(ctx.And(s1 < e1, s2 < e2))
    fmt = ctx.choice("formatter", [None, "const"])
    other = ctx.string("text2", "ab", p.n, p.n)
    f = None if fmt is None else (lambda raw: "k")
    a = Match(s1, e1, input_string=text, formatter=f)
    b = Match(s2, e2, input_string=other, formatter=f)
    want = ctx.And(s1 == s2, e1 == e2, True if f else text[s1:e1] == other[s2:e2])
    ctx.check(ctx.Iff(a == b, want), "equal exactly when span and value are")
    ctx.check(ctx.Iff(a != b, ctx.Not(want)), "inequality is its negation")
    ctx.cover("same text", ctx.And(want, ctx.Not(text == other)))


@harness("C13", "order", quick=dict(hi=9), cover=["same start"], about="ordering is the lexicographic order of spans")
def order(ctx, p):
    a, fa = some_match(ctx, "a", p.hi, [None])
    b, fb = some_match(ctx, "b", p.hi, [None], own_class(ctx))
    lt = ctx.Or(fa[0] < fb[0], ctx.And(fa[0] == fb[0], fa[1] < fb[1]))
    eq = ctx.And(fa[0] == fb[0], fa[1] == fb[1])
    ctx.check(ctx.Iff(a < b, lt), "<")
    ctx.check(ctx.Iff(a <= b, ctx.Or(lt, eq)), "<=")
    ctx.check(ctx.Iff(a > b, ctx.Not(ctx.Or(lt, eq))), ">")
    ctx.check(ctx.Iff(a >= b, ctx.Not(lt)), ">=")
    ctx.cover("same start", ctx.And(fa[0] == fb[0], fa[1] < fb[1]))


@harness("C13", "sorting", quick=dict(n=3, hi=9), thorough=dict(n=4, hi=9), cover=["reordered"], about="sorting matches sorts their spans")
def sorting(ctx, p):
    ms, fs = zip(*[some_match(ctx, f"m{k}", p.hi, [None]) for k in range(p.n)])
    r = sorted(ms)
    ctx.check(len(r) == p.n and all(any(x is m for x in r) for m in ms), "a permutation")
    for x, y in zip(r, r[1:]):
        ctx.check(ctx.Or(x.start < y.start, ctx.And(x.start == y.start, x.end <= y.end)), "sorted by span")
    ctx.cover("reordered", fs[0][0] > fs[1][0])


@harness("C13", "hashing", quick=dict(hi=3), cover=["equal", "value changed"], about="equal matches hash alike; the hash survives changes of value, name, tags")
def hashing(ctx, p):
    par, _ = some_match(ctx, "parent", p.hi, [None])
    a, fa = some_match(ctx, "a", p.hi, [None, par])
    b, fb = some_match(ctx, "b", p.hi, [None, par], own_class(ctx))
    if a == b:
        ctx.check(hash(a) == hash(b), "equal matches have equal hashes")
        ctx.check(len({a, b}) == 1 and {a: 1}.get(b) == 1, "found in sets and dicts")
        ctx.cover("equal")
    h = hash(a)
    box = {a}
    what = ctx.choice("change", ["value", "name", "tags", "private", "parent's value", "parent's name"])
    if what == "value":
        a.value = ctx.int("new", 1, 5)
        ctx.cover("value changed", ctx.Not(a.value == fa[2]))
    elif what == "name":
        a.name = ctx.string("newname", "xyz", 1, 1)
    elif what == "parent's value":
        par.value = ctx.int("new", 1, 5)
    elif what == "parent's name":
        par.name = ctx.string("newname", "xyz", 1, 1)
    elif what == "tags":
        a.tags = ["t"]
    else:
        a.private = True
    ctx.check(hash(a) == h and a in box, "the hash does not change")


@harness("C14", "text", quick=dict(n=6), thorough=dict(n=9), cover=["raw bounds set", "literal", "formatter"], about="raw text, value, length and truth")
def text_(ctx, p):
    from rebulk.match import Match

    text = ctx.string("text", "abc", 1, p.n)
    n = len(text)
    s, e = ctx.int("s", 0, n), ctx.int("e", 0, n)
    ctx.assume(s <= e)
    kind = ctx.choice("kind", ["plain", "formatter", "literal", "falsy literal", "literal and formatter"])
    fmt = (lambda raw: ("F", raw)) if "formatter" in kind else None
    lit = {"literal": "L", "literal and formatter": "L", "falsy literal": 0}.get(kind)
    m = Match(s, e, value=lit, input_string=text, formatter=fmt)
    rs, re_ = s, e
    if ctx.flag("set raw_start"):
        rs = ctx.int("rs", 0, n)
        m.raw_start = rs
    if ctx.flag("set raw_end"):
        re_ = ctx.int("re", 0, n)
        m.raw_end = re_
        ctx.cover("raw bounds set")
    ctx.check(ctx.And(m.raw_start == rs, m.raw_end == re_), "raw bounds as set, else the span")
    ctx.check(m.raw == text[rs:re_], "raw text")
    ctx.check(ctx.eq(m.span, (s, e)), "span")
    if kind.startswith("literal"):
        ctx.check(m.value == "L" and m.has_literal_value, "literal value wins")
        ctx.cover("literal")
    elif kind == "formatter":
        ctx.check(m.value[0] == "F" and m.value[1] == text[rs:re_], "formatter applied to the raw text")
        ctx.cover("formatter")
    else:
        ctx.check(m.value == text[rs:re_] and not m.has_literal_value, "raw text is the value")
    ctx.check(m.__len__() == e - s, "length")
    ctx.check(ctx.Iff(bool(m), s < e), "true exactly when non-empty")
    ctx.check(m.initiator is m and m.names == {None}, "alone")


@harness("C14", "family", quick=dict(kids=2), thorough=dict(kids=3), cover=["grandchildren", "named through a child"], about="initiator, names, named and tagged over three generations")
def family(ctx, p):
    from rebulk.match import Match

    def new(tag, parent):
        s, e = ctx.int(f"{tag}s", 0, 9), ctx.int(f"{tag}e", 0, 9)
        ctx.assume(s < e)
        m = Match(s, e, name=ctx.choice(f"{tag}name", [None, "x", "y"]), parent=parent, private=kept_private, marker=kept_marker)
        if parent is not None and listed:
            parent.children.append(m)
        return m

    kept_private, kept_marker = ctx.choice("kind", [(False, False), (True, False), (False, True)])
    listed = not ctx.flag("parents only")  # a match may know its parent without being listed by it
    root = new("r", None)
    leaves = set()
    everyone = [root]
    for k in range(ctx.pick("kids", 0, p.kids)):
        c = new(f"c{k}", root)
        everyone.append(c)
        g = ctx.pick(f"grand{k}", 0, 1)
        if g:
            gm = new(f"g{k}", c)
            everyone.append(gm)
            if listed:
                leaves.add(gm.name)
                ctx.check(c.names == {gm.name}, "names of a child are those of its children")
            ctx.cover("grandchildren")
        else:
            leaves.add(c.name)
            ctx.check(c.names == {c.name}, "names of a childless match")
    want = leaves if len(everyone) > 1 and listed else {root.name}
    ctx.check(root.names == want, "names found under the children, else the own name", (root.names, want))
    for m in everyone:
        ctx.check(m.initiator is root, "initiator is the root of the parents")
    q = ctx.choice("query", ["x", "y", "z"])
    ctx.check(root.named(q) == (q in want), "named answers by membership")
    ctx.check(root.named("z", q) == (q in want or "z" in want), "any of the names")
    ctx.cover("named through a child", q in want and root.name != q)
    tags = ctx.subset("tags", ["t", "u"])
    root.tags = tags
    ctx.check(root.tagged("t") == ("t" in tags) and root.tagged("t", "u") == bool(tags) and not root.tagged(), "tagged answers by membership")


@harness("C14", "changes", quick=dict(n=3, ops=2), thorough=dict(n=4, ops=3), cover=["formatter", "family"],
         about="any change of span, bounds, text, value, formatter, name, tags or family between two readings: every answer follows the present state")
def changes(ctx, p):
    from rebulk.match import Match

    text = ctx.string("text", "abc", p.n, p.n)
    top, other = Match(0, p.n, name="top", input_string=text), Match(0, p.n, name="other", input_string=text)
    s = ctx.int("s", 0, p.n - 1)
    st = dict(s=s, e=p.n, rs=None, re=None, text=text, lit=None, fmt=None, name="x", tags=["t"], parent=None, kids=[])
    if ctx.flag("formatter"):
        st["fmt"] = lambda raw: ("F", raw)
    if ctx.flag("parent"):
        st["parent"] = top
    m = Match(st["s"], st["e"], name="x", tags=["t"], input_string=text, formatter=st["fmt"], parent=st["parent"])
    if ctx.flag("child"):
        m.children.append(Match(0, 1, name="k", parent=m, input_string=text))
        st["kids"].append("k")

    def read():
        raw = st["text"][(st["s"] if st["rs"] is None else st["rs"]):(st["e"] if st["re"] is None else st["re"])]
        ctx.check(ctx.eq(m.span, (st["s"], st["e"])) and m.__len__() == st["e"] - st["s"], "span and length")
        ctx.check(ctx.Iff(bool(m), st["s"] < st["e"]), "truth")
        ctx.check(m.raw == raw, "raw text")
        v = m.value
        if st["lit"]:
            ctx.check(v == st["lit"] and m.has_literal_value, "literal value")
        elif st["fmt"]:
            ctx.check(v[0] == st["fmt"]("")[0] and v[1] == raw, "formatter applied to the raw text")
        else:
            ctx.check(v == raw and not m.has_literal_value, "raw text is the value")
        names = set(st["kids"]) or {st["name"]}
        ctx.check(m.names == names and all(m.named(q) == (q in names) for q in ("x", "z", "k", "k2")), "names", (m.names, names))
        ctx.check(all(m.tagged(q) == (q in st["tags"]) for q in ("t", "u")), "tags")
        root = m if st["parent"] is None else st["parent"] if st["parent"].parent is None else st["parent"].parent
        ctx.check(m.initiator is root, "initiator")
        ctx.check(all(c.initiator is root for c in m.children), "initiator of the children")
        ctx.check(m.__hash__() == Match(st["s"], st["e"]).__hash__(), "hash")
        return m.value

    ctx.cover("family", st["parent"] is not None and bool(st["kids"]))
    read()
    for i in range(p.ops):
        op = ctx.choice(f"op{i}", ["start", "end", "raw", "raw off", "text", "literal", "no literal", "formatter", "name", "tags", "parent", "grandparent", "no parent", "child", "child renamed", "no child"])
        if op == "start":
            m.start = st["s"] = ctx.int(f"s{i}", 0, p.n - 1)
            ctx.assume(st["s"] <= st["e"])
        elif op == "end":
            m.end = st["e"] = ctx.int(f"e{i}", 1, p.n)
            ctx.assume(st["s"] <= st["e"])
        elif op == "raw":
            m.raw_start = st["rs"] = ctx.int(f"rs{i}", 0, p.n)
            m.raw_end = st["re"] = p.n
        elif op == "raw off":
            m.raw_start = m.raw_end = st["rs"] = st["re"] = None
        elif op == "text":
            m.input_string = st["text"] = ctx.string(f"text{i}", "xyz", p.n, p.n)
        elif op == "literal":
            m.value = st["lit"] = "L%d" % i
        elif op == "no literal":
            m.value = st["lit"] = None
        elif op == "formatter":
            m.formatter = st["fmt"] = lambda raw, i=i: ("F%d" % i, raw)
            ctx.cover("formatter")
        elif op == "name":
            m.name = st["name"] = "z"
        elif op == "tags":
            m.tags.append("u")
            st["tags"] = ["t", "u"]
        elif op in ("parent", "no parent"):
            m.parent = st["parent"] = other if op == "parent" else None
        elif op == "grandparent":
            top.parent = Match(0, p.n, name="above", input_string=text)
        elif op == "child":
            m.children.append(Match(0, 1, name="k2", parent=m, input_string=text))
            st["kids"].append("k2")
        elif op == "child renamed" and st["kids"]:
            m.children[0].name = "k2"
            st["kids"][0] = "k2"
        elif op == "no child" and st["kids"]:
            del m.children[0]
            del st["kids"][0]
        ctx.check(ctx.eq(m.span, (st["s"], st["e"])), "span")
        read()
