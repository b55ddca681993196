"""C15: lookups of a match list after any history of mutations."""
from symx.api import harness
from props._common import is_in, same_list

OPS = ["append", "extend", "insert", "setitem", "setslice", "del", "delslice", "remove", "pop", "reverse", "clear", "iadd", "twice", "steps"]


def model_remove(model, m):
    """The very match; m is always in the list."""
    for i, x in enumerate(model):
        if x is m:
            del model[i]
            return
    raise ValueError


def one_op(ctx, k, ms, model, new, ops):
    op = ctx.choice(f"op{k}", ops)
    n = len(model)
    if op == "append":
        m = new()
        ms.append(m)
        model.append(m)
    elif op == "extend":
        a = [new(), new()]
        ms.extend(a)
        model.extend(a)
    elif op == "iadd":
        m = new()
        ms += (x for x in [m])
        model += [m]
    elif op == "insert":
        i = ctx.pick(f"at{k}", -1, n)
        m = new()
        ms.insert(i, m)
        model.insert(i, m)
    elif op == "twice":
        if n == 0:
            return op
        m = model[0]
        ms.append(m)
        model.append(m)
    elif op == "setitem":
        if n == 0:
            return op
        i = ctx.pick(f"at{k}", -1, n - 1)
        m = new()
        ms[i] = m
        model[i] = m
    elif op in ("setslice", "delslice"):
        a = ctx.pick(f"from{k}", 0, n)
        b = ctx.pick(f"to{k}", a, n)
        if op == "delslice":
            del ms[a:b]
            del model[a:b]
        else:
            items = [new()] if ctx.flag(f"one{k}") else []
            ms[a:b] = (x for x in items)
            model[a:b] = items
    elif op == "del":
        if n == 0:
            return op
        i = ctx.pick(f"at{k}", -1, n - 1)
        del ms[i]
        del model[i]
    elif op == "pop":
        if n == 0:
            return op
        i = ctx.pick(f"at{k}", 0, n - 1)
        r = ms.pop(i)
        ctx.check(r is model.pop(i), "pop returns the removed match")
    elif op == "remove":
        if n == 0:
            return op
        m = model[ctx.pick(f"which{k}", 0, n - 1)]
        ms.remove(m)
        model_remove(model, m)
    elif op == "steps":  # extended slices
        step = ctx.choice(f"step{k}", [2, -1, -2])
        if ctx.flag(f"delete{k}"):
            del ms[::step]
            del model[::step]
        else:
            items = [new() for _ in model[::step]]
            ms[::step] = list(items)
            model[::step] = items
    elif op == "reverse":
        ms.reverse()
        model.reverse()
    elif op == "clear":
        ms.clear()
        model.clear()
    return op


def content(ctx, ms, model):
    same_list(ctx, ms, model, "content")


def by_name(ctx, ms, model, names):
    for q in names:
        same_list(ctx, ms.named(q), [m for m in model if m.name is not None and m.name == q], "named")
    distinct = []
    for m in model:
        if m.name is not None and not any(m.name == d for d in distinct):
            distinct.append(m.name)
    got = list(ms.names)
    ctx.check(len(got) == len(distinct), "names: number", (got, distinct))
    for d in distinct:
        ctx.check(any(d == g for g in got), "names describe the content")


def by_tag(ctx, ms, model, tags):
    for q in tags:
        same_list(ctx, ms.tagged(q), [m for m in model if q in m.tags], "tagged")
    ctx.check(set(ms.tags) == {t for m in model for t in m.tags}, "tags describe the content", (list(ms.tags), model))


def by_place(ctx, ms, model, q, kind):
    if kind == "start":
        same_list(ctx, ms.starting(q), [m for m in model if m.start == q], "starting")
    elif kind == "end":
        same_list(ctx, ms.ending(q), [m for m in model if m.end == q], "ending")
    elif kind == "index":
        same_list(ctx, ms.at_index(q), [m for m in model if m.start <= q and q < m.end], "at_index")
    else:
        me = ms.max_end
        ctx.check(ctx.And([me >= m.end for m in model]) if model else me == 0, "max_end: bound")
        ctx.check(ctx.Or([me == m.end for m in model]) if model else me == 0, "max_end: reached")


@harness("C15", "names", quick=dict(n=2, ops=2), thorough=dict(n=3, ops=2), cover=["unknown name asked", "twins", "removed last of a name"],
         about="names and tags: arbitrary names (symbolic), any two operations")
def names(ctx, p):
    from rebulk.match import Match, Matches

    made = []
    TAGS = [["t"], [], ["t", "u"], ["u"], [], ["t"]]

    def new():
        k = len(made)
        nm = ctx.string(f"name{k}", "xy", 1, 1) if k != 1 else None
        m = Match(2, 4, name=nm, tags=TAGS[k % len(TAGS)])
        made.append(m)
        return m

    model = [new() for _ in range(p.n)]
    ms = Matches(list(model))
    prime = ctx.choice("prime", ["all", "nothing"])
    if prime == "all":
        ctx.check(list(ms.named("zz")) == [] and list(ms.tagged("zz")) == [], "unknown")
        by_name(ctx, ms, model, ["x"])
        by_tag(ctx, ms, model, ["t"])
        ctx.cover("unknown name asked")
    for k in range(p.ops):
        had = [m.name for m in model]
        one_op(ctx, k, ms, model, new, OPS)
        if had and had[0] is not None and not any(m.name == had[0] for m in model if m.name is not None):
            ctx.cover("removed last of a name")
    content(ctx, ms, model)
    by_name(ctx, ms, model, ["x", "y", "zz"])
    by_tag(ctx, ms, model, ["t", "u", "zz"])
    if len(model) > 1 and model[0] is not model[1] and model[0] == model[1]:
        ctx.cover("twins")


@harness("C15", "starts", quick=dict(n=2, ops=1, hi=20), thorough=dict(n=2, ops=2, hi=20), cover=["asked before"],
         about="matches by start: arbitrary spans (symbolic), any operations")
def starts(ctx, p):
    places_body(ctx, p, OPS, "start")


@harness("C15", "ends", quick=dict(n=2, ops=1, hi=20), thorough=dict(n=2, ops=2, hi=20), cover=["asked before"],
         about="matches by end: arbitrary spans (symbolic), any operations")
def ends(ctx, p):
    places_body(ctx, p, OPS, "end")


@harness("C15", "positions", quick=dict(n=2, ops=1, hi=3), thorough=dict(n=2, ops=2, hi=3), cover=["asked before"],
         about="matches by position: arbitrary spans (symbolic), any operations")
def positions(ctx, p):
    places_body(ctx, p, [o for o in OPS if o not in ("extend", "iadd", "clear", "del")], "index")


@harness("C15", "maximum", quick=dict(n=2, ops=2, hi=20), thorough=dict(n=3, ops=2, hi=20), cover=["shorter after removal", "grown"],
         about="the maximal end: arbitrary spans (symbolic), any two operations")
def maximum(ctx, p):
    places_body(ctx, p, OPS, "max")


def places_body(ctx, p, ops, kind):
    from rebulk.match import Match, Matches

    made = []

    def new():
        k = len(made)
        s, e = ctx.int(f"s{k}", 0, p.hi), ctx.int(f"e{k}", 0, p.hi)
        ctx.assume(s < e)
        m = Match(s, e, name="n")
        made.append(m)
        return m

    model = [new() for _ in range(p.n)]
    ms = Matches(list(model))
    q = ctx.int("q", 0, p.hi + 1)
    if ctx.flag("prime"):
        by_place(ctx, ms, model, q, kind)
        ctx.cover("asked before")
    before = ms.max_end
    for k in range(p.ops):
        one_op(ctx, k, ms, model, new, ops)
    content(ctx, ms, model)
    by_place(ctx, ms, model, q, kind)
    if kind == "max":
        ctx.cover("shorter after removal", ctx.And(ms.max_end < before, bool(model)))
        ctx.cover("grown", ms.max_end > before)


@harness("C15", "text", quick=dict(n=2, hi=6), cover=["text longer"], about="the maximal end also covers the input text")
def text(ctx, p):
    from rebulk.match import Markers, Matches
    from props._common import make_matches

    size = ctx.pick("size", 0, 4)
    ms_ = make_matches(ctx, p.n, p.hi)
    kind = Markers if ctx.flag("markers") else Matches
    for m in ms_:
        m.marker = kind is Markers
    ms = kind(ms_, input_string="abcd"[:size])
    ctx.check(ms.input_string == "abcd"[:size], "the text given")
    want = max([m.end for m in ms_] + [size])
    ctx.check(ms.max_end == want, "max_end")
    size2 = size
    if ctx.flag("other text"):
        size2 = ctx.pick("size2", 0, 3)
        ms.input_string = "xyz"[:size2]
        ctx.check(ms.max_end == max([m.end for m in ms_] + [size2]), "max_end with another text")
    size = size2
    ms.remove(ms_[0])
    left = ms_[1:]
    ctx.check(ms.max_end == max([m.end for m in left] + [size]), "max_end after removal, exactly")
    ctx.check(ctx.And(ms.max_end >= size, ctx.And([ms.max_end >= m.end for m in left])), "max_end after removal")
    ctx.cover("text longer", ctx.And([m.end < size for m in ms_]))
