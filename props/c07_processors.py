"""C07: match processors and the post processor."""
from props._common import TEXT
from symx.api import harness

ASSUMES = ["processors and validators are stubs with arbitrary answers"]
ANSWERS = ["none", "same", "other", "false", "empty match", "empty list"]


def answer(ctx, kind, match, other, empty):
    return {"none": None, "same": match, "other": other, "false": False, "empty match": empty, "empty list": []}[kind]


@harness("C07", "answers", quick=dict(n=1), thorough=dict(n=2), assumes=ASSUMES, cover=["replaced before", "replaced after", "dropped before", "dropped after"],
         about="every answer of pre- and post-match processors, arbitrary spans and verdicts, with a child")
def answers(ctx, p):
    from rebulk.match import Match
    from rebulk.pattern import RePattern

    from props._common import FakeRegex

    occ, pre, post, verdict, others_pre, others_post = [], [], [], [], [], []
    text = ctx.wrap(TEXT)
    prev = 0
    families = []  # (match, its children when it was handed over)

    def family(m):
        return [kids for x, kids in families if x is m][0]

    for k in range(p.n):
        s, e = ctx.int(f"s{k}", 0, 9), ctx.int(f"e{k}", 0, 9)
        cs, ce = ctx.int(f"cs{k}", 0, 9), ctx.int(f"ce{k}", 0, 9)
        ctx.assume(ctx.And(prev <= s, s < e, cs < ce))
        prev = e
        occ.append(((s, e), [[(cs, ce)]]))
        pre.append(ctx.choice(f"pre{k}", ANSWERS))
        post.append(ctx.choice(f"post{k}", ANSWERS))
        verdict.append(ctx.bool(f"verdict{k}"))
        for lst, nm in ((others_pre, "op"), (others_post, "oq")):
            s2, e2 = ctx.int(f"{nm}s{k}", 0, 9), ctx.int(f"{nm}e{k}", 0, 9)
            ctx.assume(s2 < e2)
            m = Match(s2, e2, name=nm, input_string=text)
            ks, ke = ctx.int(f"{nm}ks{k}", 0, 9), ctx.int(f"{nm}ke{k}", 0, 9)
            ctx.assume(ks < ke)
            if ctx.flag(f"{nm}.child{k}"):
                m.children.append(Match(ks, ke, name=nm + "kid", parent=m, input_string=text))
            lst.append(m)
            families.append((m, list(m.children)))
    empty = Match(3, 3, input_string=text)
    private = ctx.flag("private")
    log = {"pre": [], "post": [], "validated": []}

    def pre_p(m):
        log["pre"].append(m)
        families.append((m, list(m.children)))
        return answer(ctx, pre[len(log["pre"]) - 1], m, others_pre[len(log["pre"]) - 1], empty)

    def index_of(m):
        for k in range(len(log["pre"])):
            if m is log["pre"][k] or m is others_pre[k]:
                return k
        raise ValueError("unknown match")

    def post_p(m):
        log["post"].append(m)
        return answer(ctx, post[index_of(m)], m, others_post[index_of(m)], empty)

    def validator(m):
        log["validated"].append(m)
        return verdict[index_of(m)]

    pat = RePattern(FakeRegex(["kid"], occ), name="p", every=True, private=private, marker=private, tags=["pt"], formatter={"p": lambda s: ("F", s), "op": lambda s: ("G", s), "oq": lambda s: ("H", s), "kid": lambda s: ("K", s), "opkid": lambda s: ("L", s)},
                    validator={"__parent__": validator}, pre_match_processor=pre_p, post_match_processor=post_p)
    pat.repeated_captures = False
    got = pat.matches(text)
    ctx.check(len(log["pre"]) == p.n, "the pre processor sees every occurrence once")
    want = []
    for k in range(p.n):
        m = log["pre"][k]
        cur = {"none": m, "same": m, "other": others_pre[k]}.get(pre[k])
        if cur is None:
            ctx.check(not any(x is m for x in log["validated"]), "a dropped match is not validated")
            continue
        ctx.check(any(x is cur for x in log["validated"]), "the match kept by the pre processor is the one validated")
        if not verdict[k]:
            continue
        ctx.check(cur.value == ("F" if cur.name == "p" else "G", text[cur.start:cur.end]), "the match kept by the pre processor is formatted")
        for c in family(cur):
            ctx.check(c.value == ("K" if c.name == "kid" else "L", text[c.start:c.end]), "the children of the match kept by the pre processor are formatted")
        fin = {"none": cur, "same": cur, "other": others_post[k]}.get(post[k])
        if fin is None:
            continue
        if post[k] == "other":
            ctx.check(fin.value == text[fin.start:fin.end], "a replacement made after validation is emitted as it is")
            ctx.check(fin.name == "oq" and not fin.private and not fin.marker and fin.tags == [], "attributes of such a replacement")
        ctx.check(len(fin.children) == len(family(fin)) and all(a is b for a, b in zip(fin.children, family(fin))), "its own children")
        want.append(fin)
        want.extend(family(fin))
    ctx.observe("got", [(m.name, m.start, m.end) for m in got])
    ctx.check(len(got) == len(want), "number of emitted matches", (len(got), len(want)))
    for a, b in zip(got, want):
        ctx.check(a is b, "emitted matches are those the processors answered, in order")
    ctx.cover("replaced before", pre[0] == "other")
    ctx.cover("replaced after", post[0] == "other")
    ctx.cover("dropped before", pre[0] == "false")
    ctx.cover("dropped after", post[0] == "empty match")


@harness("C07", "post_processor", quick=dict(n=2), thorough=dict(n=4), assumes=ASSUMES, cover=["dropped by post processor"],
         about="the post processor gets all emitted matches and decides the result")
def post_processor(ctx, p):
    from rebulk.pattern import FunctionalPattern

    spans = []
    for k in range(p.n):
        s, e = ctx.int(f"s{k}", 0, 9), ctx.int(f"e{k}", 0, 9)
        ctx.assume(s <= e)
        spans.append((s, e))
    keep = [ctx.bool(f"keep{k}") for k in range(p.n)]
    seen = []

    def post(matches, pattern):
        seen.append((list(matches), pattern))
        return [m for k, m in enumerate(matches) if keep[k]]

    raw = ctx.flag("with_raw_matches")
    pat = FunctionalPattern(lambda string: list(spans), post_processor=post)
    res = pat.matches(TEXT, with_raw_matches=True)[0] if raw else pat.matches(TEXT)
    want = [sp for sp in spans if sp[0] < sp[1]]
    ctx.check(len(seen) == 1 and seen[0][1] is pat, "called once with the pattern")
    ctx.check(ctx.eq([m.span for m in seen[0][0]], want), "receives every emitted match")
    want = [w for k, w in enumerate(want) if keep[k]]
    ctx.check(ctx.eq([m.span for m in res], want), "its answer is the result")
    ctx.cover("dropped by post processor", len(want) < p.n)


@harness("C07", "chained", quick=dict(), assumes=["processors and validators are stubs"], cover=["replaced before", "dropped before", "replaced after", "dropped after", "part dropped", "part replaced"],
         about="processors of a chain see the whole chain match with its children, those of a part see the matches of that part only")
def chained(ctx, p):
    from rebulk import Rebulk
    from rebulk.match import Match

    text = "x" + "ab" + "cd" + "x"
    place = ctx.choice("place", ["chain", "part"])
    moment = ctx.choice("moment", ["pre_match_processor", "post_match_processor"])
    answer = ctx.choice("answer", ["none", "same", "other", "empty"])
    mode = ctx.choice("mode", ["default", "children", "every"])
    verdict = ctx.bool("verdict")
    s, e = ctx.int("s", 0, 6), ctx.int("e", 0, 6)
    ctx.assume(s < e)
    seen, judged, others = [], [], []

    def processor(m):
        seen.append(m)
        if answer == "none":
            return None
        if answer == "same":
            return m
        if answer == "empty":
            return False
        others.append(Match(s, e, name="other", input_string=text, pattern=m.pattern))
        return others[-1]

    def validator(m):
        judged.append(m)
        return verdict

    proc = {moment: processor}
    ch = Rebulk().chain(name="c", validator={"__parent__": validator}, **({mode: True} if mode != "default" else {}), **(proc if place == "chain" else {}))
    rb = ch.string("ab", name="a", **(proc if place == "part" else {})).string("cd", name="b").close()
    if place == "part" and answer == "empty":
        # the first part has found its text but gives no match: the chain match has the matches of the other part
        got = rb.effective_patterns()[0].matches(text)
        ctx.check([m.span for m in seen] == [(1, 3)], "asked for the match of the part", seen)
        ctx.check(ctx.Iff(len(got) > 0, ctx.Or(verdict, mode == "children")), "the other parts remain")
        names = [m.name for m in got]
        ctx.check(not got or names == {"default": ["c"], "children": ["b"], "every": ["c", "b"]}[mode], "without the dropped match", names)
        ctx.cover("part dropped")
        return
    if place == "part" and answer == "other":
        e = s + ctx.pick("length", 1, 2)
        ctx.assume(e <= 2)
        got = rb.effective_patterns()[0].matches(text)
        kids = [m for m in got if m.name != "c"] or (got[0].children if got else [])
        if got:
            ctx.check(kids[0] is others[0] and kids[1].name == "b", "the replacement is the child of the chain match")
            ctx.cover("part replaced")
        return
    got = rb.effective_patterns()[0].matches(text)
    ctx.check(len(seen) >= 1 or moment == "post_match_processor", "asked")
    asked = mode != "children"
    refused = ctx.And(asked, ctx.Not(verdict))
    if place == "part":
        ctx.check(all(m.span == (1, 3) for m in seen) and len(seen) == 1, "asked for the match of the part", seen)
        ctx.check(ctx.Iff(len(got) > 0, ctx.Not(refused)), "the part's match is kept")
        return
    for m in seen:
        ctx.check(m.name == "c" and m.span == (1, 5) and [c.name for c in m.children] == ["a", "b"], "asked for the whole chain match with its children", m)
    if answer == "empty" and (moment == "pre_match_processor" or seen):
        ctx.check(len(got) == 0, "dropped with its children", got)
        ctx.cover("dropped before" if moment == "pre_match_processor" else "dropped after")
    elif answer == "other" and seen:
        if moment == "pre_match_processor":
            ctx.check(all(m is others[0] for m in judged), "the replacement is validated")
            ctx.check(ctx.Iff(len(got) > 0, ctx.And(ctx.Not(refused), mode != "children")), "the replacement is emitted when accepted", got)
            ctx.cover("replaced before")
        else:
            ctx.check(len(got) == (0 if mode == "children" else 1), "the replacement is emitted as it is", got)
            ctx.cover("replaced after")
        ctx.check(all(m is others[0] for m in got), "the replacement")
    else:
        ctx.check(ctx.Iff(len(got) > 0, ctx.Not(refused)), "kept")
        ctx.check(not got or [m.name for m in got] == {"default": ["c"], "children": ["a", "b"], "every": ["c", "a", "b"]}[mode], "as it is", got)
