"""C20-C22: values grouped by name, typed retrieval, declared-key contract."""
import dataclasses
from typing import Annotated, List, Optional, TypedDict, Union

from symx.api import harness
from props._common import OwnList, make_matches, same_list


def valued(ctx, n, hi, names, vmax):
    """n non-empty matches with arbitrary spans, names (symbolic, or none) and values (symbolic)."""
    ms = make_matches(ctx, n, hi)
    for k, m in enumerate(ms):
        m.name = None if ctx.flag(f"unnamed{k}") else ctx.string(f"name{k}", names, 1, 1)
        m.value = ctx.int(f"value{k}", 1, vmax)
    return ms


@harness("C20", "grouping", quick=dict(n=3, hi=9), thorough=dict(n=3, hi=9, more=1), cover=["two distinct", "duplicate", "reordered", "details", "enforced"],
         about="any spans, names and values; every mode")
def grouping(ctx, p):
    from rebulk.match import Matches

    ms = make_matches(ctx, p.n, p.hi, input_string=ctx.wrap("abcdefghij"))
    computed = ctx.flag("computed")  # values given by formatters may be falsy
    for k, m in enumerate(ms):
        m.name = ctx.string(f"name{k}", "xy", 1, 1) if k or not ctx.flag("unnamed") else None
        if computed:
            m.formatter = lambda raw, v=ctx.int(f"value{k}", 0, 1) if k or not ctx.flag("none") else None: v
        else:
            m.value = ctx.int(f"value{k}", 1, 3)
    values = [m.value for m in ms]
    spans = [m.span for m in ms]
    lst = Matches(list(ms))
    mode = ctx.choice("mode", ["plain", "first", "enforce", "first enforce"])
    details = ctx.flag("details") if mode in ("plain", "enforce") or p.get("more") else False
    d = lst.to_dict(details=details, first_value="first" in mode, enforce_list="enforce" in mode)
    # oracle: matches in span order, list order within equal spans
    order = []
    for m in ms:
        k = 0
        while k < len(order) and (order[k].start < m.start or (order[k].start == m.start and order[k].end <= m.end)):
            k += 1
        order.insert(k, m)
    groups = []
    for m in order:
        for nm, g in groups:
            if (nm is None) == (m.name is None) and nm == m.name:
                g.append(m)
                break
        else:
            groups.append((m.name, [m]))
    ctx.check(len(d) == len(groups), "every name present, nothing else")
    for nm, g in groups:
        same_list(ctx, d.matches[nm], g, "matches attribute")
        vals = []
        for m in g:
            v = m if details else m.value
            if not any(v == w for w in vals):
                vals.append(v)
        if len(vals) < len(g):
            ctx.cover("duplicate")
        want = vals[:1] if "first" in mode else vals
        got = d[nm]
        if "enforce" in mode:
            ctx.check(isinstance(got, list), "always a list")
            ctx.cover("enforced")
        elif len(want) == 1:
            ctx.check(not isinstance(got, list), "single value")
            got = [got]
        ctx.check(isinstance(got, list), "several values")
        ctx.check(len(got) == len(want) and ctx.And([a == b for a, b in zip(got, want)]), "distinct values in span order", (mode, len(got), len(want)))
        if "enforce" not in mode and not ctx.check(isinstance(d.values_list[nm], list), "values_list holds lists"):
            vl = d.values_list[nm]
            ctx.check(len(vl) == len(vals) and ctx.And([a == b for a, b in zip(vl, vals)]), "values_list")
        if details:
            ctx.check(all(any(a is m for m in g) for a in got), "details give matches")
            ctx.cover("details")
        if len(vals) == 2:
            ctx.cover("two distinct")
    same_list(ctx, lst, ms, "list unchanged")
    ctx.check(ctx.And([m.value == v for m, v in zip(ms, values)]) and ctx.And([ctx.eq(m.span, s) for m, s in zip(ms, spans)]), "matches unchanged")
    ctx.cover("reordered", order[0] is not ms[0])


@harness("C20", "aliasing", quick=dict(n=3), cover=["list value", "list value extended"], about="list values of matches are left alone by the conversion and by changes of its result")
def aliasing(ctx, p):
    from rebulk.match import Match, Matches

    ms, want = [], []
    for k in range(p.n):
        v = ctx.choice(f"value{k}", [[1, 2], [3], 4, [4]])
        own = OwnList if k == 0 and isinstance(v, list) and ctx.flag("own class") else list
        ms.append(Match(k, k + 1, name=ctx.choice(f"name{k}", ["x", "y"]), value=own(v) if isinstance(v, list) else v))
        want.append(v)
        ctx.cover("list value", isinstance(v, list))
    lst = Matches(list(ms))
    mode = ctx.choice("mode", ["plain", "first", "enforce", "first enforce"])
    d = lst.to_dict(first_value="first" in mode, enforce_list="enforce" in mode)
    ctx.check([m.value for m in ms] == want, "values unchanged by the conversion", [m.value for m in ms])
    ctx.check(set(d) == {m.name for m in ms}, "names")
    for v in d.values():
        if isinstance(v, list):
            v.append(99)
            ctx.cover("list value extended")
    ctx.check([m.value for m in ms] == want, "values unchanged by changes of the result", [m.value for m in ms])
    d2 = lst.to_dict(first_value="first" in mode, enforce_list="enforce" in mode)
    ctx.check(all(99 not in v for v in d2.values() if isinstance(v, list)), "converted again")


@dataclasses.dataclass
class Model:
    x: int
    y: list[int]
    z: Optional[int] = None
    w: list[int] = dataclasses.field(default_factory=lambda: [7])
    v: int = 77


class Typed(TypedDict, total=False):
    x: int
    y: list[int]
    z: Union[int, None]


@harness("C21", "keys", quick=dict(n=4, hi=9), thorough=dict(n=5, hi=9), cover=["several", "none"], about="matches[key] and matches.all(key): any names, values, spans")
def keys(ctx, p):
    from rebulk.key import Key
    from rebulk.match import Matches

    ms = valued(ctx, p.n, p.hi, "xyz", 5)
    lst = Matches(list(ms))
    if ctx.flag("asked before"):
        lst.named("y")
    key = Key("x", int)
    want = [m.value for m in ms if m.name is not None and m.name == "x"]
    first = ctx.flag("all first")
    if first:
        got = lst.all(key)
        ctx.check(len(got) == len(want) and ctx.And([a == b for a, b in zip(got, want)]), "all values in list order")
    one = lst[key]
    ctx.check(one is None if not want else one == want[0], "value of the first")
    if not first:
        got = lst.all(key)
        ctx.check(len(got) == len(want) and ctx.And([a == b for a, b in zip(got, want)]), "all values in list order")
    ctx.cover("several", len(want) == 2)
    ctx.cover("none", not want)


@harness("C21", "models", quick=dict(n=3, hi=9), thorough=dict(n=4, hi=9), cover=["dataclass default", "typed dict omitted", "missing required", "several"],
         about="dataclass and TypedDict models: any names and values")
def models(ctx, p):
    from rebulk.match import Matches

    ms = make_matches(ctx, p.n, p.hi)
    for k, m in enumerate(ms):
        m.name = ctx.string(f"name{k}", "uxyz", 1, 1)
        m.value = ctx.int(f"value{k}", 1, 5)
    lst = Matches(list(ms))

    def vals(nm):
        return [m.value for m in ms if m.name == nm]

    def same(a, b):
        return isinstance(a, list) and len(a) == len(b) and ctx.And([u == v for u, v in zip(a, b)] + [True])

    if ctx.flag("dataclass"):
        if not vals("x"):
            ctx.cover("missing required")
            try:
                lst.to(Model)
            except TypeError:
                return
            ctx.check(False, "a missing required field is an error")
        r = lst.to(Model)
        ctx.check(isinstance(r, Model) and r.v == 77, "model")
        ctx.check(r.x == vals("x")[0], "first value")
        ctx.check(same(r.y, vals("y")), "all values for a list field")
        z = vals("z")
        ctx.check(r.z == z[0] if z else r.z is None, "first value or default")
        ctx.check(r.w in ([], [7]), "absent list field")
        ctx.cover("dataclass default", not z)
        ctx.cover("several", len(vals("y")) == 2)
    else:
        r = lst.to(Typed)
        ctx.check(type(r) is dict and set(r) <= {"x", "y", "z"}, "typed dict")
        for nm in "xz":
            v = vals(nm)
            ctx.check((nm in r) == bool(v), "omitted when there is none")
            if v:
                ctx.check(r[nm] == v[0], "first value")
        ctx.check(same(r.get("y", []), vals("y")), "all values for a list field")
        ctx.cover("typed dict omitted", not vals("x"))


@harness("C21", "plain", quick=dict(n=3, hi=9), cover=["empty", "list"], about="list and plain models; unsupported ones refused")
def plain(ctx, p):
    from rebulk.match import Matches

    n = ctx.pick("n", 0, p.n)
    ms = valued(ctx, n, p.hi, "xy", 5)
    lst = Matches(list(ms))
    kind = ctx.choice("kind", ["list", "int", "record list", "instance"])
    if kind == "list":
        r = lst.to(list[int])
        ctx.check(len(r) == n and ctx.And([a == m.value for a, m in zip(r, ms)] + [True]), "all values in list order")
        ctx.cover("list")
    elif kind == "int":
        try:
            r = lst.to(int)
        except LookupError:
            ctx.check(n == 0, "lookup error only when there is none")
            ctx.cover("empty")
            return
        ctx.check(n > 0, "lookup error when there is none")
        ctx.check(r == ms[0].value, "value of the first match")
    else:
        try:
            lst.to(list[Model] if kind == "record list" else 12)
        except TypeError:
            return
        ctx.check(False, "unsupported models are refused")


FIELD_HINTS = {"int": int, "object": object, "optional": Optional[int], "union": int | None, "str": "int", "annotated": Annotated[int, "doc"],
               "list": list[int], "List": List[int], "list str": "list[object]", "annotated list": Annotated[list[int], "doc"]}


@harness("C21", "fields", quick=dict(n=2), thorough=dict(n=3), cover=["first value None", "list with None", "inherited", "falsy default kept"],
         about="every way to write a field's type, with and without a default, values None, falsy or any number")
def fields(ctx, p):
    from rebulk.match import Match, Matches

    ms, want = [], []
    for k in range(p.n):
        nm = ctx.choice(f"name{k}", ["x", "y"])
        v = ctx.choice(f"value{k}", ["none", "zero", "number"])
        if v == "number":
            m = Match(k, k + 1, name=nm, value=ctx.int(f"number{k}", 1, 5))
        else:
            m = Match(k, k + 1, name=nm, input_string="abcdef", formatter={"none": lambda s: None, "zero": lambda s: 0}[v])
        ms.append(m)
        want.append((nm, m.value))
    lst = Matches(list(ms))
    hint = ctx.choice("hint", list(FIELD_HINTS))
    many = "ist" in hint
    form = ctx.choice("form", ["dataclass", "inherited", "keyword only", "frozen", "typeddict", "inherited typeddict"])
    default = ctx.choice("default", ["none", "zero", "number"])
    dv = {"none": None, "zero": 0, "number": 9}[default]
    f = ("x", FIELD_HINTS[hint]) if "typeddict" in form else ("x", FIELD_HINTS[hint], dv)
    if form == "dataclass":
        model = dataclasses.make_dataclass("M", [f])
    elif form == "inherited":
        model = dataclasses.make_dataclass("M", [("q", int, 3)], bases=(dataclasses.make_dataclass("P", [f]),))
        ctx.cover("inherited")
    elif form in ("keyword only", "frozen"):
        model = dataclasses.make_dataclass("M", [f], kw_only=form != "frozen", frozen=form == "frozen")
    elif form == "typeddict":
        model = TypedDict("M", {"x": f[1]}, total=False)
    else:
        model = type(TypedDict("P", {}))("M", (TypedDict("P", {"x": f[1]}),), {"__annotations__": {"q": int}})
    r = lst.to(model)
    got = r if "typeddict" in form else {"x": r.x}
    vals = [v for nm, v in want if nm == "x"]
    if many:
        got = got.get("x")
        if vals:
            ctx.check(isinstance(got, list) and len(got) == len(vals) and ctx.And([a is b if b is None else a == b for a, b in zip(got, vals)]), "all values in list order", hint)
            ctx.cover("list with None", vals[0] is None)
        else:
            ctx.check(got in ([], dv), "no value")
    elif vals:
        ctx.check(got["x"] is None if vals[0] is None else got["x"] is not None and got["x"] == vals[0], "first value", hint)
        ctx.cover("first value None", vals[0] is None and dv == 9)
    else:
        ctx.check("x" not in got if "typeddict" in form else got["x"] is dv, "omitted, or left to its default", hint)
        ctx.cover("falsy default kept", dv == 0)
    if form == "inherited":
        ctx.check(r.q == 3, "other fields")
    if form == "inherited typeddict":
        ctx.check("q" not in r, "other fields")


class Base:
    def __init__(self, s=None):
        self.s = s


class Sub(Base):
    pass


HINTS = [int, bool, str, Base, Sub, list[int], list[Sub], Optional[int], Optional[Base], Union[int, str], list, object, int | None, Base | None, int | str, Union[None, str],
         List[int], "int", "list[int]", "int | None", "int | str | None", Annotated[int, "doc"], Annotated[list[int], "doc"]]
ELEMENT = [int, bool, str, Base, Sub, int, Sub, int, Base, None, None, object, int, Base, None, str, int, int, int, int, None, int, int]
MANY = (5, 6, 16, 18, 22)  # the list hints


@harness("C21", "contradiction", quick={}, cover=["refused", "related", "unresolved"], about="a model field against a declared key of the same name: every pair of kinds of types")
def contradiction(ctx, p):
    from rebulk.key import Key
    from rebulk.match import Match, Matches

    i = ctx.pick("hint", 0, len(HINTS) - 1)
    declared = ctx.choice("declared", [int, bool, str, Base, Sub])
    keyname = ctx.string("key", "xy", 1, 1)
    form = ctx.choice("form", ["dataclass", "typeddict"])
    if form == "dataclass":
        model = dataclasses.make_dataclass("M", [("x", HINTS[i], None)])
    else:
        model = TypedDict("M", {"x": HINTS[i]}, total=False)
    ms = Matches([Match(0, 1, name="x", value=1)])
    k = Key(ctx.real(keyname), declared)
    ms.declared_keys = {k.name: k}
    el = ELEMENT[i]
    clash = k.name == "x" and el is not None and not (issubclass(el, declared) or issubclass(declared, el))
    try:
        r = ms.to(model)
    except TypeError:
        ctx.check(clash, "refused only when the types are unrelated", (HINTS[i], declared))
        ctx.cover("refused")
        return
    ctx.check(not clash, "refused when the types are unrelated", (HINTS[i], declared))
    got = r.x if form == "dataclass" else r["x"]
    ctx.check(got == ([1] if i in MANY else 1), "value")
    ctx.cover("related", el is Sub and declared is Base)
    ctx.cover("unresolved", el is None and k.name == "x")


TYPES = {"int": int, "str": str, "float": float, "base": Base}
CONV = {"int": lambda s: 5, "bool": lambda s: True, "str": lambda s: "t", "none": lambda s: None, "sub": lambda s: Sub(s), "float": lambda s: 1.5,
        "empty str": lambda s: "", "zero": lambda s: 0, "empty list": lambda s: []}
OK = {("int", "int"), ("bool", "int"), ("str", "str"), ("float", "float"), ("sub", "base"), ("empty str", "str"), ("zero", "int")}


def at(a):
    return lambda _s: (a, a + 2)


@harness("C22", "check", quick=dict(n=2, kinds=["plain", "private"], convs=["int", "str", "none"]),
         thorough=dict(n=3, kinds=["plain", "private", "literal", "marker"], convs=["int", "str", "empty str"]), cover=["violation", "private exempt", "literal exempt", "none exempt", "marker exempt", "second of two"],
         about="any names, privacy, literals, markers and value types over several matches of one run")
def check(ctx, p):
    from rebulk import debug
    from rebulk.key import Key
    from rebulk.rebulk import Rebulk

    declared = ctx.choice("type", list(TYPES))
    where = ctx.choice("declared on", ["parent", "child", "disabled child"])
    specs = []
    for k in range(p.n):
        specs.append(dict(
            name=ctx.choice(f"name{k}", ["x", "y"]),
            kind=ctx.choice(f"kind{k}", p.kinds if k else ["plain", "private", "literal", "marker"]),
            conv=ctx.choice(f"conv{k}", p.convs if k else list(CONV)),
        ))

    def build():
        rb, child = Rebulk(), Rebulk(disabled=where == "disabled child")
        for k, s in enumerate(specs):
            kw = {"formatter": CONV[s["conv"]]}
            if s["name"]:
                kw["name"] = s["name"]
            if s["kind"] == "private":
                kw["private"] = True
            if s["kind"] == "literal":
                kw["value"] = 3.25
            if s["kind"] == "marker":
                kw["marker"] = True
            rb.functional(at(3 * k), **kw)
        (rb if where == "parent" else child).declare_keys(Key("x", TYPES[declared], formatter=lambda s: None))
        rb.rebulk(child)
        return rb

    def run(flag):
        old = debug.CHECK_DECLARED_KEYS
        debug.CHECK_DECLARED_KEYS = flag
        try:
            r = build().matches("abcdefghijkl")
            return [(m.span, m.name, repr(type(m.value))) for m in r], [(m.span, m.name) for m in r.markers]
        finally:
            debug.CHECK_DECLARED_KEYS = old

    bad = [s["name"] == "x" and s["kind"] == "plain" and s["conv"] != "none" and (s["conv"], declared) not in OK for s in specs]
    if where == "disabled child":
        bad = [False] * p.n
    off = run(False)
    ctx.check(len(off[0]) + len(off[1]) == len([s for s in specs if s["kind"] != "private"]), "unchecked run gives every match")
    try:
        on = run(True)
    except TypeError:
        ctx.check(any(bad), "raises only for an ill-typed value", (specs, declared))
        ctx.cover("violation")
        ctx.cover("second of two", not bad[0])
        return
    ctx.check(not any(bad), "raises for every ill-typed value", (specs, declared))
    ctx.check(on == off, "the check changes no result")
    s = specs[0]
    wrong = s["name"] == "x" and (s["conv"], declared) not in OK and where == "parent"
    ctx.cover("private exempt", wrong and s["kind"] == "private")
    ctx.cover("literal exempt", wrong and s["kind"] == "literal")
    ctx.cover("marker exempt", wrong and s["kind"] == "marker")
    ctx.cover("none exempt", wrong and s["conv"] == "none")


@harness("C22", "again", quick={}, cover=["first", "second", "both"],
         about="the check made of one list, or of two sharing the keys, after values, names, privacy or keys have changed: by the present content")
def again(ctx, p):
    from rebulk.key import Key
    from rebulk.match import Match, Matches

    declared = ctx.choice("type", ["int", "str"])
    key = Key("x", TYPES[declared])

    def bad(lst):
        try:
            lst.check_declared_keys()
        except TypeError:
            return True
        return False

    def expected(m, keys):
        return "x" in keys and m.name == "x" and not m.private and not m.has_literal_value and (conv[id(m)], declared) not in OK and conv[id(m)] != "none"

    conv = {}
    lists = []
    for k in range(2):
        m = Match(0, 1, name="x", input_string="a")
        c = ctx.choice(f"conv{k}", ["int", "str", "none"])
        m.formatter, conv[id(m)] = CONV[c], c
        lst = Matches([m], input_string="a")
        lst.declared_keys = {"x": key}
        lists.append((m, lst))
    if ctx.flag("shared keys"):
        lists[1][1].declared_keys = lists[0][1].declared_keys
    got = [bad(lst) for _, lst in lists]
    ctx.check(got == [expected(m, lst.declared_keys) for m, lst in lists], "each list by its content", got)
    ctx.cover("both", all(got))
    which = ctx.pick("which", 0, 1)
    m, lst = lists[which]
    op = ctx.choice("op", ["formatter", "name", "private", "literal", "undeclared", "added", "nothing"])
    if op == "formatter":
        c = ctx.choice("conv", ["int", "str"])
        m.formatter, conv[id(m)] = CONV[c], c
    elif op == "name":
        m.name = "y"
    elif op == "private":
        m.private = True
    elif op == "literal":
        m.value = 3.25
    elif op == "undeclared":
        lst.declared_keys = {}
    elif op == "added":
        extra = Match(0, 1, name="x", input_string="a", formatter=CONV["str"])
        conv[id(extra)] = "str"
        lst.append(extra)
    for j, (_, o) in enumerate(lists):
        want = any(expected(x, o.declared_keys) for x in o)
        ctx.check(bad(o) == want, "by the present content", (j, op))
        ctx.cover("first" if got[j] and not want else "second" if want and not got[j] else "both", True)


@harness("C22", "children", quick={}, cover=["child violation", "parent text exempt"], about="each match is checked on its own: children of a regex pattern and its private parent")
def children(ctx, p):
    from rebulk import debug
    from rebulk.key import Key
    from rebulk.rebulk import Rebulk

    d = ctx.choice("type", ["int", "str"])
    c1 = ctx.choice("conv1", list(CONV))
    c2 = ctx.choice("conv2", list(CONV))
    rb = Rebulk().declare_keys(Key("x", TYPES[d]))
    private = ctx.choice("privacy of x", ["public", "by name", "as child"])
    kw = {"by name": dict(private_names=["x"]), "as child": dict(private_children=True)}.get(private, {})
    rb.regex("(?P<x>[ab]+)-(?P<x2>c)", name="x", private_parent=True, children=private != "as child", every=ctx.flag("every") and private != "as child",
             format_all=ctx.flag("format_all") and private == "as child", formatter={"x": CONV[c1], "x2": CONV[c2], "__parent__": CONV["none"]}, **kw)
    old = debug.CHECK_DECLARED_KEYS
    debug.CHECK_DECLARED_KEYS = True
    # the parent named x is private and keeps its plain text
    bad = c1 != "none" and (c1, d) not in OK and private == "public"
    try:
        r = rb.matches("zz ab-c zz")
    except TypeError:
        ctx.check(bad, "raises only for an ill-typed value", (d, c1, c2))
        ctx.cover("child violation")
        return
    finally:
        debug.CHECK_DECLARED_KEYS = old
    ctx.check(not bad, "raises for an ill-typed child", (d, c1, c2))
    ctx.check([m.name for m in r] == {"public": ["x", "x2"], "by name": ["x2"], "as child": []}[private], "children emitted")
    ctx.cover("parent text exempt", d == "int")


@harness("C22", "contexts", quick={}, cover=["on", "off", "several"],
         about="keys declared on a rebulk and on children enabled by flag or by the context given: the keys of those enabled in this call count")
def contexts(ctx, p):
    from rebulk import debug
    from rebulk.key import Key
    from rebulk.rebulk import Rebulk

    gates = [ctx.choice(f"gate{k}", [False, True, "context"]) for k in range(2)]
    bulks = [Rebulk(disabled=(lambda c: not (c or {}).get("use")) if g == "context" else g) for g in gates]
    root = Rebulk().rebulk(*bulks)
    names = ["x", "y"]
    types = [ctx.choice(f"type{k}", ["int", "str"]) for k in range(2)]
    for k, b in enumerate(bulks):
        (root if k and ctx.flag("on the parent") else b).declare_keys(Key(names[k], TYPES[types[k]], formatter=lambda s: None))
    convs = [ctx.choice(f"conv{k}", ["int", "str"]) for k in range(2)]
    for k in range(2):
        root.functional(at(3 * k), name=names[k], formatter=CONV[convs[k]])
    parent = "y" in root._keys
    old = debug.CHECK_DECLARED_KEYS
    debug.CHECK_DECLARED_KEYS = True
    try:
        for call in range(2):
            context = ctx.choice(f"context{call}", [None, {}, {"use": True}, {"use": False}])
            on = [not g or (g == "context" and bool((context or {}).get("use"))) for g in gates]
            on[1] = on[1] or parent
            bad = any(on[k] and convs[k] != types[k] for k in range(2))
            try:
                res = root.matches("abcdefgh", context) if context is not None else root.matches("abcdefgh")
                raised = False
                ctx.check([m.name for m in res] == names, "the result is unchanged")
            except TypeError:
                raised = True
            ctx.check(raised == bad, "raises exactly for the keys enabled in this call", (context, on, convs, types))
            ctx.cover("on", raised and gates[0] == "context" and convs[1] == types[1])
            ctx.cover("off", not raised and gates[0] == "context" and convs[0] != types[0])
            ctx.cover("several", raised and all(on) and not parent)
    finally:
        debug.CHECK_DECLARED_KEYS = old
