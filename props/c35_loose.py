"""C35: the loose call helper and the callbacks called through it."""
import functools

from symx.api import harness

FORMS = ["function", "method", "object", "class", "class with new", "staticmethod", "classmethod", "partial", "subclass"]


def make(form, params, seen, bound="", result=None):
    """A callable of this form with these parameters, recording its local variables in seen."""
    self_ = {"function": "", "staticmethod": "", "partial": bound}.get(form, "self")
    sig = ", ".join(x for x in (self_, params) if x)
    if form == "partial" and not bound:
        sig = params
    body = "    r = dict(locals()); seen.append(r)\n"
    ret = "    return RESULT if result is None else result[0]\n"
    ns = {"seen": seen, "RESULT": RESULT, "result": result}
    if form == "class with new":
        exec(f"def __new__({sig}):\n    r = dict(locals()); seen.append(r)\n    return object.__new__(self)\n", ns)
        return type("C", (), {"__new__": ns["__new__"]})
    name = {"class": "__init__", "subclass": "__init__", "object": "__call__"}.get(form, "f")
    exec(f"def {name}({sig}):\n{body}{'' if name == '__init__' else ret}", ns)
    f = ns[name]
    if form == "function":
        return f
    if form == "partial":
        return functools.partial(f, "BOUND") if bound else functools.partial(f)
    if form == "staticmethod":
        return type("C", (), {"f": staticmethod(f)}).f
    if form == "classmethod":
        return type("C", (), {"f": classmethod(f)}).f
    c = type("C", (), {name: f})
    if form == "method":
        return c().f
    if form == "object":
        return c()
    if form == "subclass":
        return type("D", (c,), {})
    return c


class Result:
    pass


RESULT = Result()


@harness("C35", "signatures", quick=dict(pos=2, args=3, full=0), thorough=dict(pos=3, args=4, full=1), cover=["surplus", "filled and named", "any keyword", "keyword only", "default kept"],
         about="any signature shape and form of callable, any positional values and any keyword arguments offered")
def signatures(ctx, p):
    from rebulk.loose import call

    form = ctx.choice("form", FORMS)
    npos = ctx.pick("parameters", 0, p.pos)
    names = ["a", "b", "context"][:npos]
    ndef = ctx.pick("defaults", 0, npos)
    varargs, varkw = ctx.flag("*args"), ctx.flag("**kwargs")
    kwonly = ctx.choice("keyword-only", ["none", "optional", "required"])
    nargs = ctx.pick("offered", 0, p.args)
    args = [ctx.int(f"arg{k}", 0, 99) for k in range(nargs)]
    keys = ["a", "b", "k", "constructor"] + (["context", "function"] if p.full else [])
    offered = {k: ctx.int(f"kw {k}", 0, 99) for k in keys if ctx.flag(f"offer {k}")}
    params = [n + (f"='default {n}'" if i >= npos - ndef else "") for i, n in enumerate(names)]
    if varargs:
        params.append("*rest")
    elif kwonly != "none":
        params.append("*")
    if kwonly != "none":
        params.append("k" + ("='default k'" if kwonly == "optional" else ""))
    if varkw:
        params.append("**more")
    bound = "first" if form == "partial" and ctx.flag("bound") else ""
    # what it is to get
    filled = names[:nargs]
    want = dict(zip(filled, args))
    for n in names[nargs:]:
        if n in offered:
            want[n] = offered[n]
        else:
            ctx.assume(names.index(n) >= npos - ndef)
            want[n] = f"default {n}"
    if kwonly != "none":
        ctx.assume(kwonly == "optional" or "k" in offered)
        want["k"] = offered.get("k", "default k")
    if varargs:
        want["rest"] = tuple(args[npos:])
        # positions taken by extra arguments
    if varkw:
        want["more"] = {k: v for k, v in offered.items() if k not in names and not (k == "k" and kwonly != "none")}
    seen = []
    fn = make(form, ", ".join(params), seen, bound)
    copy = dict(offered)
    res = call(fn, *args, **offered)
    ctx.check(len(seen) == 1, "called once")
    got = seen[0]
    got.pop("self", None), got.pop("__class__", None)
    if bound:
        ctx.check(got.pop("first") == "BOUND", "bound argument")
    ctx.check(sorted(got) == sorted(want), "parameters", (sorted(got), sorted(want)))
    for n in want:
        if n == "rest":
            ctx.check(len(got[n]) == len(want[n]) and all(x == y for x, y in zip(got[n], want[n])), "positional values", (n, got[n], want[n]))
        elif n == "more":
            ctx.check(sorted(got[n]) == sorted(want[n]) and all(got[n][k] == want[n][k] for k in want[n]), "keyword values", (n, got[n], want[n]))
        else:
            ctx.check(ctx.eq(got[n], want[n]) if not isinstance(want[n], str) else got[n] == want[n], "value", (n, got[n], want[n]))
    if form in ("class", "class with new", "subclass"):
        ctx.check(type(res) is fn, "the instance is returned")
    else:
        ctx.check(res is RESULT, "the value returned is the one of the function")
    ctx.check(list(offered) == list(copy), "offered arguments unchanged")
    ctx.cover("surplus", nargs > npos and not varargs and len(offered) == len(keys) and not varkw)
    ctx.cover("filled and named", nargs > 0 and npos > 0 and "a" in offered)
    ctx.cover("any keyword", varkw and "constructor" in offered)
    ctx.cover("keyword only", kwonly == "required")
    ctx.cover("default kept", any(n not in offered for n in names[nargs:]))


@harness("C35", "partials", quick=dict(pos=3, args=3), thorough=dict(pos=3, args=4), cover=["method", "positional bound", "keyword bound", "nested"],
         about="functools.partial of any form of callable, binding positional or keyword arguments, also twice")
def partials(ctx, p):
    from rebulk.loose import call

    form = ctx.choice("form", [f for f in FORMS if f != "partial"])
    npos = ctx.pick("parameters", 1, p.pos)
    names = ["a", "b", "context"][:npos]
    varargs = ctx.flag("*args")
    nbound = ctx.pick("bound", 0, npos - 1)
    kwbound = ctx.flag("keyword bound")
    nargs = ctx.pick("offered", 0, p.args)
    args = [ctx.int(f"arg{k}", 0, 99) for k in range(nargs)]
    offered = {k: ctx.int(f"kw {k}", 0, 99) for k in ("b", "z") if ctx.flag(f"offer {k}")}
    seen = []
    inner = make(form, ", ".join([f"{n}='default {n}'" for n in names] + (["*rest"] if varargs else ["*"]) + ["k='default k'"]), seen)
    kw = {"k": "BOUND k"} if kwbound else {}
    if nbound == 2 and ctx.flag("nested"):
        fn = functools.partial(functools.partial(inner, "BOUND 0"), "BOUND 1", **kw)
        ctx.cover("nested")
    else:
        fn = functools.partial(inner, *[f"BOUND {i}" for i in range(nbound)], **kw)
    res = call(fn, *args, **offered)
    got = seen[0]
    got.pop("self", None), got.pop("__class__", None)
    given = [f"BOUND {i}" for i in range(nbound)] + args
    want = {n: given[i] if i < len(given) else offered.get(n, f"default {n}") for i, n in enumerate(names)}
    want["k"] = "BOUND k" if kwbound else "default k"
    if varargs:
        want["rest"] = tuple(given[npos:])
    ctx.check(len(seen) == 1 and sorted(got) == sorted(want), "called once, parameters", (sorted(got), sorted(want)))
    for n in want:
        if n == "rest":
            ctx.check(len(got[n]) == len(want[n]) and all(x is y or bool(x == y) for x, y in zip(got[n], want[n])), "positional values", (got[n], want[n]))
        else:
            ctx.check(got[n] == want[n], "value", (n, got[n], want[n]))
    ctx.check(isinstance(res, inner) if form in ("class", "class with new", "subclass") else res is RESULT, "the value returned is the one of the function")
    ctx.cover("method", form == "method" and nbound == 0)
    ctx.cover("positional bound", nbound == 1)
    ctx.cover("keyword bound", kwbound)


@harness("C35", "builtins", quick=dict(args=3), cover=["method", "function", "type method"], about="builtin functions and bound builtin methods, also partials of them, with surplus arguments of any value")
def builtins_(ctx, p):
    import operator

    from rebulk.loose import call

    which = ctx.choice("which", ["append", "get", "sorted", "add", "fromkeys", "unbound"])
    part = ctx.flag("partial")
    x = [ctx.int(f"arg{k}", 0, 99) for k in range(p.args)]
    offered = {k: 1 for k in ("z", "self", "type") if ctx.flag("offer " + k)}
    n = {"append": 1, "get": 2, "sorted": 0, "add": 2, "fromkeys": 1, "unbound": 1}[which] + ctx.pick("surplus", 0, 1)
    target, d = [], {"q": 5}
    fn = {"append": target.append, "get": d.get, "sorted": sorted, "add": operator.add, "fromkeys": dict.fromkeys, "unbound": list.append}[which]
    if which == "get":
        args = ["q" if ctx.flag("present") else "r"] + x[1:n]
    elif which == "sorted":
        args = [["b", "a"]] + x[:n]
    elif which == "fromkeys":
        args = [["k"]] + x[:n]
    elif which == "unbound":
        args = [target] + x[:n]
    else:
        args = x[:n]
    if part and args:
        fn, args = functools.partial(fn, args[0]), args[1:]
    res = call(fn, *args, **offered)
    if which in ("append", "unbound"):
        ctx.check(res is None and len(target) == 1 and ctx.eq(target[0], x[0]), "appended", target)
        ctx.cover("method", which == "append")
    elif which == "get":
        first = fn.args[0] if part else args[0]
        ctx.check(ctx.eq(res, 5 if first == "q" else x[1]), "got")
    elif which == "sorted":
        ctx.check(res == ["a", "b"], "sorted")
        ctx.cover("function")
    elif which == "add":
        ctx.check(ctx.eq(res, x[0] + x[1]), "added")
    else:
        ctx.check(list(res) == ["k"] and (ctx.eq(res["k"], x[0])), "built", res)
        ctx.cover("type method")


@harness("C35", "plain classes", quick=dict(), cover=["dataclass", "no constructor"], about="classes without a constructor of their own, dataclasses, named tuples")
def plain_classes(ctx, p):
    import dataclasses

    from rebulk.loose import call

    kind = ctx.choice("kind", ["no constructor", "dataclass"])
    nargs = ctx.pick("args", 0, 3)
    args = [ctx.int(f"arg{k}", 0, 9) for k in range(nargs)]
    offered = {k: ctx.int("kw " + k, 0, 9) for k in ("a", "b", "z") if ctx.flag("offer " + k)}
    if kind == "no constructor":
        c = type("C", (), {})
        ctx.check(type(call(c, *args, **offered)) is c, "built")
    else:
        c = dataclasses.make_dataclass("D", [("a", int, 100), ("b", int, 200)])
        o = call(c, *args, **offered)
        for i, n in enumerate("ab"):
            ctx.check(ctx.eq(getattr(o, n), args[i] if i < nargs else offered.get(n, (i + 1) * 100)), "field", n)
    ctx.cover(kind)


@harness("C35", "callbacks", quick=dict(), cover=["context", "without context", "options", "any option"],
         about="a functional pattern gets the text, the context and the options of the pattern its signature has room for, and the match is the span it returns")
def callbacks(ctx, p):
    from rebulk.rebulk import Rebulk

    form = ctx.choice("form", ["function", "method", "object", "partial", "staticmethod", "classmethod"])
    sig = ctx.choice("signature", ["s", "s, context", "s, context=None", "*rest", "s, **more", "s, *rest, mine", "s, context, *, mine", "s, context, mine, name='dflt'"])
    context = {"k": ctx.int("k", 0, 9)} if ctx.flag("with context") else None
    mine = ctx.int("mine", 0, 9)
    named = ctx.flag("named")
    as_dict = ctx.flag("dict")
    s, e = ctx.int("start", 0, 3), ctx.int("end", 4, 6)
    seen = []
    fn = make(form, sig, seen, result=[{"start": s, "end": e} if as_dict else (s, e)])
    opts = {"mine": mine, **({"name": "n"} if named else {})}
    rb = Rebulk().functional(fn, **opts)
    res = rb.matches("abcdef", context)
    ctx.check(len(res) == 1 and ctx.And(res[0].start == s, res[0].end == e), "its span is used")
    ctx.check(res[0].name == ("n" if named else None), "name")
    ctx.check(len(seen) == 1, "called once")
    got = seen[0]
    got.pop("self", None)
    want = {}
    c = {} if context is None else context
    if sig == "*rest":
        want = {"rest": ("abcdef", c)}
    elif sig == "s, *rest, mine":
        want = {"s": "abcdef", "rest": (c,), "mine": mine}
    elif sig == "s, **more":
        want = {"s": "abcdef", "more": opts}
        ctx.cover("any option")
    else:
        want = {"s": "abcdef"}
        if "context" in sig:
            want["context"] = c
        if "mine" in sig:
            want["mine"] = mine
            ctx.cover("options")
        if "name" in sig:
            want["name"] = "n" if named else "dflt"
    ctx.check(sorted(got) == sorted(want), "parameters", (sorted(got), sorted(want)))
    for k in want:
        ctx.check(got[k] == want[k], "argument", (k, got[k], want[k]))
    if context is not None and "context" in got:
        ctx.check(got["context"] is context, "the context of the call")
    ctx.cover("context" if "context" in got else "without context")


@harness("C35", "in a chain", quick=dict(), cover=["context", "no context", "options", "through the part"],
         about="a function taking part in a chain gets the text left, the context of the call and its options; its span counts from there")
def in_a_chain(ctx, p):
    from rebulk.rebulk import Rebulk

    sig = ctx.choice("signature", ["s", "s, context", "*rest", "s, **more", "s, context, *, mine"])
    context = {"k": ctx.int("k", 0, 9)} if ctx.flag("with context") else None
    mine = ctx.int("mine", 0, 9)
    through = ctx.flag("through the part")
    e = ctx.int("end", 1, 4)
    seen = []
    fn = make("function", sig, seen, result=[(0, e)])
    ch = Rebulk().chain().string("ab")
    (ch.repeater(1) if through else ch).functional(fn, mine=mine, name="f")
    res = ch.close().matches("abcdef", context)
    c = {} if context is None else context
    ctx.check(len(seen) == 1, "called once", len(seen))
    got = seen[0]
    want = {"rest": ("cdef", c)} if sig == "*rest" else {"s": "cdef"}
    if sig == "s, **more":
        want["more"] = {"mine": mine, "name": "f"}
    if "context" in sig:
        want["context"] = c
    if ", mine" in sig:
        want["mine"] = mine
        ctx.cover("options")
    ctx.check(sorted(got) == sorted(want), "parameters", (sorted(got), sorted(want)))
    for k in want:
        ctx.check(got[k] == want[k], "argument", (k, got[k], want[k]))
    f = [m for m in res if m.name == "f"] + [x for m in res for x in m.children if x.name == "f"]
    ctx.check(len(f) == 1 and ctx.And(f[0].start == 2, f[0].end == 2 + e), "its span counts from the text left", res)
    if through:
        ctx.cover("through the part")
    ctx.cover("context" if context is not None else "no context")
