"""C38: loading of rules; C39: forms of regular expressions; C40: debug and log levels; C41: attributes of matches."""
import logging
import re
import sys
import types

from symx.api import harness
from props._common import TEXT, FakeRegex, is_in, same_list

# --- C38 -------------------------------------------------------------------------------------------


def rule_class(name, events, module="x", extra=None):
    from rebulk.rules import CustomRule

    def init(self, *args, **kw):
        CustomRule.__init__(self, *args, **kw)
        events.append((name, args, kw))

    d = {"when": lambda self, matches, context: events.append(("when", name)), "then": lambda self, matches, when_response, context: None,
         "__init__": init, "__module__": module}
    d.update(extra or {})
    return type(name, (CustomRule,), d)


MEMBERS = ["Zeta", "Alpha", "mid", "_private", "function", "constant", "other class", "helper", "abstract", "imported", "imported base", "instance", "Condition"]


def rules_module(ctx, tag, events, foreign, fixed=None):
    """A module with some of the possible members; returns it and the classes it declares, by name."""
    from rebulk import rules as r

    mod = types.ModuleType("mod_" + tag)
    name = mod.__name__
    declared = []
    for kind in MEMBERS:
        if kind not in fixed if fixed is not None else not ctx.flag(f"{tag}.{kind}"):
            continue
        if kind in ("Zeta", "Alpha", "mid", "_private"):
            c = rule_class(kind, events, name)
            setattr(mod, kind, c)
            declared.append(c)
        elif kind == "function":
            mod.build = lambda *args, **kw: events.append("called")
        elif kind == "constant":
            mod.SEPS, mod.Names = " -", ["a"]
        elif kind == "other class":
            mod.Other = type("Other", (), {"__module__": name, "__init__": lambda self: events.append("made")})
        elif kind == "helper":
            mod.RulesHelper = type("RulesHelper", (dict,), {"__module__": name})
        elif kind == "abstract":
            mod.Base = type(r.CustomRule)("Base", (r.CustomRule,), {"__module__": name, "when": lambda self, matches, context: True})
        elif kind == "imported":
            mod.Imported = foreign
        elif kind == "imported base":
            mod.Rule, mod.CustomRule, mod.RemoveMatch, mod.ConflictSolver = r.Rule, r.CustomRule, r.RemoveMatch, __import__("rebulk.processors", fromlist=["x"]).ConflictSolver
        elif kind == "instance":
            mod.ready = foreign.__new__(foreign)
        elif kind == "Condition":
            mod.OnlyThen = type(r.Consequence)("OnlyThen", (r.Consequence,), {"__module__": name, "then": lambda self, matches, when_response, context: None})
    return mod, sorted(declared, key=lambda c: c.__name__)


def loaded(ctx, got, want, label):
    """want: list of instances (the very object) and classes (a new instance)."""
    got = list(got)
    ctx.check(len(got) == len(want), label + ": number of rules", ([type(x).__name__ for x in got], want))
    for g, w in zip(got, want):
        if isinstance(w, type):
            ctx.check(type(g) is w, label + ": an instance of the class", (g, w))
        else:
            ctx.check(g is w, label + ": the very instance", (g, w))
    ctx.check(all(a is not b for k, a in enumerate(got) for b in got[:k] if not any(b is w for w in want)), label + ": new instances")


@harness("C38", "module", quick=dict(all=False), thorough=dict(all=True), cover=["empty module", "no rule", "rules among others", "underscore"], about="a module holding any of thirteen kinds of members")
def module(ctx, p):
    from rebulk.rebulk import Rebulk
    from rebulk.rules import Rules

    events = []
    foreign = rule_class("Foreign", events, "elsewhere")
    mod, declared = rules_module(ctx, "m", events, foreign, fixed=None if p.all else [
        *ctx.subset("m", MEMBERS[:4]), *(lambda k: [] if k == "none" else MEMBERS[4:] if k == "all" else MEMBERS[4:8] if k == "half" else [k])(
            ctx.choice("others", ["none", "half", "all", *MEMBERS[4:]]))])
    if hasattr(mod, "Imported"):
        foreign.__module__ = ctx.choice("home of the imported rule", ["elsewhere", "mod_m.inner", "mod", "mod_m2", "pkg.mod_m", "Mod_m", "__main__"])
    through = ctx.choice("through", ["Rules", "Rebulk"])
    if through == "Rules":
        rules = Rules(mod)
    else:
        rules = Rebulk(default_rules=False).rules(mod).effective_rules({})
    loaded(ctx, rules, declared, "module")
    ctx.check(events == [(c.__name__, (), {}) for c in declared], "each rule class called once, nothing else called", events)
    ctx.cover("empty module", len(vars(mod)) <= 6 and not declared)
    ctx.cover("no rule", not declared and hasattr(mod, "Base"))
    ctx.cover("rules among others", len(declared) > 1 and hasattr(mod, "Rule") and hasattr(mod, "build"))
    ctx.cover("underscore", hasattr(mod, "_private"))


@harness("C38", "sequences", quick=dict(n=3), thorough=dict(n=4), cover=["instance", "class", "module", "one class twice", "class and instance", "two calls"],
         about="any sequence of instances, classes and modules, over one or several calls, in a rebulk, its child or a rule list")
def sequences(ctx, p):
    from rebulk.rebulk import Rebulk
    from rebulk.rules import Rules

    events = []
    foreign = rule_class("Foreign", events, "elsewhere")
    mod, declared = rules_module(ctx, "m", events, foreign, fixed=["Zeta", "Alpha", "imported", "function"])
    c1 = rule_class("One", events)
    sub = type("Sub", (c1,), {"__module__": "x"})
    defaulted = rule_class("Two", events, extra={"__init__": lambda self, size=3: setattr(self, "size", size), "defined_at": None, "log_level": 10})
    inst = c1()
    options = {"instance": (inst, [inst]), "class": (c1, [c1]), "subclass": (sub, [sub]), "own init": (defaulted, [defaulted]), "module": (mod, declared), "imported": (foreign, [foreign])}
    items = [ctx.choice(f"item{k}", list(options)) for k in range(p.n)]
    cut = ctx.pick("cut", 0, p.n)
    given = [options[i][0] for i in items]
    want = [w for i in items for w in options[i][1]]
    target = ctx.choice("target", ["Rules", "Rebulk", "child"])
    if target == "Rules":
        rules = Rules(*given[:cut])
        r = rules.load(*given[cut:])
        ctx.check(r is None or r is rules, "load returns nothing else")
    else:
        rb = Rebulk(default_rules=False)
        ctx.check(rb.rules(*given[:cut]) is rb and rb.rules(*given[cut:]) is rb, "the rebulk is returned")
        if target == "child":
            # one rule per class survives in a parent
            seen, kept = [], []
            for w in want:
                c = w if isinstance(w, type) else type(w)
                if c not in seen:
                    seen.append(c)
                    kept.append(w)
            want = kept
            rb = Rebulk(default_rules=False).rebulk(rb)
        rules = rb.effective_rules({})
    loaded(ctx, rules, want, "sequence")
    for g, w in zip(rules, want):
        if w is defaulted:
            ctx.check(g.size == 3, "built with its defaults")
    for name in ("instance", "class", "module"):
        ctx.cover(name, items[0] == name)
    ctx.cover("one class twice", target == "Rules" and items.count("class") > 1)
    ctx.cover("class and instance", items[0] == "class" and "instance" in items)
    ctx.cover("two calls", 0 < cut < p.n)


@harness("C38", "run", quick=dict(hi=3), cover=["reordered"], about="loaded rules run by their priorities (symbolic), whatever form they were given in; the built-in rules are there exactly by default")
def run(ctx, p):
    from rebulk.processors import ConflictSolver, PrivateRemover
    from rebulk.rebulk import Rebulk

    events = []
    foreign = rule_class("Foreign", events, "elsewhere")
    mod, declared = rules_module(ctx, "m", events, foreign, fixed=["Zeta", "Alpha", "imported"])
    one = rule_class("One", events)
    order = [*declared, one]
    for k, c in enumerate(order):
        c.priority = ctx.int(f"priority{k}", 0, p.hi)
    default = ctx.flag("default rules")
    rb = Rebulk(default_rules=default)
    if ctx.flag("instance"):
        rb.rules(mod, one())
    else:
        rb.rules(mod)
        rb.rules(one)
    del events[:]
    rb.matches("ab")
    names = [c.__name__ for c in order]
    got = [e[1] for e in events if e[0] == "when"]
    ctx.check(sorted(got) == sorted(names), "each runs once", got)
    for i in range(3):
        for j in range(i + 1, 3):
            first = got.index(names[i]) < got.index(names[j])
            ctx.check(ctx.Iff(first, order[i].priority >= order[j].priority), "by priority, then as given", got)
    builtin = [type(r) for r in rb.effective_rules({}) if type(r) in (ConflictSolver, PrivateRemover)]
    ctx.check(builtin == ([ConflictSolver, PrivateRemover] if default else []), "built-in rules by default only")
    ctx.cover("reordered", got == names[::-1])


# --- C39 -------------------------------------------------------------------------------------------

FLAGS = [0, re.IGNORECASE, re.DOTALL, re.IGNORECASE | re.MULTILINE]


def facts(ctx, pat):
    return [(c.pattern, c.flags) for c in pat.patterns]


@harness("C39", "forms", quick=dict(n=3), thorough=dict(n=4), cover=["text", "tuple", "list", "dict", "compiled", "verbose flag"],
         about="an expression (any text of up to n characters) in every form, with flags, finds the same")
def forms(ctx, p):
    from rebulk.pattern import RePattern

    src = ctx.string("text", "aB.", 1, p.n)
    flags = ctx.choice("flags", FLAGS)
    form = ctx.choice("form", ["text", "tuple", "list", "dict", "compiled", "pair without flags"])
    want = re.compile(str(src), 0 if form == "pair without flags" else flags)
    src = str(src)
    given, kw = {"text": (src, {"flags": flags}), "tuple": ((src, flags), {}), "list": ([src, flags], {}), "dict": ({"pattern": src, "flags": flags}, {}),
                 "compiled": (want, {}), "pair without flags": ((src,), {})}[form]
    copy = given.copy() if isinstance(given, (dict, list)) else given
    pat = RePattern(given, **kw)
    ctx.check(facts(ctx, pat) == [(want.pattern, want.flags)], "the expression and flags given", facts(ctx, pat))
    ctx.check(given == copy, "what was given is unchanged")
    texts = ["ab\naB a", "B", "aaBB.b"]
    for t in texts:
        got = [m.span for m in pat.matches(t)]
        ctx.check(got == [m.span() for m in want.finditer(t) if m.end() > m.start()], "the occurrences", (t, got))
    ctx.cover(form)
    ctx.cover("verbose flag", flags and form == "text")


def literal(text, abbreviations):
    for a, b in abbreviations:
        out = ""
        i = 0
        while i < len(text):
            if a and text[i:i + len(a)] == a:
                out = out + b
                i += len(a)
            else:
                out = out + text[i]
                i += 1
        text = out
    return text


ABBREVIATIONS = {
    "one": [("-", "[x]+")],
    "in order": [("-", "a."), ("a", "(?:b)")],
    "reverse": [("a", "-"), ("-", "[x]")],
    "long": [("a-", "."), ("-", "y")],
    "special": [(".", "[.]"), ("[", "(?:z)[")],
    "to nothing": [("-", ""), ("a", "")],
    "twice": [("-", "x"), ("-", "y")],
    "longer later": [("-", "."), (".a", "[x]")],
    "longer first": [("a-", "."), ("a", "-"), ("-.", "y")],
    "shared start": [("a", "x"), ("a-", "y")],
    "long replacement": [("a", "-a-a-"), ("-a", "."), ("[", "]")],
    "groups": [("-", r"\d"), ("a", r"\g<0>|\1")],
    "none": [],
}


class Recorder:
    """Stands for the regex module: records what it is asked to compile."""

    def __init__(self):
        self.asked = []

    def compile(self, pattern, flags=0):
        self.asked.append((pattern, flags))
        return FakeRegex([], [], pattern)


@harness("C39", "abbreviations", quick=dict(n=4), thorough=dict(n=5), cover=["replaced", "twice", "result of a replacement", "dict", "untouched form"],
         about="any text of up to n characters with lists of abbreviations: each is a literal replacement, in the given order")
def abbreviations(ctx, p):
    import rebulk.pattern as mod

    which = ctx.choice("abbreviations", list(ABBREVIATIONS))
    ab = [tuple(x) for x in ABBREVIATIONS[which]]
    if ctx.flag("lists"):
        ab = tuple(map(list, ab))
    src = ctx.string("text", "a-.[", 0, p.n)
    form = ctx.choice("form", ["text", "dict", "tuple", "two texts"])
    rec = Recorder()
    from rebulk.remodule import re as engine

    old, engine.compile = engine.compile, rec.compile
    fl = ctx.choice("flags", [2, 64 | 2]) if form in ("dict", "tuple") else 2  # ignore case, verbose
    given = {"pattern": src, "flags": fl}
    try:
        if form == "text":
            mod.RePattern(src, abbreviations=ab)
        elif form == "dict":
            mod.RePattern(given, abbreviations=ab)
        elif form == "tuple":
            mod.RePattern((src, fl), abbreviations=ab)
        else:
            mod.RePattern("-" + "a", src, abbreviations=ab)
    finally:
        engine.compile = old
    want = literal(src, ab) if form != "tuple" else src
    ctx.check(rec.asked[-1][0] == want, "the text given to the engine", (rec.asked, want))
    ctx.check(len(rec.asked) == (2 if form == "two texts" else 1), "one expression per argument")
    ctx.check(rec.asked[-1][1] == (fl if form in ("dict", "tuple") else 0), "flags kept", rec.asked)
    if form == "two texts":
        ctx.check(rec.asked[0][0] == literal("-a", ab), "each text on its own", rec.asked)
    ctx.check(given["pattern"] is src and given["flags"] == fl and len(given) == 2, "dict of the caller unchanged")
    ctx.check(list(map(tuple, ab)) == [tuple(x) for x in ABBREVIATIONS[which]], "abbreviations unchanged")
    ctx.cover("replaced", which == "one" and src == "a-")
    ctx.cover("twice", which == "one" and src == "-a-")
    ctx.cover("result of a replacement", which == "in order" and src == "-")
    ctx.cover("dict", form == "dict" and src == "--")
    ctx.cover("untouched form", form == "tuple" and src == "-")


@harness("C39", "any abbreviations", quick=dict(n=3, count=2, size=2), thorough=dict(n=4, count=2, size=2), cover=["longer later", "produced", "dict"],
         about="any abbreviations: keys, replacements and texts of any characters, applied in the given order in every form")
def any_abbreviations(ctx, p):
    import rebulk.pattern as mod
    from rebulk.remodule import re as engine

    ab = []
    for k in range(p.count):
        ab.append((ctx.string(f"key{k}", "ab", 1, p.size), ctx.string(f"replacement{k}", "ab", 0, p.size - 1)))
    src = ctx.string("text", "ab", 1, p.n)
    form = ctx.choice("form", ["text", "dict"])
    rec = Recorder()
    old, engine.compile = engine.compile, rec.compile
    try:
        mod.RePattern(src if form == "text" else {"pattern": src}, abbreviations=list(ab))
    finally:
        engine.compile = old
    want = literal(src, ab)
    ctx.check(len(rec.asked) == 1 and len(rec.asked[0][0]) == len(want) and rec.asked[0][0] == want, "the text given to the engine", (rec.asked, want))
    ctx.cover("longer later", len(ab[1][0]) > len(ab[0][0]))
    ctx.cover("produced", len(ab[0][1]) > 0 and ctx.And(ab[0][1] == ab[1][0], src == ab[0][0]))
    ctx.cover("dict", form == "dict")


@harness("C39", "levels", quick=dict(n=3), cover=["defaults", "chain part", "both levels", "with flags"],
         about="abbreviations and flags given to the pattern, to the regex defaults or to the global ones, in a rebulk, a chain or a chain in it: what is found")
def levels(ctx, p):
    from rebulk.rebulk import Rebulk

    ab = [("-", "[xy]"), ("@", "-")]
    src = str(ctx.string("text", "a-@", 1, p.n))
    level = ctx.choice("level", ["explicit", "regex", "global", "explicit and global"])
    place = ctx.choice("place", ["rebulk", "chain"])
    icase = ctx.flag("ignore case")
    rb = Rebulk()
    opts = {"abbreviations": ab, **({"flags": re.IGNORECASE} if icase else {})}
    if level == "explicit and global":
        rb.defaults(abbreviations=[("x", "q"), ("a", "[ab]")])
    elif level == "regex":
        rb.regex_defaults(**opts)
    elif level == "global":
        rb.defaults(**opts)
    kw = opts if level in ("explicit", "explicit and global") else {}
    if place == "rebulk":
        rb.regex(src, **kw)
    else:
        chain = rb.chain(children=True)
        chain.regex(src, **kw)
        chain.close()
    pats = [q for q in rb.effective_patterns({})]
    if place == "chain":
        pats = [part.pattern for part in pats[0].parts]
    got = pats[0].patterns[0]
    if level == "explicit and global":
        # lists of two levels are put together, the less specific ones first
        allab = [("x", "q"), ("a", "[ab]"), *ab]
        want = literal(src, allab)
    else:
        want = literal(src, ab)
    ctx.check(got.pattern == want, "abbreviations of every level apply", (got.pattern, want))
    ctx.check(bool(got.flags & re.IGNORECASE) == icase, "flags of every level apply", got.flags)
    ctx.check(ab == [("-", "[xy]"), ("@", "-")], "abbreviations unchanged")
    for t in ["axyAX-", "a-", "xa@b"]:
        ms = [m.span for m in pats[0].matches(t)]
        ctx.check(ms == [m.span() for m in re.compile(want, re.IGNORECASE if icase else 0).finditer(t) if m.end() > m.start()], "the occurrences", (t, ms))
    ctx.cover("defaults", level == "regex")
    ctx.cover("chain part", place == "chain" and level == "global")
    ctx.cover("both levels", level == "explicit and global")
    ctx.cover("with flags", icase)


# --- C40 -------------------------------------------------------------------------------------------


def state(m, depth=0):
    return [m.start, m.end, m.name, list(m.tags), m.value, bool(m.private), bool(m.marker), m.match_index, [state(c, depth + 1) for c in m.children] if depth < 3 else None]


class Loud(logging.Handler):
    """Formats every record, as a handler writing to a file does."""

    def __init__(self):
        super().__init__(0)
        self.lines = []
        self.failed = []

    def emit(self, record):
        try:
            self.lines.append(record.getMessage())
        except Exception as e:  # formatting must not fail either
            self.failed.append(e)


class Noise:
    """Debug mode, log levels and a handler listening to everything, for the time of a call."""

    def __init__(self, debugging, level, listening):
        self.debugging, self.level, self.listening = debugging, level, listening

    def __enter__(self):
        from rebulk import debug

        self.old = debug.DEBUG, debug.LOG_LEVEL
        debug.DEBUG = self.debugging
        if self.level is not None:
            debug.LOG_LEVEL = self.level
        self.handler = Loud()
        self.logger = logging.getLogger("rebulk")
        self.was = self.logger.level, self.logger.propagate
        self.logger.propagate = False
        if not self.listening:
            self.handler = logging.NullHandler()
            self.handler.failed = []
        self.logger.addHandler(self.handler)
        if self.listening:
            self.logger.setLevel(1)
        return self.handler

    def __exit__(self, *exc):
        from rebulk import debug

        debug.DEBUG, debug.LOG_LEVEL = self.old
        self.logger.removeHandler(self.handler)
        self.logger.setLevel(self.was[0])
        self.logger.propagate = self.was[1]


def settings(ctx):
    debugging = ctx.flag("debug")
    level = ctx.choice("global level", [None, 0, 5, logging.WARNING])
    own = ctx.choice("own level", [None, 0, 7, logging.ERROR])
    listening = ctx.flag("listening")
    return debugging, level, own, listening


def settings_cover(ctx, s):
    debugging, level, own, listening = s
    ctx.cover("debug", debugging)
    ctx.cover("level 0", own == 0 and listening)
    ctx.cover("quiet", not listening)


def rule_set(own, spans):
    """Rules of every kind, with or without a log level of their own."""
    from rebulk import rules as r

    def named(matches, name):
        return [m for m in matches if m.name == name]

    class Rename(r.Rule):
        priority = 5
        consequence = r.RenameMatch("renamed")

        def when(self, matches, context):
            return named(matches, "a")

    class Tag(r.Rule):
        dependency = Rename
        consequence = [r.AppendTags(["seen"]), r.RemoveTags(["t"])]

        def when(self, matches, context):
            hit = named(matches, "b")
            return [hit, hit] if hit else None

    class Off(r.CustomRule):
        def when(self, matches, context):
            return True

        def then(self, matches, when_response, context):
            matches.clear()

        def enabled(self, context):
            return False

    class Never(r.CustomRule):
        priority = -3

        def when(self, matches, context):
            return []

        def then(self, matches, when_response, context):
            matches.clear()

    make = (lambda c: c()) if own is None else (lambda c: c(log_level=own))
    return [make(c) for c in (Rename, Tag, Off, Never)]


@harness("C40", "whole run", quick=dict(hi=3), thorough=dict(hi=5), cover=["debug", "level 0", "quiet", "conflict", "marker", "disabled"],
         about="debug mode, log levels of every value and origin, with and without a listening handler: the same matches, markers and rules")
def whole_run(ctx, p):
    from rebulk.rebulk import Rebulk

    s, e = ctx.int("s", 0, p.hi), ctx.int("e", 0, p.hi)
    ctx.assume(s < e)
    second = ctx.flag("disabled")
    marker = ctx.flag("marker")
    conf = settings(ctx)
    debugging, level, own, listening = conf
    extra = {} if own is None else {"log_level": own}

    def go(extra, own):
        rb = Rebulk()
        rb.functional(lambda t: (s, e), name="a", tags=["t"], **extra)
        rb.functional(lambda t: (1, 3), name="b", tags=["t"], marker=marker, **extra)
        rb.string("c", name="c", disabled=second, **extra)
        rb.string("zw", "vu", "y", name="several", **extra)
        rb.regex("(?P<d>d)(e)", children=True, private_names=["d"], **extra)
        rb.chain(name="ch", **extra).string("x", name="x").repeater("+").close()
        rb.rules(*rule_set(own, None))
        res = rb.matches("abcdexxyvuzw", {"k": 1})
        return [[state(m) for m in res], [state(m) for m in res.markers]]

    plain = go({}, None)
    with Noise(debugging, level, listening) as heard:
        noisy = go(extra, own)
    ctx.check(not heard.failed, "messages can be written", heard.failed)
    ctx.check(same(ctx, noisy, plain), "the same result", (noisy, plain))
    settings_cover(ctx, conf)
    ctx.cover("conflict", ctx.And(s == 1, e == 2))
    ctx.cover("marker", marker)
    ctx.cover("disabled", second and listening)


def same(ctx, a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and ctx.And([same(ctx, x, y) for x, y in zip(a, b)] or [True])
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return False
    return ctx.eq(a, b)


@harness("C40", "rules", quick=dict(n=3, hi=2), cover=["debug", "level 0", "quiet", "reordered"], about="rules of any priority and log level, given to them, on their class or by default: the same order and responses")
def rules(ctx, p):
    from rebulk.match import Match, Matches
    from rebulk.rules import CustomRule, Rules

    prio = [ctx.int(f"priority{k}", 0, p.hi) for k in range(p.n)]
    conf = settings(ctx)
    debugging, level, own, listening = conf
    where = ctx.choice("where", ["argument", "class", "attribute"])

    def go(own):
        events = []
        objs = []
        for k in range(p.n):
            def when(self, matches, context, k=k):
                events.append(k)
                if k == 1:
                    return iter([Match(0, 1)])
                return ("%s", "%d")[: len(matches) * 2] if k == 2 else list(matches)[:1]

            def then(self, matches, when_response, context, k=k):
                events.append((k, len(list(when_response))))

            d = {"when": when, "then": then, "priority": prio[k], "__module__": "x"}
            if own is not None and where == "class":
                d["log_level"] = own + k
            c = type(f"R{k}", (CustomRule,), d)
            o = c(own) if own is not None and where == "argument" and k else c()
            if own is not None and where == "attribute":
                o.log_level = own + k
            objs.append(o)
        lst = Matches([Match(1, 2, name="n")])
        ret = Rules(*objs).execute_all_rules(lst, {})
        return [events, [objs.index(r) for r, _ in ret]]

    plain = go(None)
    with Noise(debugging, level, listening) as heard:
        noisy = go(own)
    ctx.check(not heard.failed, "messages can be written", heard.failed)
    ctx.check(noisy == plain, "the same events", (noisy, plain))
    settings_cover(ctx, conf)
    ctx.cover("reordered", plain[0][0] == p.n - 1)


@harness("C40", "order", quick=dict(n=3, queries=False), thorough=dict(n=3, queries=True), cover=["same span", "reordered", "debug"],
         about="matches found in another order than their patterns were written: sorting, dicts and queries say the same in debug mode and at every log level")
def order(ctx, p):
    from rebulk.match import Match, Matches
    from rebulk.rebulk import Rebulk

    first = ctx.choice("order", [(1, 0), (0, 1)] if p.n == 2 else [(2, 0, 1), (1, 2, 0), (0, 1, 2)])
    spans = [(0, 2)]
    for k in range(1, p.n):
        s, e = ctx.int(f"s{k}", 0, 1), ctx.int(f"e{k}", 1, 3)
        ctx.assume(s < e)
        spans.append((s, e))
    debugging = ctx.flag("debug")
    direct = ctx.flag("direct")

    def solver(match, other):
        return None

    def go():
        rb = Rebulk()
        # written on the lines below, made in another order
        made = [
            lambda s, e: (Match(s, e, name="n0", value="v0", input_string="abc") if direct else rb.functional(lambda t: (s, e, "v0"), name="n0", conflict_solver=solver)),
            lambda s, e: (Match(s, e, name="n1", value="v1", input_string="abc") if direct else rb.functional(lambda t: (s, e, "v1"), name="n1", conflict_solver=solver)),
            lambda s, e: (Match(s, e, name="n2", value="v2", input_string="abc") if direct else rb.functional(lambda t: (s, e, "v2"), name="n2", conflict_solver=solver)),
        ]
        objs = [made[k](*spans[k]) for k in first]
        ms = Matches(objs, input_string="abc") if direct else rb.matches("abc")
        names = lambda l: [m.name for m in l]
        out = [names(ms), names(sorted(ms)), names(sorted(ms, reverse=True)), list(ms.to_dict()), names([min(ms), max(ms)])]
        if p.queries:
            out += [names(ms.range(0, 3)), names(ms.next(ms[0]) or []), names(ms.previous(ms[-1]) or []), [len(ms.conflicting(m)) for m in ms]]
            out += [[a == b for a in ms for b in ms], [bool(a <= b) for a in ms for b in ms]]
        return out

    plain = go()
    with Noise(debugging, None, False) as heard:
        noisy = go()
    ctx.check(not heard.failed, "messages can be written", heard.failed)
    ctx.check(noisy == plain, "the same answers", (noisy, plain))
    ctx.cover("debug", debugging)
    ctx.cover("same span", ctx.And(spans[0][0] == spans[1][0], spans[0][1] == spans[1][1]))
    ctx.cover("reordered", list(first) != sorted(first))


@harness("C40", "places", quick=dict(), cover=["string", "regex", "functional", "chain", "rule", "off"],
         about="in debug mode patterns, matches, children and rules tell the file and line that defined them, outside rebulk; otherwise nothing")
def places(ctx, p):
    from rebulk import debug
    from rebulk.match import Match
    from rebulk.rebulk import Rebulk
    from rebulk.rules import CustomRule

    on = ctx.flag("debug")
    kind = ctx.choice("kind", ["string", "regex", "functional", "chain", "rule", "match"])
    end = ctx.int("end", 2, 4)
    old = debug.DEBUG
    debug.DEBUG = on
    here = []
    try:
        rb = Rebulk()
        if kind == "string":
            rb.string("b", name="n"); here.append(sys._getframe().f_lineno)
        elif kind == "regex":
            rb.regex("b(c)", every=True); here.append(sys._getframe().f_lineno)
        elif kind == "functional":
            rb.functional(lambda t: (1, end)); here.append(sys._getframe().f_lineno)
        elif kind == "chain":
            rb.chain().string("b"); here.append(sys._getframe().f_lineno)
        elif kind == "rule":
            c = type("R", (CustomRule,), {"when": lambda self, matches, context: None, "then": lambda self, matches, when_response, context: None})
            o = c(); here.append(sys._getframe().f_lineno)
        else:
            o = Match(1, end); here.append(sys._getframe().f_lineno)
        if kind in ("rule", "match"):
            objs = [o]
        else:
            pat = rb.effective_patterns({})[0]
            ms = rb.matches("abcd")
            ctx.check(len(ms) > 0, "found")
            objs = [pat, *ms, *[c for m in ms for c in m.children]]
    finally:
        debug.DEBUG = old
    for o in objs:
        d = o.defined_at
        if not on:
            ctx.check(d is None, "nothing without debug mode", d)
            continue
        ctx.check(d is not None and d.lineno == here[0] and d.filename == __file__ and d.name == __name__, "the line that defined it", (d, here))
        ctx.check(str(d) == f"{__file__.rsplit('/', 1)[-1]}#L{here[0]}", "printed as file and line", str(d))
        ctx.check(str(d) in repr(o), "shown in the printed form", repr(o))
    ctx.cover(kind, on)
    ctx.cover("off", not on)


# --- C41 -------------------------------------------------------------------------------------------


@harness("C41", "string and functional", quick=dict(hi=4), thorough=dict(hi=8), cover=["marker", "solver", "private", "returned options"],
         about="name, tags, marker, private and conflict solver of a string or functional pattern reach every match")
def flat(ctx, p):
    from rebulk.pattern import FunctionalPattern, StringPattern

    opts, given = attributes(ctx)
    s, e = ctx.int("s", 0, p.hi), ctx.int("e", 0, p.hi)
    ctx.assume(s < e)
    kind = ctx.choice("kind", ["string", "tuple", "dict", "with options", "list"])
    own = {}
    if kind == "string":
        pat = StringPattern("b", "d", **opts)
        want = [(1, 2), (5, 6), (3, 4)]
        res = pat.matches("abcdab")
        text = "abcdab"
    else:
        if kind in ("with options", "dict"):
            own = ctx.choice("own options", [{}, {"name": "own"}, {"tags": ["own"]}, {"tags": ["own"], "name": "own"}, {"private": True}, {"value": "v"}])
        ret = {"tuple": (s, e), "dict": dict(own, start=s, end=e), "with options": (s, e, own), "list": [(s, e), (0, 1)]}[kind]
        pat = FunctionalPattern(lambda t: ret, **opts)
        want = [(s, e), (0, 1)] if kind == "list" else [(s, e)]
        text = TEXT
        res = pat.matches(text)
    ctx.check(len(res) == len(want), "number of matches", res)
    for m, w in zip(res, want):
        ctx.check(ctx.eq(m.span, w), "span")
        if "value" in own:
            ctx.check(m.value == "v", "value")
        reached(ctx, m, pat, {**given, **own}, text, None)
    check_apart(ctx, res, opts)
    ctx.cover("marker", given["marker"])
    ctx.cover("solver", given["conflict_solver"] is not None)
    ctx.cover("private", given["private"])
    ctx.cover("returned options", bool(own))


def attributes(ctx):
    """Options of a pattern, and what is expected on its matches."""
    def solver(a, b):
        return None

    opts = {}
    if ctx.flag("named"):
        opts["name"] = ctx.choice("name", ["n", "", "n n"])
    tags = ctx.choice("tags", [None, [], ["t"], ["t", "u", "t"], "t"])
    if tags is not None:
        opts["tags"] = tags if isinstance(tags, str) else list(tags)
    if ctx.flag("marker"):
        opts["marker"] = True
    if ctx.flag("solver"):
        opts["conflict_solver"] = solver
    if ctx.flag("private"):
        opts["private"] = True
    given = {"name": opts.get("name"), "tags": [] if tags is None else [tags] if isinstance(tags, str) else list(tags), "marker": "marker" in opts,
             "conflict_solver": opts.get("conflict_solver"), "private": "private" in opts}
    return opts, given


def reached(ctx, m, pat, given, text, parent):
    ctx.check(m.name == given["name"], "name", (m.name, given))
    ctx.check(list(m.tags) == given["tags"], "tags", (m.tags, given))
    ctx.check(bool(m.marker) == given["marker"], "marker", m.marker)
    ctx.check(m.conflict_solver is given["conflict_solver"], "conflict solver")
    ctx.check(bool(m.private) == given["private"], "private", (m.private, given))
    ctx.check(m.pattern is pat, "pattern")
    ctx.check(m.input_string == text, "text")
    ctx.check(m.parent is parent, "parent")


def check_apart(ctx, ms, opts):
    """Changing the tags of a match changes no other match, nor the options."""
    before = list(opts["tags"]) if isinstance(opts.get("tags"), list) else None
    for k, m in enumerate(ms):
        others = [list(x.tags) for x in ms if x is not m]
        m.tags.append("new")
        ctx.check([list(x.tags) for x in ms if x is not m] == others, "tags are not shared")
        m.tags.pop()
    if before is not None:
        ctx.check(opts["tags"] == before, "options unchanged")


@harness("C41", "regex", quick=dict(hi=4), thorough=dict(hi=8), cover=["marker", "solver", "named group", "tags"],
         about="attributes of a regex pattern reach its matches and every child; children are named by their group")
def regex(ctx, p):
    from rebulk.pattern import RePattern

    opts, given = attributes(ctx)
    ps, pe, cs, ce, ds, de = (ctx.int(n, 0, p.hi) for n in ("ps", "pe", "cs", "ce", "ds", "de"))
    ctx.assume(ctx.And(ps < pe, cs < ce, ds < de))
    fake = FakeRegex(["g", None], [((ps, pe), [[(cs, ce)], [(ds, de)]])])
    pat = RePattern(fake, every=ctx.flag("every"), **opts)
    pat.repeated_captures = False
    res = pat.matches(TEXT)
    ctx.check(len(res) == (3 if len(res) > 1 else 1), "parent, or parent and children", res)
    m = res[0]
    reached(ctx, m, pat, given, TEXT, None)
    ctx.check(ctx.eq(m.span, (ps, pe)), "span")
    kids = list(m.children)
    ctx.check(len(kids) == 2, "children")
    for c, nm, sp in zip(kids, ["g", given["name"]], [(cs, ce), (ds, de)]):
        reached(ctx, c, pat, {**given, "name": nm}, TEXT, m)
        ctx.check(ctx.eq(c.span, sp), "span of the child")
    check_apart(ctx, [m, *kids], opts)
    ctx.cover("marker", given["marker"])
    ctx.cover("solver", given["conflict_solver"] is not None)
    ctx.cover("named group", given["name"] == "n")
    ctx.cover("tags", len(given["tags"]) > 1)


@harness("C41", "chain", quick=dict(hi=4), cover=["marker", "solver", "tags", "part tags"],
         about="attributes of a chain reach the match of the chain, those of its parts the children")
def chain(ctx, p):
    from rebulk.rebulk import Rebulk

    opts, given = attributes(ctx)
    rb = Rebulk(default_rules=False)
    part = {}
    if ctx.flag("part tags"):
        part["tags"] = ["p"]
    if ctx.flag("part name"):
        part["name"] = "part"
    text = "zababz"
    emitted = ctx.choice("emitted", [{}, {"children": True}, {"every": True}])
    rb.chain(**opts).string("ab", **part).repeater("+").regex("(?P<g>z)", **part, **emitted).close()
    res = rb.matches(text)
    found = list(res.markers if given["marker"] else res)
    ctx.check(len(found) == 1 and len(res) + len(res.markers) == 1, "one match, among the markers when it is one", found)
    m = found[0]
    pat = rb.effective_patterns({})[0]
    reached(ctx, m, pat, given, text, None)
    ctx.check(m.span == (1, 6), "span", m.span)
    pats = [x.pattern for x in pat.parts]
    want = [("ab", pats[0]), ("ab", pats[0]), ("z", pats[1])]
    kids = list(m.children)
    leaves = [c for c in kids if c.raw != "z" or c.name == "g"]
    ctx.check([c.raw for c in leaves] == ["ab", "ab", "z"], "children", kids)
    for c, (raw, q) in zip(leaves, want):
        ctx.check(c.pattern is q, "pattern of the part")
        ctx.check(list(c.tags) == part.get("tags", []), "tags of the part", c.tags)
        ctx.check(c.name == ("g" if raw == "z" else part.get("name")), "name of the part", c.name)
        ctx.check(c.initiator is m, "initiator is the chain")
        ctx.check(c.input_string == text, "text")
    check_apart(ctx, [m, *kids], opts)
    ctx.cover("marker", given["marker"])
    ctx.cover("solver", given["conflict_solver"] is not None)
    ctx.cover("tags", len(given["tags"]) > 1)
    ctx.cover("part tags", "tags" in part)


@harness("C41", "chain emission", quick=dict(hi=4), cover=["private parent", "private child", "children only", "every"],
         about="however a chain emits its matches, each has the attributes of the one it comes from")
def chain_emission(ctx, p):
    from rebulk.rebulk import Rebulk

    name = ctx.choice("name", [None, "n"])
    tags = ctx.choice("tags", [[], ["t", "u"]])
    emission = ctx.choice("emission", [{}, {"children": True}, {"every": True}])
    more = ctx.choice("privacy", [{}, {"private_parent": True}, {"private_children": True}, {"private_names": ["part"]}, {"private_names": ["n"]}])
    part = ctx.choice("part", [{}, {"name": "part"}, {"name": "part", "tags": ["q"]}])
    rb = Rebulk(default_rules=False)
    rb.chain(name=name, tags=tags, **emission, **more).string("ab", **part).string("z").close()
    pat = rb.effective_patterns({})[0]
    before, after = ctx.choice("before", ["", "a"]), ctx.choice("after", ["", "b"])
    text = before + "abz" + after
    at = len(before)
    res = list(pat.matches(text))
    pp, pc = more.get("private_parent", False), more.get("private_children", False)
    # the match of the chain is given unless only its children are, and always when it is private
    named = more.get("private_names", [])
    parents = [m for m in res if m.parent is None]
    kids = [m for m in res if m.parent is not None]
    only = "children" in emission and not pp
    ctx.check(len(parents) == (0 if only else 1), "the match of the chain", res)
    shown = emission or pc
    ctx.check(len(kids) == (2 if shown else 0), "the matches of the parts", res)
    for m in {id(x): x for x in [*parents, *[k.parent for k in kids]]}.values():
        ctx.check(m.name == name, "name of the chain", m.name)
        ctx.check(list(m.tags) == tags, "tags of the chain", m.tags)
        ctx.check(m.pattern is pat and m.span == (at, at + 3) and m.input_string == text, "pattern, span and text of the chain", m)
        if m in parents:
            ctx.check(bool(m.private) == bool(pp or name in named and name is not None), "privacy of the chain", m.private)
    for k, (m, sp, own) in enumerate(zip(kids, [(at, at + 2), (at + 2, at + 3)], [part, {}])):
        ctx.check(m.name == own.get("name") and list(m.tags) == own.get("tags", []), "name and tags of the part", (m.name, m.tags))
        ctx.check(m.span == sp and m.initiator is m.parent and m.input_string == text, "span and family of the part", m)
        ctx.check(bool(m.private) == bool(pc or own.get("name") in named), "privacy of the part", m.private)
    ctx.cover("private parent", pp)
    ctx.cover("private child", pc)
    ctx.cover("children only", only)
    ctx.cover("every", "every" in emission)


@harness("C41", "own marker", quick=dict(hi=4), cover=["marker among matches", "match among markers", "part marker"],
         about="whether a match is reported as a marker is its own flag: returned by a function or given by the part of a chain, it wins over that of the pattern")
def own_marker(ctx, p):
    from rebulk.match import Match
    from rebulk.rebulk import Rebulk

    rb = Rebulk(default_rules=False)
    outer = ctx.choice("pattern", [{}, {"marker": True}, {"marker": False}])
    kind = ctx.choice("kind", ["function", "chain", "processor"])
    text = "abz"
    if kind == "chain":
        inner = [ctx.choice(f"part{k}", [{}, {"marker": True}]) for k in range(2)]
        rb.chain(every=True, **outer).string("ab", **inner[0]).string("z", **inner[1]).close()
        want = [((0, 3), outer), ((0, 2), inner[0]), ((2, 3), inner[1])]
        ctx.cover("part marker", any(inner) and not outer)
    else:
        own = [ctx.choice(f"own{k}", [{}, {"marker": True}, {"marker": False}]) for k in range(2)]
        spans = []
        for k in range(2):
            s, e = ctx.int(f"s{k}", 0, p.hi), ctx.int(f"e{k}", 0, p.hi)
            ctx.assume(s < e)
            spans.append((s, e))
        if kind == "function":
            rb.functional(lambda s: [{"start": a, "end": b, **o} for (a, b), o in zip(spans, own)], **outer)
        else:  # a match made by the caller stands for the one found
            left = list(zip(spans, own))

            def swap(match):
                (a, b), o = left.pop(0)
                return Match(a, b, **o)

            rb.functional(lambda s: [(0, 1), (1, 2)], post_match_processor=swap, **outer)
            outer = {}
        want = [(sp, {**outer, **o}) for sp, o in zip(spans, own)]
        ctx.cover("marker among matches", bool(outer.get("marker")) and own[0].get("marker") is False)
        ctx.cover("match among markers", not outer.get("marker") and bool(own[0].get("marker")))
    res = rb.matches(text)
    for found, mark in ((list(res), False), (list(res.markers), True)):
        spans_ = [sp for sp, o in want if bool(o.get("marker")) is mark]
        ctx.check(len(found) == len(spans_), "each in the list of its own kind, in order", (found, mark))
        for m, sp in zip(found, spans_):
            ctx.check(ctx.eq(m.span, sp) and bool(m.marker) is mark, "span and flag", m)


@harness("C41", "many groups", quick=dict(groups=12), thorough=dict(groups=30), cover=["ten or more", "unnamed last", "named last"],
         about="expressions with any number of groups: each child has the name of its own group, else that of the pattern, and the attributes of the pattern")
def many_groups(ctx, p):
    from props._common import FakeRegex
    from rebulk.pattern import RePattern

    n = ctx.pick("groups", 1, p.groups)
    stride = ctx.pick("stride", 1, 3)  # every how many groups one has a name
    names = [f"g{k}" if (k + 1) % stride == 0 else None for k in range(n)]
    pname = ctx.choice("pname", [None, "p"])
    at = ctx.int("at", 0, 5)
    caps = [[(at + k, at + k + 1)] for k in range(n)]
    pat = RePattern(FakeRegex(names, [((at, at + n), caps)]), name=pname, every=True, tags=["t"], private_names=["g5"])
    pat.repeated_captures = False
    got = pat.matches("x" * (p.groups + 6))
    ctx.check(len(got) == n + 1 and len(got[0].children) == n, "every group", len(got))
    for k, c in enumerate(got[1:]):
        ctx.check(c.name == (names[k] or pname), "name of the group, else of the pattern", (k, c.name))
        ctx.check(ctx.And(c.start == at + k, c.end == at + k + 1), "span of the group", (k, c.span))
        ctx.check(c.tags == ["t"] and c.parent is got[0] and c.pattern is pat and c.initiator is got[0], "attributes", k)
    ctx.cover("ten or more", n >= 10)
    ctx.cover("unnamed last", names[-1] is None and n > 9)
    ctx.cover("named last", names[-1] is not None and n > 9)
