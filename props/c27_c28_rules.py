"""C27, C28: rule engine order, topological sort."""
from symx.api import harness
from props._common import is_in, same_list

ANSWERS = [None, False, 0, [], True, "list", "match"]


def make_rules(n, events, answers, enabled):
    """n rule classes; each records what happens to it."""
    from rebulk.rules import CustomRule

    out = []
    for k in range(n):
        def when(self, matches, context, k=k):
            events.append(("when", k))
            return answers[k]

        def then(self, matches, when_response, context, k=k):
            events.append(("then", k, when_response))

        def enabled_(self, context, k=k):
            return enabled[k]

        out.append(type(f"R{(n - k) // 2}", (CustomRule,), {"when": when, "then": then, "enabled": enabled_, "__module__": "x"}))
    return out


def levels(n, prio, deps):
    """Expected order: decreasing priority, dependency level, registration; None when cyclic."""
    lev = {}

    def level(k, seen):
        if k in lev:
            return lev[k]
        if k in seen:
            return None
        best = 0
        for d in deps[k]:
            if d == k or not same_prio[k][d]:
                continue
            x = level(d, seen | {k})
            if x is None:
                return None
            best = max(best, x + 1)
        lev[k] = best
        return best

    same_prio = [[bool(prio[i] == prio[j]) for j in range(n)] for i in range(n)]
    for k in range(n):
        if level(k, frozenset()) is None:
            return None
    order = []
    for k in range(n):
        pos = 0
        while pos < len(order):
            o = order[pos]
            if bool(prio[o] < prio[k]) or (same_prio[o][k] and lev[o] > lev[k]):
                break
            pos += 1
        order.insert(pos, k)
    return order


def expect(order, enabled, answers):
    want = []
    for k in order:
        if enabled[k]:
            want.append(("when", k))
            if answers[k]:
                want.append(("then", k, answers[k]))
    return want


def same_events(ctx, events, want):
    ctx.check([e[:2] for e in events] == [w[:2] for w in want], "conditions and consequences in order", (events, want))
    for e, w in zip(events, want):
        if e[0] == "then":
            ctx.check(e[2] is w[2], "the consequence gets the condition's answer")


@harness("C27", "priorities", quick=dict(n=4, hi=9), thorough=dict(n=5, hi=9), cover=["two at one priority", "disabled", "not triggered"],
         about="any priorities (symbolic), enablement and truth of the answers")
def priorities(ctx, p):
    from rebulk.match import Matches
    from rebulk.rules import Rules

    n = p.n
    prio = [ctx.int(f"priority{k}", -p.hi, p.hi) for k in range(n)]
    enabled = [ctx.choice("enabled0", [True, False, None, "yes"]) if k == 0 else ctx.flag(f"enabled{k}") if k == 2 else True for k in range(n)]
    answers = [ctx.choice(f"answer{k}", [None, ["x"]]) if k == 1 else [k] for k in range(n)]
    events = []
    classes = make_rules(n, events, answers, enabled)
    levels_ = [ctx.choice("log level", [None, 0, 5]) if k == 2 else None for k in range(n)]  # logging changes nothing
    rules = Rules()
    for k, c in enumerate(classes):
        c.priority = prio[k]
        rules.load(c if k % 2 else c(log_level=levels_[k]) if levels_[k] is not None else c())
    rules.execute_all_rules(Matches(), {})
    order = levels(n, prio, [[] for _ in range(n)])
    same_events(ctx, events, expect(order, enabled, answers))
    ctx.cover("two at one priority", ctx.And(prio[0] == prio[2], prio[1] > prio[0]))
    ctx.cover("disabled", not enabled[0])
    ctx.cover("not triggered", not answers[1])


@harness("C27", "dependencies", quick=dict(n=3, prio=2), thorough=dict(n=4, prio=1), cover=["cycle", "dependency reorders", "across priorities", "unregistered"],
         about="any dependencies among the rules (given as class, instance, list, tuple or set) and priorities")
def dependencies(ctx, p):
    from rebulk.match import Matches
    from rebulk.rules import Rules
    from rebulk.toposort import CyclicDependency

    n = p.n
    prio = [ctx.int(f"priority{k}", 0, p.prio - 1) for k in range(n)]
    events = []
    answers = [True] * n
    classes = make_rules(n, events, answers, [True] * n)
    for k in range(n):
        classes[k].priority = prio[k]
    insts = [c() for c in classes]
    deps = []
    form = ctx.choice("form", ["class", "instance", "mixed"])
    container = ctx.choice("container", [list, tuple, set])
    unregistered = make_rules(1, events, [True], [True])[0]
    for k in range(n):
        d = [j for j in range(n) if (j != k or k == 0) and ctx.flag(f"dep{k}.{j}")]
        deps.append(d)
        given = [classes[j] if form == "class" or form == "mixed" and j % 2 else insts[j] for j in d]
        if k == 0 and not d and ctx.flag("unregistered"):
            given = [unregistered]
            ctx.cover("unregistered")
        if given:
            classes[k].dependency = given[0] if len(given) == 1 and container is list else container(given)
    rules = Rules(*insts)
    order = levels(n, prio, deps)
    try:
        rules.execute_all_rules(Matches(), {})
    except CyclicDependency:
        ctx.check(order is None, "an error only for a cycle", deps)
        ctx.cover("cycle")
        return
    ctx.check(order is not None, "a cycle is an error", deps)
    same_events(ctx, events, expect(order, [True] * n, answers))
    ctx.cover("dependency reorders", order[0] == n - 1 and bool(prio[0] == prio[n - 1]))
    ctx.cover("across priorities", bool(prio[0] > prio[1]) and 1 in deps[0])


@harness("C27", "answers", quick={}, cover=["falsy", "truthy"], about="which answers trigger the consequence, and what it gets; conditions see earlier consequences")
def answers_(ctx, p):
    from rebulk.match import Match, Matches
    from rebulk.rules import Rules

    a = []
    for k in range(2):
        x = ctx.choice(f"answer{k}", ANSWERS)
        m = Match(0, ctx.pick(f"len{k}", 0, 1)) if x == "match" else None
        a.append(m if x == "match" else [m] if x == "list" else x)
    events = []
    rules = Rules(*make_rules(2, events, a, [True, True]))
    ret = rules.execute_all_rules(Matches(), {})
    same_events(ctx, events, expect([0, 1], [True, True], a))
    fired = [k for k in range(2) if a[k]]
    ctx.check([x[1] is a[k] for x, k in zip(ret, fired)] == [True] * len(ret) and len(ret) == len(fired), "triggered rules reported with their answers")
    ctx.cover("falsy", not fired)
    ctx.cover("truthy", len(fired) == 2)


@harness("C27", "gates", quick=dict(n=3, hi=2), thorough=dict(n=4, hi=3), cover=["opened before its turn", "closed before its turn", "one priority"],
         about="whether a rule is enabled is asked at its turn, in the state the earlier consequences left: context and matches")
def gates(ctx, p):
    from rebulk.match import Match, Matches
    from rebulk.rules import CustomRule, Rules

    events = []
    prio = [ctx.int(f"priority{k}", 0, p.hi) for k in range(p.n)]
    needs = [ctx.choice(f"needs{k}", [None, "on", "off"]) for k in range(p.n)]
    sets = [ctx.choice(f"sets{k}", [None, "on", "off"]) for k in range(p.n)]
    through = ctx.choice("through", ["context", "matches"])

    def state(matches, context):
        return context["gate"] if through == "context" else ("on" if len(matches) else "off")

    def rule(k):
        def enabled(self, context):
            return needs[k] in (None, state(lst, context))

        def when(self, matches, context):
            events.append(k)
            return True

        def then(self, matches, when_response, context):
            if sets[k] is None:
                return
            context["gate"] = sets[k]
            del matches[:]
            if sets[k] == "on":
                matches.append(Match(0, 1))

        return type(f"G{k}", (CustomRule,), {"when": when, "then": then, "enabled": enabled, "priority": prio[k], "__module__": "x"})

    start = ctx.choice("start", ["on", "off"])
    lst = Matches([Match(0, 1)] if start == "on" else [])
    Rules(*[rule(k) for k in range(p.n)]).execute_all_rules(lst, {"gate": start})
    want, now = [], start
    for k in levels(p.n, prio, [[] for _ in range(p.n)]):
        if needs[k] in (None, now):
            want.append(k)
            now = sets[k] or now
            ctx.cover("opened before its turn", needs[k] == now and now != start)
        else:
            ctx.cover("closed before its turn", needs[k] == start)
    ctx.check(events == want, "the rules enabled at their turn, in order", (events, want))
    ctx.cover("one priority", ctx.And(*[prio[k] == prio[0] for k in range(1, p.n)]))


@harness("C27", "duplicates", quick=dict(hi=3), cover=["refused", "two priorities"], about="several rules of one class: refused at one priority, in order otherwise")
def duplicates(ctx, p):
    from rebulk.match import Matches
    from rebulk.rules import Rules

    events = []
    a, b = make_rules(2, events, [True, True], [True, True])
    objs = [a(), b(), a()]
    prio = [ctx.int(f"priority{k}", 0, p.hi) for k in range(3)]
    for k, o in enumerate(objs):
        o.priority = prio[k]

        def when(matches, context, k=k):
            events.append(("when", k))
            return answer

        o.when = when
    answer = ctx.choice("answer", [False, True])  # the same for all
    rules = Rules(*objs)
    try:
        ret = rules.execute_all_rules(Matches(), {})
    except ValueError:
        ctx.check(prio[0] == prio[2], "refused only for one class at one priority")
        ctx.cover("refused")
        return
    ctx.check(prio[0] != prio[2], "one class twice at one priority is refused")
    order = levels(3, prio, [[], [], []])
    ctx.check([e[1] for e in events if e[0] == "when"] == order, "each evaluated once, in order", (events, order))
    ctx.check([r is objs[k] for (r, _), k in zip(ret, order)] == [True] * (3 if answer else 0), "each triggered one reported, in order", ret)
    ctx.cover("two priorities", ctx.And(prio[0] > prio[2], prio[1] == prio[2]))


@harness("C27", "matches", quick=dict(hi=3000), cover=["before conflicts", "after removal of private matches"],
         about="rules of any priority inside Rebulk.matches, next to the built-in ones")
def matches(ctx, p):
    from rebulk.rebulk import Rebulk
    from rebulk.rules import CustomRule

    seen = []

    class Look(CustomRule):
        def when(self, matches, context):
            seen.append([m.name for m in matches])
            ctx_given.append(context)
            return None

        def then(self, matches, when_response, context):
            ctx.check(False, "not triggered")

    ctx_given = []
    pr = ctx.int("priority", -p.hi, p.hi)
    ctx.assume(ctx.And(pr != 2048, pr != -2048))
    Look.priority = pr
    rb = Rebulk().string("ab", name="long").string("b", name="short").string("c", name="private", private=True).rules(Look)
    given = {"k": 1}
    r = rb.matches("abc", given)
    ctx.check(ctx_given == [given] and ctx_given[0] is given, "the context of the call")
    names = seen[0]
    ctx.check(len(seen) == 1, "evaluated once")
    ctx.check(ctx.Iff("short" in names, pr > 2048), "conflicts are solved at their priority")
    ctx.check(ctx.Iff("private" in names, pr > -2048), "private matches are removed at their priority")
    ctx.check([m.name for m in r] == ["long"], "result")
    ctx.cover("before conflicts", pr > 2048)
    ctx.cover("after removal of private matches", pr < -2048)


def graph(ctx, n, extra):
    """Any graph over n keys, with edges also to `extra` items that are no keys."""
    items = list(range(n + extra))
    conds, data = {}, {}
    for k in range(n):
        s = ctx.symset(f"deps{k}", items)
        data[k] = s
        conds[k] = {x: c for x, c in edges_of(ctx, s, items)}
    return items, data, conds


def edges_of(ctx, s, items):
    """Membership conditions of a (possibly symbolic) set, without forking."""
    d = getattr(s, "d", None)
    for x in items:
        if d is None:
            yield x, x in s
        else:
            from symx.proxies import mkbool

            yield x, mkbool(d[x]) if x in d else False


@harness("C28", "graph", quick=dict(n=4, extra=1), thorough=dict(n=5, extra=1), cover=["cycle", "self dependency", "three levels", "item only mentioned"],
         about="every directed graph (membership of every edge symbolic)")
def graph_(ctx, p):
    from rebulk.toposort import CyclicDependency, toposort

    n = ctx.pick("n", 0, p.n)
    extra = p.extra if n else 0
    items, data, edge = graph(ctx, n, extra)
    passed = dict(data)
    before = {k: dict(edges_of(ctx, s, items)) for k, s in data.items()}
    out, error = [], None
    it = toposort(passed)
    while True:
        try:
            out.append(list(next(it)))
        except StopIteration:
            break
        except CyclicDependency as e:
            error = e
            break
    ctx.observe("levels", [sorted(x) for x in out])
    level = {}
    for i, group in enumerate(out):
        ctx.check(len(group) > 0, "levels are not empty")
        for x in group:
            ctx.check(x not in level, "each item once")
            level[x] = i

    def needs(a, b):  # a depends on b, other than itself
        return edge[a][b] if a < n and b != a else False

    for a in level:
        for b in items:
            if b not in level:
                ctx.check(ctx.Not(needs(a, b)), "after all its dependencies")
            elif level[b] >= level[a]:
                ctx.check(ctx.Not(needs(a, b)), "after all its dependencies")
        if level[a] > 0:
            ctx.check(ctx.Or([needs(a, b) for b in level if level[b] == level[a] - 1]), "in the earliest level")
    for x in items:
        mentioned = True if x < n else (ctx.Or([edge[k][x] for k in range(n)]) if n else False)
        if x in level:
            ctx.check(mentioned, "only items of the graph")
        elif error is None:
            ctx.check(ctx.Not(mentioned), "every item")
    left = [x for x in range(n) if x not in level]
    if error is not None:
        ctx.check(len(left) > 0, "an error only for a cycle")
        ctx.check(sorted(error.cyclic) == left, "the error names the items left", sorted(error.cyclic))
        for a in left:
            ctx.check(ctx.Or([needs(a, b) for b in left]), "an error only for a cycle")
        ctx.cover("cycle")
    else:
        ctx.check(not left, "no item missing without an error")
    ctx.check(list(passed) == list(range(n)) and all(passed[k] is data[k] for k in data), "the caller's graph is unchanged")
    for k, s in data.items():
        now = dict(edges_of(ctx, s, items))
        ctx.check(ctx.And([ctx.Iff(now[x], before[k][x]) for x in items]), "the caller's sets are unchanged")
    if n:
        ctx.cover("self dependency", ctx.And(edge[0][0], error is None))
        ctx.cover("item only mentioned", n in level)
    ctx.cover("three levels", len(out) == 3 and error is None)


@harness("C28", "flat", quick=dict(n=3), thorough=dict(n=4), cover=["ordered"], about="the flattened order, sorted within levels")
def flat(ctx, p):
    from rebulk.toposort import CyclicDependency, toposort_flatten

    n = p.n
    items, data, edge = graph(ctx, n, 0)
    sort = ctx.flag("sort")
    try:
        r = toposort_flatten(data) if sort else toposort_flatten(data, sort=False)
    except CyclicDependency as e:
        left = sorted(e.cyclic)
        for a in left:
            ctx.check(ctx.Or([edge[a][b] for b in left if b != a]) if len(left) > 1 else False, "an error only for a cycle")
        return
    ctx.check(sorted(r) == items, "every item once")
    for i, a in enumerate(r):
        for b in r[i + 1:]:
            ctx.check(ctx.Not(edge[a][b]), "dependencies first")
            if sort and b < a:
                # b comes later than a although smaller: it depends, directly or not, on something
                ctx.check(ctx.Or([edge[b][x] for x in items if x != b]), "sorted within a level")
    ctx.cover("ordered", r == [2, 1, 0][:n] if n == 3 else True)


@harness("C28", "wide", quick=dict(n=9, free=2), thorough=dict(n=12, free=3), cover=["wide level", "wide second level", "chain"],
         about="many items: a star, a chain or independent items, with a few edges of any kind among the first ones")
def wide(ctx, p):
    from rebulk.toposort import CyclicDependency, toposort

    n = p.n
    shape = ctx.choice("shape", ["independent", "star", "two stars", "chain", "reverse chain", "mentioned only"])
    outside = [n, n + 1, n + 2] if shape == "mentioned only" else []
    edge = {k: {} for k in range(n + len(outside))}
    data = {}
    for k in range(n):
        fixed = set()
        if shape == "star" and k:
            fixed = {0}
        elif shape == "two stars" and k > 1:
            fixed = {k % 2}
        elif shape == "chain" and k:
            fixed = {k - 1}
        elif shape == "reverse chain" and k < n - 1:
            fixed = {k + 1}
        elif outside and k % 3:
            fixed = {n + k % 3} | ({n} if k == 4 else set())
        free = [x for x in (0, n // 2, n - 1)[:p.free] if k in (1, n - 2)]
        if free:
            s = ctx.symset(f"deps{k}", sorted(fixed | set(free)))
            edge[k] = dict(edges_of(ctx, s, sorted(fixed | set(free))))
        else:
            s = set(fixed)
            edge[k] = {x: True for x in fixed}
        data[k] = s
    level, error, out = {}, None, []
    it = toposort(data)
    while True:
        try:
            out.append(list(next(it)))
        except StopIteration:
            break
        except CyclicDependency as e:
            error = e
            break
    for i, group in enumerate(out):
        for x in group:
            ctx.check(x not in level, "each item once")
            level[x] = i
    left = [x for x in range(n) if x not in level]
    ctx.check(bool(left) == (error is not None), "an error exactly when items are left")
    ctx.check(all(level.get(x) == 0 for x in outside), "items only mentioned come first")
    for a in range(n):
        deps = {b: c for b, c in edge[a].items() if b != a}
        if a in level:
            for b, c in deps.items():
                if level.get(b, n) >= level[a]:
                    ctx.check(ctx.Not(c), "after all its dependencies")
            if level[a] > 0:
                ctx.check(ctx.Or([c for b, c in deps.items() if level.get(b) == level[a] - 1] + [False]), "in the earliest level")
        else:
            ctx.check(ctx.Or([c for b, c in deps.items() if b in left] + [False]), "an error only for a cycle")
    ctx.cover("wide level", any(len(g) == n for g in out))
    ctx.cover("wide second level", len(out) == 2 and len(out[1]) >= n - 2)
    ctx.cover("chain", len(out) == n)
