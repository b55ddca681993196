"""Helpers shared by the harness files (no solver here)."""


# characters that library functions treat specially: line breaks, blanks, controls, pattern syntax, letters with odd case mappings
ODD = "aA0_- \n\t\r\0\x0b\x1c\x85\xa0\u2028.*?+\\$^|()[]{}#%&~\xe9\u0130\xdf\ufeff\U0001f600"


def spans(ms):
    return [(m.start, m.end) for m in ms]


def same_list(ctx, got, want, label):
    """got and want hold the same objects in the same order."""
    got, want = list(got), list(want)
    ctx.check(len(got) == len(want), label + ": number of elements", (len(got), len(want)))
    for a, b in zip(got, want):
        ctx.check(a is b, label + ": same objects in order")


def is_in(x, items):
    return any(x is y for y in items)


def ident_index(x, items):
    for i, y in enumerate(items):
        if x is y:
            return i
    return -1


def make_matches(ctx, n, hi, input_string=None, nonempty=True, name="m", lo=0, **kw):
    """n matches with arbitrary spans inside [lo, hi]."""
    from rebulk.match import Match

    out = []
    for k in range(n):
        s = ctx.int(f"{name}{k}.start", lo, hi)
        e = ctx.int(f"{name}{k}.end", lo, hi)
        ctx.assume(s < e if nonempty else s <= e)
        out.append(Match(s, e, input_string=input_string, **kw))
    return out


def overlap(ctx, a, b):
    """Two spans share at least one position."""
    return ctx.And(a[0] < b[1], b[0] < a[1], a[0] < a[1], b[0] < b[1])


YES = [True, 1, "x", [0], {"k": None}]
NO = [False, None, 0, "", [], {}]


def answer(verdict, k=0):
    """An object standing for a verdict (forked): any truthy object accepts, any falsy one rejects."""
    return YES[k % len(YES)] if verdict else NO[k % len(NO)]


def raises(exc, fn, *args, **kw):
    try:
        fn(*args, **kw)
    except exc:
        return True
    return False


class FakeMatchObject:
    """What a regex engine may report for one occurrence; spans of group i = list of captures."""

    def __init__(self, re_, string, span, captures):
        self.re = re_
        self.string = string
        self._span = span
        self._caps = captures  # one list of spans per group

    def _idx(self, g):
        return self.re.groupindex[g] if isinstance(g, str) else g

    def span(self, g=0):
        g = self._idx(g)
        if g == 0:
            return self._span
        caps = self._caps[g - 1]
        return caps[-1] if caps else (-1, -1)

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def spans(self, g=0):
        g = self._idx(g)
        return [self._span] if g == 0 else list(self._caps[g - 1])

    def starts(self, g=0):
        return [s for s, _ in self.spans(g)]

    def ends(self, g=0):
        return [e for _, e in self.spans(g)]

    @property
    def regs(self):
        return tuple(self.span(g) for g in range(len(self._caps) + 1))

    def _text(self, span):
        return None if span == (-1, -1) else self.string[span[0]:span[1]]

    def group(self, *gs):
        gs = gs or (0,)
        r = [None if g and not self.spans(g) else self.string[self.span(g)[0]:self.span(g)[1]] for g in gs]
        return r[0] if len(r) == 1 else tuple(r)

    __getitem__ = group

    def groups(self, default=None):
        return tuple(default if not self._caps[i] else self.group(i + 1) for i in range(len(self._caps)))

    def groupdict(self, default=None):
        return {n: (default if not self._caps[i - 1] else self.group(i)) for n, i in self.re.groupindex.items()}

    def captures(self, g=0):
        return [self.string[s:e] for s, e in self.spans(g)]


class FakeRegex:
    """A compiled expression that reports whatever it was built with (stub for the regex engine)."""

    flags = 0

    def __init__(self, group_names, occurrences, pattern="<stub>"):
        self.pattern = pattern
        self.groups = len(group_names)
        self.groupindex = {n: i + 1 for i, n in enumerate(group_names) if n}
        self.occurrences = occurrences
        self.calls = []

    def finditer(self, string, *args, **kw):
        self.calls.append(string)
        occ = self.occurrences(string) if callable(self.occurrences) else self.occurrences
        for span, caps in occ:
            yield FakeMatchObject(self, string, span, caps)

    def scanner(self, string):
        raise NotImplementedError

    def search(self, string, *args, **kw):
        return next(self.finditer(string), None)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


TEXT = "abcdefghijklmnopqrstuvwxyz"


def one_occurrence(ctx, n_children, names, hi=8, tag=""):
    """Parent span (non-empty) and non-empty group spans, all arbitrary: (span, captures, FakeRegex)."""
    ps, pe = ctx.int(f"{tag}ps", 0, hi), ctx.int(f"{tag}pe", 0, hi)
    ctx.assume(ps < pe)
    caps = []
    for k in range(n_children):
        s, e = ctx.int(f"{tag}c{k}s", 0, hi), ctx.int(f"{tag}c{k}e", 0, hi)
        ctx.assume(s < e)
        caps.append([(s, e)])
    return (ps, pe), caps, FakeRegex(names, [((ps, pe), caps)])


class OwnDict(dict):
    """A dict of a class of the caller (defaultdict, OrderedDict and the like)."""


class OwnList(list):
    """A list of a class of the caller."""


class OwnInt(int):
    """An integer of a class of the caller (IntEnum, bool and the like)."""
