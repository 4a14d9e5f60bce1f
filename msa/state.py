"""Abstract state: heap of abstract objects, path facts, event trace, held locks, active loops.

States are functional values: every update returns a new state, so paths never share mutations.
"""
from collections import namedtuple

from .terms import C, NONE, TRUE, FALSE, walk, is_const

Obj = namedtuple("Obj", "kind cls d x")
# kind: inst | frame | list | set | buf | dict | gen | lazy | class | xattr
#   inst : d = {attr: value}, cls = class qual
#   frame: d = {name: value}, x = (parent oid, func qual, captured?)
#   list/set/buf: d = tuple of parts, x = (loop depth at creation, meta)
#   dict : d = {key term: value}, x = (loop depth, open source term|None, parts)
#   gen  : d = {"frame": oid}, cls = function index        (generator not yet run)
#   lazy : cls = 'map'|'filter'|'enumerate'|'zip'|'genexp', d = {"args": tuple}

Ev = namedtuple("Ev", "kind name recv args kw res locks facts where loops")


class State:
    __slots__ = ("base", "over", "facts", "trace", "locks", "loops")

    def __init__(self, base, over, facts, trace, locks, loops):
        self.base, self.over, self.facts = base, over, facts
        self.trace, self.locks, self.loops = trace, locks, loops

    # -- heap
    def get(self, oid):
        o = self.over.get(oid)
        return o if o is not None else self.base.get(oid)

    def put(self, oid, obj):
        over = dict(self.over)
        over[oid] = obj
        return State(self.base, over, self.facts, self.trace, self.locks, self.loops)

    def drop(self, oid):
        if oid not in self.over:
            return self
        over = dict(self.over)
        del over[oid]
        return State(self.base, over, self.facts, self.trace, self.locks, self.loops)

    def new(self, site, obj):
        oid, n = site, 0
        while oid in self.over or oid in self.base:
            n += 1
            oid = site + (n,)
        return self.put(oid, obj), ("ref", oid)

    # -- other components
    def with_(self, **kw):
        s = State(self.base, self.over, self.facts, self.trace, self.locks, self.loops)
        for k, v in kw.items():
            setattr(s, k, v)
        return s

    def emit(self, ev):
        return self.with_(trace=self.trace + (ev,))

    def same(self, o):
        return (self.over == o.over and self.facts == o.facts and self.trace == o.trace
                and self.locks == o.locks and self.loops == o.loops)

    # -- facts
    def fact(self, term):
        f = self.facts
        v = f.get(term)
        if v is not None:
            return v
        return infer(f, term)

    def assume(self, term, pol):
        """None when contradictory"""
        v = self.fact(term)
        if v is not None:
            return self if v == pol else None
        nf = dict(self.facts)
        nf[term] = pol
        return self.with_(facts=nf)

    def assume_all(self, facts):
        s = self
        for t, p in facts:
            s = s.assume(t, p)
            if s is None:
                return None
        return s

    def locals(self, oid):
        return self.get(oid).d


def countable(x):
    """terms that can only be whole numbers from 0 up"""
    return (x[0] == "sym" and x[2] == "nat") or (x[0] == "phi" and x[3] == "nat") or x[0] == "idx" or \
        (x[0] == "attr" and x[2] == "rowcount") or (x[0] == "call" and x[1] == ("ext", "builtins.len")) or \
        (x[0] == "bin" and x[1] in ("//", "%") and countable(x[2]) and is_const(x[3]) and type(x[3][2]) is int and x[3][2] > 0)


def counted(facts, a, b):
    """a count against a number -> (is a < b, is a == b), as far as the other comparisons of that count tell"""
    x, c = (a, b) if is_const(b) else (b, a)
    if not is_const(c) or type(c[2]) is not int or not countable(x):
        return None
    c = c[2]
    lo, hi = 0, None
    some = facts.get(("truth", x))
    if some is not None:
        lo, hi = (1, None) if some else (0, 0)
    for t, p in facts.items():
        if t[0] == "cmp" and t[1] in ("lt", "eq"):
            if t[2] == x and is_const(t[3]) and type(t[3][2]) is int:
                n, left = t[3][2], True
            elif t[3] == x and is_const(t[2]) and type(t[2][2]) is int:
                n, left = t[2][2], False
            else:
                continue
            if t[1] == "eq":
                if p:
                    lo = max(lo, n)
                    hi = n if hi is None else min(hi, n)
                elif n == 0:
                    lo = max(lo, 1)
            elif left == p:
                h = n - 1 if p else n
                hi = h if hi is None else min(hi, h)
            else:
                lo = max(lo, n + 1 if p else n)
    less = eq = None
    if x == a:
        less = True if hi is not None and hi < c else False if lo >= c else None
    else:
        less = True if lo > c else False if hi is not None and hi <= c else None
    if lo > c or (hi is not None and hi < c):
        eq = False
    elif lo == hi == c:
        eq = True
    return less, eq


CONCRETE = {"str", "bytes", "int", "float", "list", "tuple", "dict", "set", "bool", "bytearray"}


def infer(facts, term):
    k = term[0]
    if k == "cmp":
        op, a, b = term[1], term[2], term[3]
        if op == "eq":
            # eq(x, c) false when eq(x, c') is known true for another constant
            for x, y in ((a, b), (b, a)):
                if is_const(y):
                    for t, p in facts.items():
                        if p and t[0] == "cmp" and t[1] == "eq":
                            if t[2] == x and is_const(t[3]) and t[3][2] != y[2]:
                                return False
                            if t[3] == x and is_const(t[2]) and t[2][2] != y[2]:
                                return False
            if facts.get(("cmp", "lt", a, b)) or facts.get(("cmp", "lt", b, a)):
                return False
            r = counted(facts, a, b)
            if r is not None and (r[1] is not None):
                return r[1]
        elif op == "lt":
            if facts.get(("cmp", "lt", b, a)):
                return False
            if facts.get(("cmp", "eq", a, b)) or facts.get(("cmp", "eq", b, a)):
                return False
            r = counted(facts, a, b)
            if r is not None:
                return r[0]
        elif op == "is":
            if b == NONE:
                if facts.get(("truth", a)):
                    return False
                for t, p in facts.items():
                    if p and t[0] == "call" and t[1] == ("ext", "builtins.isinstance") and t[2][0] == a:
                        return False
                    if p and t[0] == "cmp" and t[1] == "eq" and ((t[2] == a and is_const(t[3]) and t[3] != NONE) or (t[3] == a and is_const(t[2]) and t[2] != NONE)):
                        return False
    elif k == "truth":
        a = term[1]
        if facts.get(("cmp", "is", a, NONE)):
            return False
        for t, p in facts.items():
            if p and t[0] == "cmp" and t[1] == "eq":
                if t[2] == a and is_const(t[3]):
                    return bool(t[3][2])
                if t[3] == a and is_const(t[2]):
                    return bool(t[2][2])
            if p and t[0] == "exists" and t[1] == a:
                return True
    elif k == "exists":
        if not term[2]:
            return infer(facts, ("truth", term[1])) if facts.get(("truth", term[1])) is None else facts[("truth", term[1])]
        v = facts.get(("truth", term[1]))
        if v is False:
            return False
        for t, p in facts.items():
            if t[0] == "exists" and t[1] == term[1]:
                if p and t[2] >= term[2]:
                    return True
                if not p and t[2] <= term[2]:
                    return False
    elif k == "call" and term[1] == ("ext", "builtins.isinstance") and len(term[2]) == 2:
        x, ty = term[2]
        if facts.get(("cmp", "is", x, NONE)):
            return False
        if ty[0] == "ext" and ty[1].startswith("builtins.") and ty[1][9:] in CONCRETE:
            for t, p in facts.items():
                if p and t[0] == "call" and t[1] == ("ext", "builtins.isinstance") and t[2][0] == x:
                    o = t[2][1]
                    if o[0] == "ext" and o[1].startswith("builtins.") and o[1][9:] in CONCRETE and o != ty:
                        if {o[1][9:], ty[1][9:]} != {"bool", "int"}:
                            return False
    return None


KEEP = [False, 600]


def merge(outs, key=None, limit=None, loop=False):
    """outs: list of (state, kind, value). Path-sensitive merging: two paths that differ only in
    what they assumed are joined (their common assumptions survive)."""
    if len(outs) < 2:
        return outs
    groups = []
    index = {}
    for st, k, v in outs:
        try:
            h = (k, v, st.locks, len(st.trace), tuple(sorted(map(repr, st.over.keys()))) if False else len(st.over))
            hash(h)
        except TypeError:
            h = (k, repr(v), len(st.trace))
        for g in index.get(h, ()):
            s0 = g[0]
            if KEEP[0] and (not loop or KEEP[0] == "loops") and len(outs) <= (limit or KEEP[1]) and s0.facts != st.facts:
                continue
            if g[1] == k and g[2] == v and s0.locks == st.locks and s0.loops == st.loops and \
                    s0.over == st.over and _same_trace(s0.trace, st.trace):
                if s0.facts is not st.facts and s0.facts != st.facts:
                    nf = {t: p for t, p in s0.facts.items() if st.facts.get(t) is p}
                    g[0] = s0.with_(facts=nf)
                break
        else:
            g = [st, k, v]
            groups.append(g)
            index.setdefault(h, []).append(g)
    return [tuple(g) for g in groups]


def _same_trace(a, b):
    if a is b:
        return True
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x is not y and x != y:
            return False
    return True
