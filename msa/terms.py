"""Provenance terms: immutable tuples describing where a value came from.

A term is never evaluated on data; two program points compute "the same value" when their
terms are equal after the normalisations below.
"""


def C(v):
    return ("c", type(v).__name__, v)


NONE = C(None)
TRUE = C(True)
FALSE = C(False)


def is_const(t):
    return t[0] == "c"


def cval(t, default=None):
    return t[2] if t[0] == "c" else default


def S(name, typ=None):
    return ("sym", name, typ)


def cat(parts):
    """string concatenation normal form: f-strings, +, str.join of literals and str() agree"""
    out = []
    for p in parts:
        if p[0] == "cat":
            sub = p[1]
        elif p[0] == "c" and isinstance(p[2], str):
            sub = (p,) if p[2] else ()
        elif p[0] == "c" and isinstance(p[2], (int, float)) :
            sub = (C(str(p[2])),)
        elif p[0] == "call" and p[1] == ("ext", "builtins.str") and len(p[2]) == 1:
            sub = (p[2][0],)
        else:
            sub = (p,)
        for q in sub:
            if out and out[-1][0] == "c" and q[0] == "c" and isinstance(q[2], str) and isinstance(out[-1][2], str):
                out[-1] = C(out[-1][2] + q[2])
            else:
                out.append(q)
    if not out:
        return C("")
    if len(out) == 1 and out[0][0] == "c":
        return out[0]
    return ("cat", tuple(out))


def children(t):
    """sub-terms of a term (generic: every nested tuple that is itself a term)"""
    for x in t[1:]:
        if isinstance(x, tuple):
            if x and isinstance(x[0], str) and x[0] in TAGS:
                yield x
            else:
                yield from _deep(x)
        elif isinstance(x, frozenset):
            for y in x:
                if isinstance(y, tuple):
                    yield from _deep((y,))


def _deep(x):
    for y in x:
        if isinstance(y, tuple):
            if y and isinstance(y[0], str) and y[0] in TAGS:
                yield y
            else:
                yield from _deep(y)
        elif isinstance(y, frozenset):
            yield from _deep(tuple(y))


TAGS = {
    "c", "sym", "ref", "fn", "bm", "cls", "mod", "ext", "attr", "item", "get", "call", "bin", "un",
    "cmp", "not", "cat", "tuple", "elem", "idx", "slice", "phi", "list", "dict", "exists", "truth",
    "exc", "enum", "super", "partial", "glob", "one", "rep", "star", "any", "pick", "ite", "gen",
    "opq", "obj", "xelem",
}


def walk(t):
    stack = [t]
    while stack:
        x = stack.pop()
        yield x
        if x[0] != "c":
            stack.extend(children(x))


def contains(t, sub):
    if t == sub:
        return True
    for x in walk(t):
        if x == sub:
            return True
    return False


def any_term(t, pred):
    for x in walk(t):
        if pred(x):
            return True
    return False


def subst(t, mapping):
    """replace whole sub-terms by mapping"""
    if t in mapping:
        return mapping[t]
    if not isinstance(t, tuple):
        if isinstance(t, frozenset):
            return frozenset(subst(x, mapping) for x in t)
        return t
    if t and t[0] == "c":
        return t
    out = tuple(subst(x, mapping) if isinstance(x, (tuple, frozenset)) else x for x in t)
    if out and out[0] == "cat":
        return cat(out[1])
    return out


def show(t, depth=6):
    if not isinstance(t, tuple) or not t:
        return repr(t)
    if depth <= 0:
        return "…"
    k = t[0]
    d = depth - 1
    if k == "c":
        return repr(t[2])
    if k == "sym":
        return t[1]
    if k == "ref":
        return f"<{t[1]}>" if isinstance(t[1], str) else f"<obj {t[1][0] if isinstance(t[1], tuple) else t[1]}>"
    if k in ("ext", "mod", "cls"):
        return t[1].replace("builtins.", "")
    if k == "fn":
        return f"<function {t[1]}>"
    if k == "attr":
        return f"{show(t[1], d)}.{t[2]}"
    if k == "item":
        return f"{show(t[1], d)}[{show(t[2], d)}]"
    if k == "get":
        return f"{show(t[1], d)}.get({show(t[2], d)})"
    if k == "call":
        a = [show(x, d) for x in t[2]] + [f"{n}={show(x, d)}" for n, x in t[3]]
        return f"{show(t[1], d)}({', '.join(a)})"
    if k == "bin":
        return f"({show(t[2], d)} {t[1]} {show(t[3], d)})"
    if k == "un":
        return f"({t[1]}{show(t[2], d)})"
    if k == "cmp":
        return f"({show(t[2], d)} {t[1]} {show(t[3], d)})"
    if k == "not":
        return f"not {show(t[1], d)}"
    if k == "cat":
        return "f\"" + "".join(x[2] if x[0] == "c" else "{" + show(x, d) + "}" for x in t[1]) + "\""
    if k == "tuple":
        return "(" + ", ".join(show(x, d) for x in t[1]) + ")"
    if k == "elem":
        return f"each({show(t[1], d)})"
    if k == "phi":
        return f"loopvar({t[2]})"
    if k == "list":
        return f"{t[1]}[" + ", ".join(show(x, d) for x in t[2]) + "]"
    if k in ("one", "star"):
        return ("*" if k == "star" else "") + show(t[1], d)
    if k == "rep":
        return f"{show(t[1], d)} for…"
    if k == "exists":
        return f"any({show(t[1], d)} with {sorted((show(a, d), b) for a, b in t[2])})"
    if k == "truth":
        return f"bool({show(t[1], d)})"
    if k == "exc":
        return f"exception {t[1]}"
    if k == "enum":
        return f"{t[1].split('.')[-1]}.{t[2]}"
    if k == "pick":
        return f"{t[1]}({show(t[2], d)})"
    return k + "(…)"
