"""C26 data shown as HTML."""
import ast
from ..rulelib import *
from .pipeline import facts_path
from .dictsets import ROWS, DS

LIMIT = S("=limit", "int")
MUST = {"<": ("&lt;", "&#60;", "&#x3c;", "&#x3C;"), ">": ("&gt;", "&#62;", "&#x3e;", "&#x3E;"), "&": ("&amp;", "&#38;", "&#x26;"),
        "'": ("&#39;", "&#x27;", "&apos;"), '"': ("&quot;", "&#34;", "&#x22;")}
SAFE = {"int", "float", "bool", "nat", "idx"}


def recursive(fi):
    name = fi.qual.split(".")[-1]
    return any(isinstance(n, ast.Name) and n.id == name or isinstance(n, ast.Attribute) and n.attr == name for b in fi.body for n in ast.walk(b))


def html(ck):
    asked, through = {}, [None]

    def oc(I, st, f, args, kw, fr, node):
        g = f
        if g[0] != "fn" or not args or not recursive(ck.prog.funcs[g[3]]) or ck.prog.funcs[g[3]].is_gen:
            return None
        q = g[1]
        if through[0] == q:
            through[0] = None
            return None
        asked.setdefault(q, (st, f, len(args), dict(kw)))
        return [(st, "v", ("call", ("fn", q), tuple(I.freeze(st, a) for a in args), (), None))]
    I = ck.interp(keep_facts=True, ret_max=600, max_states=600, on_call=oc, extra_pure=(), watch=lambda k, n: k in ("iter", "enditer"))
    for what, call in entries(ck, I):
        some = False
        for s, k, v in ck.took(call()):
            if k != "ret":
                continue
            some = True
            t = I.freeze(s, v)
            bad = unescaped(t, asked, s.facts)
            ck.ob("escaped", what, not bad, "a value gets into the HTML without being escaped", None, [show(b, 8) for b in bad[:3]] + facts_path(s.facts))
        ck.ob("escaped", what, some, "nothing is shown", None)
    done = set()
    while set(asked) - done:
        q = sorted(set(asked) - done)[0]
        done.add(q)
        st, f, n, kw = asked[q]
        ck.saw(q)
        through[0] = q
        for s, k, v in ck.took(I.call(I.clear(st), f, (S("=x"),) + tuple(S(f"=a{i}") for i in range(1, n)), kw)):
            if k != "ret":
                continue
            t = I.freeze(s, v)
            bad = unescaped(t, asked, s.facts)
            ck.ob("escaped", q.split(".")[-1], not bad, "a value gets into the HTML without being escaped", None, [show(b, 8) for b in bad[:3]] + facts_path(s.facts))
    ck.need("escaped", 8)


def entries(ck, I):
    ck.saw("mabel.data.internals.display.html_table", DS + ".DictSet.to_html_table")
    yield "html_table", lambda: I.call(I.fresh(), I.value("mabel.data.internals.display.html_table"), (ROWS, LIMIT), {})
    good = build(I, I.value(DS + ".DictSet"), (ROWS,), {})
    yield "to_html_table", lambda: [x for s, r in good for x in I.method(I.clear(s), r, "to_html_table", (LIMIT,))]


def unescaped(t, asked, facts):
    """the parts of a text that come from data and do not go through an escape"""
    k = t[0]
    if k == "c":
        return []
    if k == "cat":
        return [b for x in t[1] for b in unescaped(x, asked, facts)]
    if k in ("list", "tuple"):
        ps = [p[1] if k == "list" else p for p in (t[2] if k == "list" else t[1])]
        return [b for p in ps for b in unescaped(p, asked, facts)]
    if k == "star":
        return unescaped(t[1], asked, facts)
    if k == "bin":
        if t[1] == "+":
            return unescaped(t[2], asked, facts) + unescaped(t[3], asked, facts)
        return [t] if t[1] in ("%",) else []
    if number(t, facts):
        return []
    if k == "get" and len(t) == 4 and t[2] == t[3] and t[2][0] == "elem" and (t[2][1][-1] == "str" or t[2][1][0] == "cat" or t[2][1][0] == "call" and (t[2][1][1] == ("ext", "builtins.str") or t[2][1][1][0] == "attr" and t[2][1][1][2] in ("replace", "strip", "lower", "upper", "join", "isoformat", "strftime")) or facts.get(("call", ("ext", "builtins.isinstance"), (t[2][1], ("ext", "builtins.str")), (), None)) is True):
        # each character of a text, as a table of the escapes has it
        return [] if table_escapes(t[1]) else [t]
    if k == "call":
        f = t[1]
        if f[0] == "fn" and f[1] in asked:
            return []
        if f == ("ext", "html.escape"):
            q = dict(t[3]).get("quote", t[2][1] if len(t[2]) > 1 else TRUE)
            return [] if q == TRUE else [t]
        if f == ("ext", "builtins.str") and len(t[2]) == 1:
            return unescaped(t[2][0], asked, facts)
        if f == ("ext", "builtins.len"):
            return []
        if f[0] == "attr" and f[2] == "join" and len(t[2]) == 1:
            return unescaped(f[1], asked, facts) + unescaped(t[2][0], asked, facts)
        if f[0] == "attr" and f[2] in ("replace", "translate"):
            return [] if escapes(t) else [t] if not all_constant(t) else []
        if f[0] == "attr" and f[2] in ("strip", "lower", "upper", "center", "ljust", "rjust"):
            return unescaped(f[1], asked, facts)
        if f[0] == "attr" and f[2] == "format" and f[1][0] == "c":
            return [b for a in t[2] + tuple(v for _, v in t[3]) for b in unescaped(a, asked, facts)]
    return [t]


def all_constant(t):
    return all(y[0] in ("c", "call", "attr") for y in walk(t) if isinstance(y, tuple) and y and isinstance(y[0], str) and y[0] in ("sym", "elem", "opq"))


def number(t, facts):
    if t[0] in ("idx", "len", "nat", "cmp", "truth", "not"):
        return True
    if t[0] == "phi" and len(t) > 3 and t[3] is True:
        return True
    if t[0] == "sym" and len(t) > 2 and t[2] in SAFE:
        return True
    return any(b and f[0] == "call" and f[1] == ("ext", "builtins.isinstance") and f[2][0] == t and f[2][1] in (("ext", "builtins.int"), ("ext", "builtins.float"), ("ext", "builtins.bool")) for f, b in facts.items())


def escapes(t):
    """a chain of replacements that leaves no character that means something in HTML"""
    chain = []
    while t[0] == "elem" or t[0] == "call" and t[1][0] == "attr" and t[1][2] in ("replace", "split", "splitlines", "strip"):
        if t[0] == "elem":
            t = t[1]
            continue
        if t[1][2] == "replace" and len(t[2]) >= 2:
            chain.append((t[2][0], t[2][1], len(t[2])))
        t = t[1][1]
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] == "translate" and len(t[2]) == 1:
        return not chain and table_escapes(t[2][0])
    chain.reverse()
    done = set()
    for a, b, n in chain:
        if a[0] != "c" or b[0] != "c" or n > 2:
            continue
        x, y = a[2], b[2]
        if x == "&" and done:
            return False        # what was escaped already is escaped again
        if x in MUST:
            if y not in MUST[x]:
                return False
            done.add(x)
        elif any(c in str(y) for c in "<>'\""):
            return False
    return done == set(MUST)


def table_escapes(t):
    if t[0] == "call" and t[1][-1] in ("builtins.str.maketrans", "maketrans") or t[0] == "call" and t[1][0] == "attr" and t[1][2] == "maketrans":
        t = t[2][0] if t[2] else t
    if t[0] != "dict" or t[2] != NONE or t[3]:
        return False
    got = {}
    for k, v in t[1]:
        if k[0] == "c" and v[0] == "c":
            got[chr(k[2]) if isinstance(k[2], int) else k[2]] = v[2]
        elif k[0] == "call" and k[1] == ("ext", "builtins.ord") and k[2][0][0] == "c" and v[0] == "c":
            got[k[2][0][2]] = v[2]
    return all(got.get(c) in MUST[c] for c in MUST)
