"""C27 filters on (column, operator, value), C28 filter expressions."""
from ..rulelib import *
from .pipeline import passes, left, unfinished, entire, facts_path
from .dictsets import ROWS, from_rows, turns_over_rows, value_of

DNF = "mabel.data.internals.dnf_filters"
EXP = "mabel.data.internals.expression"
LAB = "mabel.utils.token_labeler"
REC, KEY, VAL, X = S("=record", "dict"), S("=key", "str"), S("=value"), S("=x")
# what the operators of the filters mean
DNF_OPS = {"=": "eq", "==": "eq", "is": "eq", "!=": "ne", "<>": "ne", "<": "lt", ">": "gt", "<=": "le", ">=": "ge", "like": "like", "matches": "matches", "~": "matches",
           "in": "in", "!in": "not in", "not in": "not in", "contains": "contains", "!contains": "not contains"}
EXP_OPS = {"<>": "ne", ">=": "ge", "<=": "le", ">": "gt", "<": "lt", "==": "eq", "!=": "ne", "=": "eq", "IS NOT": "is not", "IS": "is", "NOT LIKE": "not like", "LIKE": "like",
           "MATCHES": "matches", "IN": "in list", "CONTAINS": "contains"}
NEG = {"eq": "ne", "ne": "eq", "lt": "ge", "ge": "lt", "gt": "le", "le": "gt", "is": "is not", "is not": "is", "in": "not in", "not in": "in", "contains": "not contains",
       "not contains": "contains", "like": "not like", "not like": "like", "matches": "not matches", "not matches": "matches", "in list": "not in list"}
SWAP = {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le", "eq": "eq", "ne": "ne", "is": "is", "is not": "is not"}


def relation(I, s, t, a, b):
    """what t says about a and b: the name of an operator, or None"""
    if t[0] == "not":
        r = relation(I, s, t[1], a, b)
        return NEG.get(r)
    if t[0] == "truth":
        return relation(I, s, t[1], a, b)
    if t[0] == "call" and t[1] == ("ext", "builtins.bool") and len(t[2]) == 1:
        return relation(I, s, t[2][0], a, b)
    if t[0] == "call" and t[1][0] == "ext" and t[1][1].startswith("operator.") and len(t[2]) == 2:
        n = {"is_": "is", "is_not": "is not", "not_": None}.get(t[1][1][9:], t[1][1][9:])
        if n == "contains":
            return "in" if t[2] == (b, a) else "contains" if t[2] == (a, b) else None
        if t[2] == (a, b):
            return n
        return SWAP.get(n) if t[2] == (b, a) else None
    if t[0] == "call" and t[1][0] == "ext" and t[1][1].startswith("operator.not_") and len(t[2]) == 1:
        return NEG.get(relation(I, s, t[2][0], a, b))
    if t[0] == "cmp" and t[1] == "is" and t[3] == NONE and t[2][0] == "call":
        return NEG.get(relation(I, s, t[2], a, b))
    if t[0] == "cmp":
        n = t[1]
        if n == "in":
            if (t[2], t[3]) == (a, b):
                return "in"
            if (t[2], t[3]) == (b, a):
                return "contains"
            if t[2] == a and listed(t[3], b):
                return "in list"
            return None
        if (t[2], t[3]) == (a, b):
            return n
        return SWAP.get(n) if (t[2], t[3]) == (b, a) else None
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] in ("match", "search", "fullmatch") and len(t[2]) == 1:
        c = t[1][1]
        if c[0] == "call" and c[1] == ("ext", "re.compile"):
            return expression(I, s, t[1][2], c[2][0], c[2][1:] + tuple(v for _, v in c[3]), t[2][0], a, b)
    if t[0] == "call" and t[1][0] == "ext" and t[1][1] in ("re.match", "re.search", "re.fullmatch") and len(t[2]) >= 2:
        return expression(I, s, t[1][1][3:], t[2][0], t[2][2:] + tuple(v for _, v in t[3]), t[2][1], a, b)
    return None


def listed(t, b):
    """t is what the entries of b stand for"""
    return t[0] == "list" and len(t[2]) == 1 and t[2][0][0] == "rep" and not t[3] and contains(t[2][0][1], ("elem", b) + t[2][0][4][0][2:]) and \
        all(contains(f, C(",")) for c in t[2][0][2:4] for f, _ in c) if t[0] == "list" and t[2] and t[2][0][0] == "rep" and t[2][0][4] else False


def expression(I, s, how, pat, flags, text, a, b):
    """a match of a regular expression made of b on the text of a"""
    if pat == b:
        return "matches" if how == "search" and text == a and not flags else None
    low = lower_of(text, a)
    fold = low or any("IGNORECASE" in repr(f) or repr(f).endswith("'re.I')") for f in flags)
    lines = any("MULTILINE" in repr(f) or repr(f).endswith("'re.M')") for f in flags)
    dots = any("DOTALL" in repr(f) or repr(f).endswith("'re.S')") for f in flags)
    if not (low or text == ("call", ("ext", "builtins.str"), (a,), (), None)) or not fold or lines or not dots:
        return None
    parts = list(pat[1]) if pat[0] == "cat" else [pat]
    if len(parts) == 1 and parts[0][0] == "c" and parts[0][2] in (r"\A\Z", r"^\Z", r"\A$", "^$"):
        parts = [C(parts[0][2][:-2] if parts[0][2].endswith(r"\Z") else parts[0][2][:-1]), C(r"\Z" if parts[0][2].endswith(r"\Z") else "$")]
    begins, ends = how in ("match", "fullmatch"), how == "fullmatch"
    while parts and parts[0][0] == "c" and parts[0][2] in ("^", r"\A"):
        begins = True
        parts.pop(0)
    while parts and parts[-1][0] == "c" and parts[-1][2] in (r"\Z", "$"):
        ends = ends or parts[-1][2] == r"\Z"
        parts.pop()
    if begins and ends and not parts and any(not p and lower_of(f[1] if f[0] == "truth" else f, b) or not p and f == ("truth", b) for f, p in s.facts.items()):
        return "like"   # of no text
    if not (begins and ends and len(parts) == 1):
        return None
    t, wild = parts[0], {}
    while t[0] == "call" and t[1][0] == "attr" and t[1][2] == "replace" and len(t[2]) == 2 and t[2][0][0] == t[2][1][0] == "c":
        wild[t[2][0][2]] = t[2][1][2]
        t = t[1][1]
    if set(wild) != {"%", "_"} or wild["%"] not in (".*?", ".*", "(.*)", "(.*?)") or wild["_"] not in (".", "(.)"):
        return None
    src = quoted_text(I, s, t)
    return "like" if src is not None and (lower_of(src, b) if low else src == b or lower_of(src, b)) else None


def lower_of(t, x):
    while t[0] == "call" and t[1] == ("ext", "builtins.str") and len(t[2]) == 1:
        t = t[2][0]
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] in ("lower", "casefold", "upper") and not t[2]:
        y = t[1][1]
        while y[0] == "call" and y[1] == ("ext", "builtins.str") and len(y[2]) == 1:
            y = y[2][0]
        return y == x
    return False


def quoted_text(I, s, t):
    """the text of which t is the regular expression that matches it"""
    if t[0] == "call" and t[1] == ("ext", "re.escape") and len(t[2]) == 1:
        return t[2][0]
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] == "join" and t[1][1] == C("") and len(t[2]) == 1:
        l = t[2][0]
        if l[0] == "list" and len(l[2]) == 1 and l[2][0][0] == "rep" and not l[3] and not l[2][0][2] and not l[2][0][3]:
            p = l[2][0][1]
            if p[0] == "get" and p[2] == p[3] and p[2][0] == "elem" and escaping(I, s, p[1]):
                return p[2][1]
    if t[0] == "bin" and t[1] == "+" and t[2][0] == "phi" and t[2][4:] == (C(""),):   # each turn adds its character
        p = t[3]
        if p[0] == "get" and p[2] == p[3] and p[2][0] == "elem" and p[2][2] == t[2][1] and escaping(I, s, p[1]):
            return p[2][1]
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] == "translate" and len(t[2]) == 1 and escaping(I, s, t[2][0]):
        return t[1][1]
    return None


def escaping(I, s, d):
    if d[0] == "call" and d[1][-1] in ("maketrans", "builtins.str.maketrans") and d[2]:
        d = d[2][0]
    d = I.freeze(s, d)
    known = dict(d[1]) if d[0] == "dict" and d[2] == NONE and not d[3] else {}
    if d[0] == "ref":
        o = s.get(d[1])
        known = dict(o.d) if o is not None and o.kind == "dict" and o.x[1] is None and not o.x[2] else {}
    ok = {k[2]: v[2] for k, v in known.items() if k[0] == v[0] == "c"}
    return set(".^$*+?{}[]|()\\") <= set(ok) and all(v == "\\" + k for k, v in ok.items()) and not set(ok) & {"%", "_"}


def judged(I, s, k, v, a, b, want):
    """'' when this outcome is what the operator says of a and b"""
    if k == "raise":
        return ""
    if v[0] == "c":
        if v[2] not in (True, False, None):
            return "it is not a truth value"
        if v[2] is None:
            v = FALSE
        if want in ("like", "not like") and s.facts.get(("cmp", "is", a, NONE)):
            return "" if v[2] == (want == "not like") else "nulls are like a text"
        rels = [(relation(I, s, t, a, b), p) for t, p in s.facts.items()]
        rels = [(r if p else NEG.get(r)) for r, p in rels if r]
        if v[2] and want in rels or not v[2] and NEG.get(want) in rels or not v[2] and want in ("in list", "in") and s.facts.get(("truth", b)) is False:
            return ""
        return "it does not compare as it should"
    r = relation(I, s, v, a, b)
    return "" if r == want else f"it compares by `{r}`" if r else "it does not compare as it should"


# ---------------------------------------------------------------------- C27
def simple(ck):
    compared(ck)
    combined(ck)
    filtered(ck)
    ck.need("compares", 17)
    ck.need("nulls", 17)
    ck.need("all-of", 2)
    ck.need("any-of", 2)
    ck.need("kept", 2)


def compared(ck):
    I = ck.interp(keep_facts=True, ret_max=400, max_states=400, extra_pure=())
    ck.saw(DNF + ".evaluate")
    f = I.value(DNF + ".evaluate")
    for op, want in DNF_OPS.items():
        for text in dict.fromkeys((op, op.upper())):
            some = False
            for s, k, v in ck.took(I.call(I.fresh(), f, (("tuple", (KEY, C(text), VAL)), REC))):
                if k == "raise":
                    ck.ob("supported", text, not (v[0] == "exc" and (v[1] or "").split(".")[-1] in ("KeyError", "InvalidSyntaxError")), f"the operator `{text}` is not known", None, [show(v)])
                    continue
                t = I.freeze(s, v)
                vals = {y for x in [t] + list(s.facts) for y in walk(x) if value_of(y, REC, KEY)}
                a = next(iter(vals)) if len(vals) == 1 else None
                null = a is not None and s.facts.get(("cmp", "is", a, NONE)) or s.facts.get(("cmp", "in", KEY, REC)) is False
                if null:
                    ck.ob("nulls", text, t in (FALSE, NONE), "a record without a value is kept", None, [show(t)] + facts_path(s.facts))
                    continue
                some = True
                ck.ob("nulls", text, a is None or s.facts.get(("cmp", "is", a, NONE)) is False, "a record without a value is compared", None, [show(t)] + facts_path(s.facts))
                why = judged(I, s, k, t, a, VAL, want) if a is not None else "it does not depend on the record's value"
                ck.ob("compares", text, why == "", f"`{text}` {why}", None, [show(t, 9)] + facts_path(s.facts))
            ck.ob("compares", text, some, f"`{text}` compares nothing", None)


def combined(ck):
    """a list is all of its predicates, a list of lists any of them"""
    first = [True]

    def oc(I, st, f, args, kw, fr, node):
        if I.callee_name(f) == DNF + ".evaluate":
            if first[0]:
                first[0] = False
                return None
            return [(st, "v", ("call", ("fn", "evaluate"), tuple(I.freeze(st, a) for a in args), (), None))]
    I = ck.interp(keep_facts=True, ret_max=400, max_states=400, extra_pure=(), on_call=oc)
    P = S("=predicates", "list")

    def about(t):
        """the predicate of P whose verdict t is"""
        t = t[1] if t[0] == "truth" else t
        if t[0] == "call" and t[1] == ("fn", "evaluate") and len(t[2]) == 2 and t[2][1] == REC and t[2][0][0] == "elem" and entire(t[2][0][1], P):
            return t[2][0]
        return None
    for s, k, v in ck.took(I.call(I.fresh(), I.value(DNF + ".evaluate"), (P, REC))):
        if k != "ret":
            continue
        t = I.freeze(s, v)
        if s.facts.get(("truth", P)) is False:
            ck.ob("all-of", "none", t == TRUE, "no predicates do not let every record through", None, [show(t)])
            continue
        kinds = {}
        for f, b in s.facts.items():
            if f[0] == "exists" and entire(f[1], P) and len(f[2]) == 1:
                (c, pol), = f[2]
                if c[0] == "call" and c[1] == ("ext", "builtins.isinstance") and c[2][1][0] == "ext":
                    kinds[c[2][1][1].split(".")[-1]] = (pol, b)
        every = kinds.get("tuple") == (False, False)
        lists = kinds.get("list") == (False, False)
        if not (every or lists):
            ck.ob("all-of", "kinds", t[0] != "c" or not any(about(f) for f in s.facts), "predicates are combined without knowing how", None, facts_path(s.facts))
            continue
        rule, label = ("all-of", "list") if every else ("any-of", "lists")
        ex = [(pol, b) for f, b in s.facts.items() if f[0] == "exists" and entire(f[1], P) for c, pol in f[2] if len(f[2]) == 1 and about(c)]
        now = [b for f, b in s.facts.items() if about(f)]
        if every:   # False as soon as one is false
            ok = t == FALSE and ((False, True) in ex or False in now) or t == TRUE and (False, False) in ex
        else:
            ok = t == TRUE and ((True, True) in ex or True in now) or t == FALSE and (True, False) in ex
        ok = ok or t[0] in ("exists", "not") and not ex and combination(t, about, P, every)
        ck.ob(rule, label, ok, "a record does not have to meet all of a list's predicates" if every else "a record does not have to meet any one of the lists", None, [show(t)] + facts_path(s.facts))


def combination(t, about, P, every):
    neg = t[0] == "not"
    t = t[1] if neg else t
    if t[0] != "exists" or not entire(t[1], P) or len(t[2]) != 1:
        return False
    (c, pol), = t[2]
    return about(c) is not None and (neg and not pol if every else not neg and pol)


def filtered(ck):
    """the class lets through the records its predicates accept"""
    F = S("=filters", "list")

    def oc(I, st, f, args, kw, fr, node):
        if I.callee_name(f) == DNF + ".evaluate":
            return [(st, "v", ("call", ("fn", "evaluate"), tuple(I.freeze(st, a) for a in args), (), None))]
    for given in (F, S("=filter", "tuple"), NONE):
        F = given
        I = ck.interp(keep_facts=True, ret_max=400, max_states=400, extra_pure=(), on_call=oc, watch=lambda k, n: k in ("out", "iter", "enditer"))
        ck.saw(DNF + ".DnfFilters.__init__", DNF + ".DnfFilters.filter_dictset", DNF + ".DnfFilters.__call__")
        for s0, r in build(I, I.value(DNF + ".DnfFilters"), (given,), {}):
            nothing = given == NONE or s0.facts.get(("truth", F)) is False
            for s, k, v in ck.took(I.method(I.clear(s0), r, "__call__", (REC,))):
                t = I.freeze(s, v)
                t = t[1] if t[0] == "truth" else t
                ok = k == "ret" and (t == TRUE or t[0] == "call" and t[1] == ("fn", "evaluate") and t[2][1] == REC and (t[2][0] == F or nothing and t[2][0][0] in ("list", "c") or entire(t[2][0], F)))
                ck.ob("kept", "__call__", ok, "a record is not judged by the predicates", None, [show(t)])
            for s1, k1, v in I.method(I.clear(s0), r, "filter_dictset", (ROWS,)):
                for s, k, _ in ck.took(I.drain(s1, v)) if k1 == "ret" else []:
                    if k == "raise":
                        continue
                    for el in unfinished(s, k):
                        ck.ob("kept", "all", not from_rows(el), "filtering stops early", None, facts_path(s.facts))
                    empty = nothing or s.facts.get(("truth", F)) is False
                    for el, ins in turns_over_rows(s):
                        outs = [e for e in ins if e.kind == "out"]
                        verdicts = [b for f, b in s.facts.items() if f[0] == "truth" and f[1][0] == "call" and f[1][1] == ("fn", "evaluate") and f[1][2][1] == el]
                        ok = [e.args[0] for e in outs] == ([el] if verdicts == [True] or not verdicts and empty else [])
                        ok = ok and (verdicts or empty)
                        ck.ob("kept", "filter_dictset", bool(ok), "a record is not kept exactly when the predicates accept it", outs[0] if outs else None, [show(e.args[0]) for e in outs] + facts_path(s.facts))


# ---------------------------------------------------------------------- C28
LITERALS = ("INTEGER", "FLOAT", "LITERAL", "BOOLEAN", "NULL", "DATE")
NODE, LEFT, RIGHT, NAME = S("=value"), S("=left"), S("=right"), S("=name", "str")


def expression_with(ck, I, kind, value):
    """states holding an Expression whose root is a node of this kind: [(state, ref)]"""
    building = [True]
    was = I.on_call

    def oc(I, st, f, args, kw, fr, node):
        if f[0] == "fn" and building[0] and I.callee_name(f).startswith(EXP + ".Expression.") and not I.callee_name(f).endswith("__init__"):
            return [(st, "v", NONE)]
        return was(I, st, f, args, kw, fr, node) if was else None
    I.on_call = oc
    out = []
    for s0, r in build(I, I.value(EXP + ".Expression"), (S("=exp", "list"),), {})[:1]:
        for s, k, n in I.call(s0, I.value(EXP + ".TreeNode"), (kind, value)):
            if k != "ret":
                continue
            for ref, more in ((n, {"left": LEFT, "right": RIGHT}), (r, {"root": n})):
                o = s.get(ref[1])
                s = s.put(ref[1], o._replace(d=dict(o.d, **more)))
            out.append((I.clear(s), r))
    I.on_call = was
    if not out:
        raise AnalysisError("no expression could be made")
    return out


def meaning(ck):
    """what expressions evaluate to"""
    REC_ = REC

    def raising(n, c):
        return "builtins.TypeError" if n.startswith("operator.") else False

    def items(I, st, f, args, kw, fr, node):
        """what stands in a list, read on its own below"""
        if f[0] == "fn" and I.callee_name(f).startswith(LAB + ".") and len(args) == 1 and not kw and I.freeze(st, args[0])[0] == "elem":
            readers[f[3]] = f
            return [(st, "v", ("call", f, (I.freeze(st, args[0]),), (), None))]
    readers = {}

    def run(kind, value, how="__call__"):
        I = ck.interp(keep_facts=True, ret_max=400, max_states=400, extra_pure=(), stop={"parse_iso"}, raisers=raising, on_call=items)
        ck.saw(EXP + ".Expression." + how)
        k0 = I.value(LAB + ".TOKENS." + kind)
        for s0, r in expression_with(ck, I, k0, value):
            for s, k, v in ck.took(I.method(s0, r, how, (REC_,))):
                yield I, s, k, I.freeze(s, v) if v is not None else NONE

    def sub(t):
        """the side of which t is the outcome"""
        if t[0] == "call" and t[1][0] == "fn" and REC_ in t[2]:
            return LEFT if LEFT in t[2] else RIGHT if RIGHT in t[2] else None
        return None
    for how in ("__call__", "evaluate"):
        for kind in LITERALS:
            for I, s, k, t in run(kind, NODE, how):
                ck.ob("constant", kind, k == "ret" and t == NODE, "a constant does not stand for itself", None, [show(t)])
    for I, s, k, t in run("VARIABLE", NAME):
        column(ck, s, k, t)
    for kind in ("NOT", "AND", "OR"):
        for I, s, k, t in run(kind, NONE):
            if k != "ret":
                ck.ob("logic", kind, False, f"{kind} cannot be evaluated", None, [show(t)])
                continue
            ck.ob("logic", kind, logical(s, t, kind, sub), f"{kind} does not depend on its sides as it should", None, [show(t)] + facts_path(s.facts))
    for op, want in EXP_OPS.items():
        some = False
        for I, s, k, t in run("OPERATOR", C(op)):
            sides = {sub(y): y for x in [t] + list(s.facts) + [a for e in s.trace if e.kind == "call" for a in (e.res,) if a] for y in walk(x) if sub(y)}
            caught = any(e.kind == "caught" for e in s.trace)
            if k == "raise" and not t[1]:
                continue   # nothing is known of it
            ck.ob("cannot-compare", op, k == "ret", f"`{op}` fails when values cannot be compared", None, [show(t)])
            if caught:
                ck.ob("cannot-compare", op, t in (NONE, FALSE), f"`{op}` holds when values cannot be compared", None, [show(t)])
                continue
            if k != "ret":
                continue
            some = some or LEFT in sides or RIGHT in sides
            a, b = sides.get(LEFT), sides.get(RIGHT)
            why = judged(I, s, k, t, a, b, want) if a else "it does not look at the left side"
            ck.ob("operator", op, why == "", f"`{op}`: {why}", None, [show(t, 9)] + facts_path(s.facts))
        ck.ob("operator", op, some, f"`{op}` compares nothing", None)
    for f in readers.values():
        spelling(ck, f)
    ck.need("constant", 12)
    ck.need("column", 8)
    ck.need("logic", 6)
    ck.need("operator", 30)


def column(ck, s, k, t):
    """a name stands for the record's value, text read as what it spells"""
    if k == "raise":   # text of any kind can be read: only what is no text of a number, in ways that are handled
        ok = any(f[0] == "call" and f[1] == ("ext", "builtins.isinstance") and b for f, b in s.facts.items())
        ck.ob("column", "raises", ok, "a column cannot be evaluated", None, facts_path(s.facts))
        return
    names = {y[2] for f in [t] + list(s.facts) for y in walk(f) if y[0] in ("item", "get") and y[1] == REC} | {y[2][0] for f in [t] + list(s.facts) for y in walk(f) if y[0] == "call" and y[1] == ("attr", REC, "get") and y[2]} | {f[2] for f in s.facts if f[0] == "cmp" and f[1] == "in" and f[3] == REC}
    ck.ob("column", "name", len(names) == 1, "it is not one column's value", None, [show(t)] + facts_path(s.facts))
    if len(names) != 1:
        return
    n = names.pop()
    stripped = bare(n, NAME) or n[0] == "call" and n[1][0] == "attr" and n[1][1] == NAME and n[1][2] == "strip" and n[2] == (C("`"),)
    isq = in_quotes(s.facts, NAME, ("`",))
    ck.ob("column", "backticks", n == NAME and isq is not True or stripped and isq is not False, "the name of the column is not the name without its backticks", None, [show(n)] + facts_path(s.facts))
    there = s.facts.get(("cmp", "in", n, REC))
    vals = [y for f in [t] + list(s.facts) for y in walk(f) if value_of(y, REC, n) or y == ("item", REC, n)]
    if there is False or any(s.facts.get(("cmp", "is", v, NONE)) for v in vals):
        ck.ob("column", "absent", t == NONE or t in vals, "a column which is not there has a value", None, [show(t)])
        return
    x = vals[0] if vals else None
    caught = sum(e.kind == "caught" for e in s.trace)
    text = [b for f, b in s.facts.items() if f[0] == "call" and f[1] == ("ext", "builtins.isinstance") and f[2][0] == x]
    spelt = {f[3][2] if f[3][0] == "c" else f[2][2]: b for f, b in s.facts.items() if f[0] == "cmp" and f[1] == "eq" and (lower_of(f[2], x) or lower_of(f[3], x)) and "c" in (f[2][0], f[3][0])}
    spelt = {str(a).upper(): b for a, b in spelt.items()}
    date = [f[1] for f in s.facts if f[0] == "truth" and f[1][0] == "call" and f[1][1][0] == "fn" and x in f[1][2]]
    t = C(s.facts[t]) if t in s.facts else t
    if t == x and text == [False]:
        ok = True
    elif t[0] == "c":
        ok = t[2] is True and spelt.get("TRUE") is True or t[2] is False and spelt.get("FALSE") is True
    elif t == ("call", ("ext", "builtins.int"), (x,), (), None):
        ok = not caught and not any(spelt.values())
    elif t == ("call", ("ext", "builtins.float"), (x,), (), None):
        ok = caught == 1
    elif t in date:
        ok = caught == 2 and s.facts[("truth", t)]
    elif t == x:
        ok = caught == 2 and bool(date) and not any(s.facts[("truth", d)] for d in date)
    else:
        ok = t[0] in ("cmp", "call") and contains(t, x) and spelt.get("TRUE") is None and t[0] == "cmp" and t[1] == "eq" and text == [True]
    ck.ob("column", "reads", ok, "the value of a column is not what it spells", None, [show(t)] + facts_path(s.facts))


def spelling(ck, f):
    """what stands in a list, as it is written"""
    I = ck.interp(keep_facts=True, ret_max=400, max_states=400, extra_pure=(), stop={"parse_iso"})
    X = S("=item", "str")

    n = 0
    for s, k, v in ck.took(I.call(I.fresh(), f, (X,))):
        if k != "ret":
            continue
        t = I.freeze(s, v)
        t = C(s.facts[t]) if t in s.facts else t
        caught = sum(e.kind == "caught" for e in s.trace)
        quoted = in_quotes(s.facts, X, ("'", '"'))
        n += 1
        if t[0] == "c":
            ok = isinstance(t[2], bool)
        elif t[0] == "call" and t[1] == ("ext", "builtins.int"):
            ok = t[2] == (X,) and not caught
        elif t[0] == "call" and t[1] == ("ext", "builtins.float"):
            ok = t[2] == (X,) and caught == 1
        else:
            y = t[2][0] if t[0] == "call" and t[1][0] == "fn" and len(t[2]) == 1 else t
            ok = caught == 2 and ((y == X and quoted is False or bare(y, X) and quoted))
            ok = ok or t[0] == "cmp" and lower_of(t[2], X)
        ck.ob("listed", "reads", bool(ok), "what is in a list is not what it spells", None, [show(t)] + facts_path(s.facts))
    ck.ob("listed", "reads", n > 0, "what is in a list cannot be read", None)


def bare(y, x):
    """y is x without its first and last character"""
    return y[0] == "item" and y[1] == x and y[2][0] == "slice" and y[2][1:3] == (C(1), C(-1)) and y[2][3:] in ((), (NONE,))


def in_quotes(facts, x, marks):
    """whether x is known to be in these quotes"""
    def end(t):
        return t[0] == "item" and t[1] == x and t[2] in (C(0), C(-1))
    tests = []
    for f, b in facts.items():
        g = f[1] if f[0] == "truth" else f
        if g[0] == "cmp" and g[1] == "eq" and end(g[2]) and end(g[3]):
            if not b:
                return False
        elif g[0] == "cmp" and g[1] in ("eq", "in") and any(end(y) for y in g[2:]) and any(y[0] in ("c", "tuple", "list", "set") for y in g[2:]):
            tests.append(b)
        elif g[0] == "cmp" and g[1] == "lt" and ("call", ("ext", "builtins.len"), (x,), (), None) in g[2:] and (b if g[3] == C(2) else not b if g[2] == C(1) else False):
            return False
        elif g[0] == "call" and g[1][0] == "attr" and g[1][1] == x and g[1][2] in ("startswith", "endswith"):
            tests.append(b)
            if not b:
                return False
    return any(tests) if tests else None


def logical(s, t, kind, sub):
    def truth(t, env):
        if t[0] == "c":
            return bool(t[2])
        if sub(t):
            return env[sub(t)]
        if t[0] == "truth" or t[0] == "call" and t[1] == ("ext", "builtins.bool"):
            return truth(t[1] if t[0] == "truth" else t[2][0], env)
        if t[0] == "not":
            x = truth(t[1], env)
            return None if x is None else not x
        if t[0] in ("and", "or"):
            xs = [truth(x, env) for x in t[1:]]
            return None if None in xs else all(xs) if t[0] == "and" else any(xs)
        return None
    ok = False
    for l in (False, True):
        for r in (False, True):
            env = {LEFT: l, RIGHT: r}
            if any(truth(f, env) not in (None, b) for f, b in s.facts.items()):
                continue
            want = not l if kind == "NOT" else (l and r) if kind == "AND" else (l or r)
            if truth(t, env) is not want:
                return False
            ok = True
    return ok
