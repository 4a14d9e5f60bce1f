"""C33 the columns of a SELECT."""
from ..rulelib import *

EV = "mabel.data.readers.internals.inline_evaluator"
LAB = "mabel.utils.token_labeler"
VALUE, AS, PARAMS, LABEL, REC = S("=value", "str"), S("=as", "str"), S("=parameters", "list"), S("=label", "str"), S("=record", "dict")
TOKENS = S("=tokens", "list")
CONSTANTS = ("INTEGER", "FLOAT", "LITERAL", "DATE", "BOOLEAN", "NULL")


def type_of(t):
    return ("call", ("ext", "type of"), (t,), (), None)


def plain(t):
    """without conversions of text to text, and quotes aside"""
    while t[0] == "call" and t[1] == ("ext", "builtins.str") and len(t[2]) == 1:
        t = t[2][0]
    return t


def inside(t):
    """text[1:-1]"""
    if t[0] == "item" and t[2] == ("slice", C(1), C(-1), NONE):
        return plain(t[1])
    if t[0] == "slice" and t[2:] == (C(1), C(-1), NONE):
        return plain(t[1])
    return None


def quoted(s, ends):
    """whether the value is in `quotes`, as far as known"""
    eq = lambda a, b: s.facts.get(("cmp", "eq", a, b), s.facts.get(("cmp", "eq", b, a)))
    first, last = ("item", VALUE, C(0)), ("item", VALUE, C(-1))
    q = C("`")
    starts = lambda m: s.facts.get(("truth", ("call", ("attr", VALUE, m), (q,), (), None)), s.facts.get(("call", ("attr", VALUE, m), (q,), (), None)))
    known = [eq(first, q), eq(last, q), starts("startswith"), starts("endswith")]
    if eq(first, last) is True:
        known = [x for x in known] + ([True, True] if True in known else [])
    if False in known or eq(first, last) is False:
        return False
    return True if known.count(True) >= 2 else None


def value_ok(I, s, name, v):
    v = I.freeze(s, v)
    if name == "VARIABLE":
        got = None
        if v[0] == "call" and v[1][0] == "attr" and v[1][2] == "get" and v[1][1] == REC and len(v[2]) in (1, 2) and v[2][1:] in ((), (NONE,)) and not v[3]:
            got = v[2][0]
        elif v[0] == "item" and v[1] == REC:
            got = v[2]
        elif v == NONE:
            return any(f[0] == "cmp" and f[1] == "in" and f[3] == REC and b is False for f, b in s.facts.items())
        if got is None:
            return False
        if got == ("call", ("attr", VALUE, "strip"), (C("`"),), (), None):
            return True
        q = quoted(s, got)
        return q is not None and (inside(got) if q else plain(got)) == VALUE
    if name in ("INTEGER", "FLOAT"):
        return v[0] == "call" and v[1] == ("ext", "builtins." + ("int" if name == "INTEGER" else "float")) and tuple(plain(x) for x in v[2]) == (VALUE,) and not v[3]
    if name == "LITERAL":
        return inside(plain(v)) == VALUE
    if name == "DATE":
        return v[0] == "call" and v[1][0] == "fn" and v[1][1].endswith(".parse_iso") and len(v[2]) == 1 and inside(plain(v[2][0])) == VALUE
    if name == "BOOLEAN":
        def says(f):
            return f[0] == "cmp" and f[1] == "eq" and {x for x in (plain_upper(f[2]), plain_upper(f[3]))} in ({"upper", "TRUE"}, {"lower", "true"})

        def plain_upper(t):
            if t[0] == "c":
                return t[2]
            if t[0] == "call" and t[1][0] == "attr" and t[1][2] in ("upper", "lower") and plain(t[1][1]) == VALUE and not t[2]:
                return t[1][2]
            return None
        if v in (TRUE, FALSE):
            return any(says(f) and b is (v == TRUE) for f, b in s.facts.items())
        return says(v)
    if name == "NULL":
        return v == NONE
    raise AssertionError(name)


def columns(ck):
    labels = {}

    def oc(I, st, f, args, kw, fr, node):
        n = (I.callee_name(f) or "").split(".")[-1]
        if f[0] == "fn" and n == "get_function_name" and len(args) == 1:
            # the label of another token stays opaque
            return [(st, "v", LABEL)] if I.freeze(st, args[0]) == labels.get("frozen") else None
        return None
    I = ck.interp(keep_facts="loops", ret_max=400, max_states=400, stop={"parse_iso"}, on_call=oc)
    field, names = I.value(EV + ".evaluate_field"), I.value(EV + ".get_fields")
    for f in (EV + ".evaluate_field", EV + ".get_fields", EV + ".build", EV + ".Evaluator.__call__"):
        ck.saw(f)
    table = I.value("mabel.data.readers.internals.inline_functions.FUNCTIONS")

    def token(name, named, **over):
        st = I.fresh()
        if named:
            st = st.assume(("truth", AS), True).assume(("cmp", "is", AS, NONE), False)
        d = {C("type"): I.value(LAB + ".TOKENS." + name), C("value"): VALUE, C("parameters"): PARAMS, C("as"): AS if named else NONE}
        st, tok = I.new_dict(st, "token:" + name, d)
        labels["frozen"] = I.freeze(st, tok)
        return st, tok
    for name in ("VARIABLE", "FUNCTION") + CONSTANTS:
        for named in (False, True):
            st, tok = token(name, named)
            which = f"{name}{' AS' if named else ''}"
            for s, k, v in ck.took(I.call(st, field, (REC, tok), {})):
                path = steps(s)
                pair = I.freeze(s, v) if k == "ret" else None
                if k != "ret" or pair[0] != "tuple" or len(pair[1]) != 2:
                    ck.ob("column", which, k == "raise" and name == "FUNCTION" and called_raises(s), "a column has no name and value", None, path)
                    continue
                key, val = pair[1]
                want = {AS} if named and name == "FUNCTION" else {LABEL} if name == "FUNCTION" else {VALUE, AS} if named else {VALUE}
                ck.ob("key", which, key in want, "a column is not called what the statement calls it", None, [show(key, 4)] + path)
                if name == "FUNCTION":
                    ck.ob("function", which, function_ok(I, s, val, table), "a function column is not its function of its parameters", None, [show(val, 6)] + path)
                else:
                    ck.ob("value", which, value_ok(I, s, name, val), "a column does not have the value of its token", None, [show(val, 6)] + path)
            st, tok = token(name, named)
            st, lst = I.new_list(st, "tokens", "list", (("one", tok), ("star", S("=more", "list")), ("one", tok)))
            for s, k, v in ck.took(I.call(st, names, (lst,), {})):
                ps = I.freeze(s, v)[2] if k == "ret" and I.freeze(s, v)[0] == "list" else ()
                want = ("one", AS if named else LABEL if name == "FUNCTION" else VALUE)
                ck.ob("name", which, len(ps) > 1 and ps[0] == want and ps[-1] == want, "the names of the columns are not those of the tokens, in order", None, [show(p[1], 4) for p in ps] + steps(s))
    call_all(ck, I)
    renames(ck)
    build_all(ck)
    ck.need("value", 14)
    ck.need("name", 16)
    ck.need("function", 2)


def called_raises(s):
    return any(e.kind in ("call", "callx") for e in s.trace)


def function_ok(I, s, val, table):
    """FUNCTIONS[value](value of every parameter, in order)"""
    if val[0] != "call" or val[3]:
        return False
    f = val[1]
    if f[0] == "call" and f[1][0] == "attr" and f[1][2] == "get":
        f = ("item", f[1][1], f[2][0])
    if f[0] != "item" or I.freeze(s, f[1]) != I.freeze(s, table) and f[1] != table:
        return False
    key = plain(f[2])
    if key[0] == "call" and key[1][0] == "attr" and key[1][2] == "upper" and not key[2]:
        key = plain(key[1][1])
    if key != VALUE:
        return False
    if not val[2]:
        return s.facts.get(("truth", PARAMS)) is False
    if len(val[2]) != 1 or val[2][0][0] != "star":
        return False
    a = val[2][0][1]
    if a[0] == "ref" and s.get(a[1]).kind in ("gen", "lazy"):
        outs = I.call(s, ("ext", "builtins.list"), (a,), {})
        if len(outs) != 1:
            return all(k == "ret" and function_ok(I, s1, ("call", val[1], (("star", I.freeze(s1, v)),), (), None), table) or k == "ret" and not I.freeze(s1, v)[2] and s1.facts.get(("truth", PARAMS)) is False for s1, k, v in outs)
        s, _, a = outs[0]
    a = I.freeze(s, a)
    if a[0] not in ("list", "tuple") or len(a[2]) != 1 or a[2][0][0] != "rep":
        return False
    _, t, ef, cf, bs = a[2][0]
    if len(bs) != 1 or bs[0][:2] != ("elem", PARAMS) or conditional(ef | cf, bs[0]):
        return False
    return t[0] == "item" and t[2] == C(1) and t[1][0] == "call" and t[1][1][0] == "fn" and t[1][1][1] == EV + ".evaluate_field" and t[1][2] == (REC, bs[0])


def conditional(conds, e):
    """only some of the elements"""
    return any(x == e for f, b in conds for x in walk(f))


def call_all(ck, I0):
    """Evaluator.__call__ gives every column, and all the record's with *; the record stays as it is"""
    EVERY = I0.value(LAB + ".TOKENS.EVERYTHING")
    at_first = {}

    def oc(I, st, f, args, kw, fr, node):
        if f[0] == "fn" and f[1] == EV + ".evaluate_field" and len(args) == 2:
            given = REC if args[0] == at_first["rec"] and st.get(args[0][1]) == at_first["obj"] else ("opq", "changed", "record") if args[0] == at_first["rec"] else I.freeze(st, args[0])
            return [(st, "v", ("call", f, (given, I.freeze(st, args[1])), (), None))]
        return None
    I = ck.interp(keep_facts="loops", ret_max=400, max_states=400, on_call=oc)
    st = I.fresh()
    st, ev = st.new("evaluator", Obj("inst", EV + ".Evaluator", {"tokens": TOKENS, "_iter": NONE}, None))
    st, rec = I.new_dict(st, "record", {}, src=REC)
    at_first.update(rec=rec, obj=st.get(rec[1]))
    st = st.assume(("truth", TOKENS), True)
    for s, k, v in ck.took(I.method(st, ev, "__call__", (rec,), {})):
        path = facts(s)
        same = s.get(rec[1]) == st.get(rec[1])
        ck.ob("record", "Evaluator", same, "evaluating columns changes the record", None, path)
        if k != "ret" or v[0] != "ref" or s.get(v[1]).kind != "dict":
            ck.ob("every", "Evaluator", False, "the columns are not all evaluated", None, path)
            continue
        o = s.get(v[1])
        star = [b for f, b in s.facts.items() if f[0] == "exists" and f[1] == TOKENS and any(c[0][0] == "cmp" and EVERY in c[0] for c in f[2])]
        parts = o.x[2]
        good = [p for p in parts if p[0] == "kv" and full(p, TOKENS, REC, rec)]
        ck.ob("every", "Evaluator", len(good) == 1 and not o.d and parts[-1] is good[0], "the columns are not all evaluated", None, path + [show(I.freeze(s, v), 6)])
        src = o.x[1] == REC or any(p[0] in ("star", "all") and p[1] == REC for p in parts)
        turned = any(x[0] == "phi" for f in s.facts for x in walk(f))
        if len(set(star)) == 1 or not star and not turned:
            ck.ob("star", "Evaluator", bool(star) and src == star[0], "* does not give every column of the record, or they are given without it", None, path)
    ck.need("every", 2)
    ck.need("star", 2)


def facts(s):
    return [f"{'' if b else 'not '}{show(t, 5)}"[:160] for t, b in s.facts.items()][-6:]


def full(p, coll, rec, ref):
    """one (name, value) for every token"""
    _, key, val, ef, cf, bs = p
    if len(bs) != 1 or bs[0][:2] != ("elem", coll):
        return False
    if conditional(ef | cf, bs[0]):
        return False
    if key[0] != "item" or val[0] != "item" or key[2] != C(0) or val[2] != C(1) or key[1] != val[1]:
        return False
    c = key[1]
    return c[0] == "call" and c[1][0] == "fn" and c[1][1] == EV + ".evaluate_field" and len(c[2]) == 2 and c[2][1] == bs[0]


def build_all(ck):
    """what `build` makes of the tokens of a SELECT"""
    turns = []

    def past(s):
        """an index between the tokens there are and the end cannot be"""
        less = {f[2] for f, b in s.facts.items() if f[0] == "cmp" and f[1] == "lt" and f[3] == size and b is False}
        not_end = {x for f, b in s.facts.items() if f[0] == "cmp" and f[1] == "eq" and size in f[2:] and b is False for x in f[2:]}
        return bool(less & not_end)
    size = ("call", ("ext", "builtins.len"), (TOKENS,), (), None)

    def oc(I, st, f, args, kw, fr, node):
        n = (I.callee_name(f) or "").split(".")[-1]
        if n == "isinstance" and args and args[0][0] == "item" and args[0][1] == TOKENS:
            return [(st, "v", FALSE)]
        if n == "get_token_type" and f[0] == "fn":
            return [(st, "v", type_of(args[0]))]
        if f[0] == "fn" and f[1].endswith(".TokenSet.token") and args[0][0] == "ref" and not past(st):
            i = st.get(args[0][1]).d.get("_index")
            if i is not None and i[0] != "c":
                within = any(st.facts.get(("cmp", "eq", *p)) is False for p in ((i, size), (size, i))) or st.facts.get(("cmp", "lt", i, size)) is True
                bounds.setdefault(I.site(node, fr), []).append((within, facts(st)))
        return None
    bounds = {}
    I = ck.interp(keep_facts="loops", ret_max=800, max_states=800, on_call=oc)
    T = {n: I.value(LAB + ".TOKENS." + n) for n in ("FUNCTION", "AGGREGATOR", "LEFTPARENTHESES", "RIGHTPARENTHESES", "AS")}
    I.on_turn = lambda head, ends, node, fr: turns.append((I.site(node, fr), ends))
    outs = ck.took(I.call(I.fresh(), I.value(EV + ".build"), (TOKENS,), {}))
    res = {v for s, k, v in outs if k == "ret" and v[0] == "ref"}
    if len(res) != 1:
        return
    res = res.pop()

    def typ(s, tok, name):
        """is the token of this type"""
        return s.facts.get(("cmp", "eq", type_of(tok), T[name]))

    def at(t):
        return t[2] if t[0] == "item" and t[1] == TOKENS else None

    made = lambda s: [e for e in s.trace if e.kind == "mut" and e.name == "append" and e.recv == res]
    outer = {site for site, ends in turns if any(made(s) for s in ends)}
    for site, ends in turns:
        for s in ends if site in outer else ():
            apps = [(e, I.freeze(s, e.args[0])) for e in s.trace if e.kind == "mut" and e.name == "append" and e.recv == res]
            if past(s):
                continue
            d = dict(apps[-1][1][1]) if apps and apps[-1][1][0] == "dict" else None
            path = facts(s)
            ck.ob("token", "build", d is not None and len(apps) == 1, "the tokens of a SELECT are not each kept once", None, path)
            if d is None or len(apps) > 1:
                continue
            val, nm, par = d.get(C("value"), NONE), d.get(C("as"), NONE), d.get(C("parameters"), NONE)
            base = val[1][1] if val[0] == "call" and val[1][0] == "attr" and val[1][2] == "upper" else val
            i = at(base)
            ck.ob("token-of", "build", i is not None and i[0] in ("phi", "c"), "a column is not one of the tokens given", None, path + [show(val, 5)])
            if i is None:
                continue
            fun = [typ(s, base, n) for n in ("FUNCTION", "AGGREGATOR")]
            if True in fun:
                ck.ob("parameters", "build", par[0] == "call" and par[1][0] == "fn" and par[1][1] == EV + ".build", "the parameters of a function are lost", None, path + [show(par, 5)])
                if d.get(C("type")) is not None:
                    pass
            else:
                ck.ob("other", "build", val == base, "the text of a token is changed", None, path)
            # AS
            ases = [x[2][0] for f, b in s.facts.items() if b is True and f[0] == "cmp" and f[1] == "eq" and T["AS"] in f[2:] for x in f[2:] if x[0] == "call" and x[1] == ("ext", "type of")]
            named = [x for x in ases if at(x) is not None and x != base]
            want = {("item", TOKENS, ("bin", "+", at(x), C(1))) for x in named}
            ck.ob("as", "build", (nm in want) if want else nm == NONE, "AS does not name the column before it", None, path + [show(nm, 5)])
    for site, xs in bounds.items():
        for ok, path in xs:
            ck.ob("ends", "build", ok, "reads on after the last token of a SELECT", None, path)
    inner(ck, I, turns, res, T, past)
    ck.need("token", 4)
    ck.need("as", 4)


def inner(ck, I, turns, res, T, past):
    """the parameters of a function are what is between its parentheses"""
    def counter(s, site):
        os = [s.get(k) for k in {*s.base, *s.over}]
        ns = {v[2] for o in os if o is not None and isinstance(o.d, dict) for v in o.d.values() if isinstance(v, tuple) and len(v) == 4 and v[0] == "bin" and v[1] in "+-" and v[3] == C(1)
              and v[2][0] == "phi" and v[2][1] == site}
        return ns, {y for f in s.facts for x in walk(f) if x[0] == "item" and x[1] == TOKENS for y in walk(x[2])}
    for site in {x for x, _ in turns}:
        all_ends = [e for x, ends in turns if x == site for e in ends]
        found = [counter(s, site) for s in all_ends]
        cs = {c for ns, _ in found for c in ns} - {c for _, at in found for c in at}
        for c, s in ((c, s) for c in cs for s in all_ends):
            less, more = ("bin", "-", c, C(1)), ("bin", "+", c, C(1))
            toks = {x[2][0] for f in s.facts for x in walk(f) if x[0] == "call" and x[1] == ("ext", "type of") and x[2][0][0] == "item" and x[2][0][1] == TOKENS and x[2][0][2][0] == "phi" and x[2][0][2][1] == site}
            if len(toks) != 1 or past(s) or s.facts.get(("cmp", "eq", more, C(0))) is True or s.facts.get(("cmp", "lt", C(0), less)) is False and s.facts.get(("cmp", "eq", less, C(0))) is False:
                continue
            tok = toks.pop()
            is_ = lambda n: s.facts.get(("cmp", "eq", type_of(tok), T[n])) is True
            left, right = is_("LEFTPARENTHESES"), is_("RIGHTPARENTHESES")
            now = {o.d[c[2][1]] for k in {*s.base, *s.over} for o in [s.get(k)] if o is not None and isinstance(o.d, dict) and c in set(walk(o.d.get(c[2][1]) or NONE))}
            if not now:
                continue
            ck.ob("parentheses", "build", now == {more if left else less if right else c}, "the parentheses of a function are miscounted", None, facts(s))
            app = any(e.kind == "mut" and e.name == "append" and e.recv != res and tok in set(walk(I.freeze(s, e.args[0]))) for e in s.trace)
            closed = right and (s.facts.get(("cmp", "eq", less, C(0))) is True or s.facts.get(("cmp", "lt", C(0), less)) is False)
            ck.ob("between", "build", app != closed, "the parameters of a function are not what is between its parentheses", None, facts(s))


def renames(ck):
    """AS gives columns the names asked for, each the value of its own column"""
    from . import sql
    R = sql.Reading(ck)
    I = R.I
    ck.saw(sql.SQL + ".SqlReader")
    coll, ROW = ("attr", sql.ENGINE, "tokens"), S("=row", "dict")
    given = dict(select_expression=sql.SELECT, distinct=FALSE, dataset=sql.DATASET, where_expression=NONE, group_by=NONE, having=NONE, order_by=NONE, order_descending=FALSE, limit=NONE,
                 select_evaluator=sql.ENGINE)
    seen = set()
    for s, k, v in R.outcomes(given, [(("truth", sql.SELECT), True)]):
        if k != "ret":
            continue
        ops = [o for o in sql.named(sql.chain(v)[0]) if o[0] == "names"]
        ck.ob("renames", "SqlReader", len(ops) == 1 or absent(s, coll) and not ops, "columns are not given the names after AS", None, [show(v, 5)])
        for _, (f,), _ in ops:
            if f[0] == "made":
                rows = [(p[1], p[4][0], (), None) for p in f[1][2]]
            else:
                s2, rec = I.new_dict(I.clear(s), "row", {}, src=ROW)
                outs = I.call(s2, f, (rec,), {})
                if any(k3 != "ret" for _, k3, _ in outs):
                    ck.ob("kept", "SqlReader", False, "naming columns can fail", None)
                rows = [(I.freeze(s3, v3), ROW, steps(s3), s3) for s3, k3, v3 in outs if k3 == "ret"]
            for d, row, path, s3 in rows:
                key = (d, row)
                if key in seen:
                    continue
                seen.add(key)
                if d[0] != "dict":
                    ck.ob("named", "SqlReader", d == row and s3 is not None and absent(s3, coll), "columns are not given the names after AS", None, path)
                    continue
                ck.ob("kept", "SqlReader", d[2] == row, "naming a column loses others", None, list(path) + [show(d[2], 4)])
                ps = d[3]
                ok = not d[1] and len(ps) == 1 and ps[0][0] == "kv" and own(ps[0], coll, row)
                ck.ob("named", "SqlReader", ok or not ps and s3 is not None and absent(s3, coll), "a column named by AS does not have the value of its own column", None, list(path) + [show(d, 7)])
    ck.need("named", 1)


def absent(s, coll):
    """nothing has a name after AS"""
    return any(f[0] == "exists" and f[1] == coll and b is False for f, b in s.facts.items()) or s.facts.get(("truth", coll)) is False


def own(p, coll, row):
    _, key, val, ef, cf, bs = p
    if len(bs) != 1 or bs[0][:2] != ("elem", coll):
        return False
    e = bs[0]
    label = lambda t: t[0] == "call" and t[1][0] == "fn" and t[1][1] == EV + ".get_function_name" and t[2] == (e,)
    if key != ("item", e, C("as")):
        return False
    if val[0] == "call" and val[1] == ("attr", row, "get") and len(val[2]) in (1, 2):
        got = val[2][0]
    elif val[0] == "item" and val[1] in (row, ("dict", (), row, ())):
        got = val[2]
    else:
        return False
    allowed = lambda f, b: f == ("truth", key) and b or f == ("cmp", "is", key, NONE) and not b or f[0] == "cmp" and f[1] == "in" and f[2] == got and f[3] in (row, ("dict", (), row, ())) and b
    return label(got) and all(allowed(f, b) or not any(x == e for x in walk(f)) for f, b in ef | cf)
