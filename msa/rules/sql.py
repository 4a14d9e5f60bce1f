"""C30 the FROM clause, C31 the clauses of a statement, C32 how they are applied."""
from ..rulelib import *

SQL = "mabel.data.readers.internals.sql_reader"
LAB = "mabel.utils.token_labeler"
ATTRS = ("select_expression", "distinct", "dataset", "where_expression", "group_by", "having", "order_by", "order_descending", "limit")
ENGINE = S("=evaluator")
TOKENS = S("=tokens", "list")


def rows_op(I, st, name, src, args, kw):
    return ("op", name, (src,) + tuple(I.freeze(st, a) for a in args), tuple(sorted((k, I.freeze(st, v)) for k, v in kw.items())))


class Reading:
    """SqlReader on a statement which has the given clauses"""

    def __init__(self, ck):
        self.ck = ck
        self.I = ck.interp(on_call=self.oc, keep_facts="loops", ret_max=400, max_states=2000, stop={"get_function_name", "get_logger"}, watch=lambda k, n: False)
        fi = [x for x in ck.prog.funcs if x.qual == SQL + ".SqlReader"]
        if not fi:
            raise AnalysisError("anchor vanished: SqlReader")
        self.f = ("fn", fi[0].qual, "mod:" + fi[0].module.name, fi[0].fid)
        ck.saw(SQL + ".SqlReader")
        self.AGG = self.I.value(LAB + ".TOKENS.AGGREGATOR")
        self.VAR = self.I.value(LAB + ".TOKENS.VARIABLE")
        self.inner = False
        self.reader = self.I.value("mabel.data.readers.reader.Reader")

    def oc(self, I, st, f, args, kw, fr, node):
        q = I.callee_name(f) or ""
        n = q.split(".")[-1]
        if f[0] == "bm":
            return None
        if n == "SqlParser":
            st, ref = st.new(I.site(node, fr) + (q,), Obj("inst", "sql", dict(self.given), None))
            return [(st, "v", ref)]
        if n == "SqlReader" and f[0] == "fn":
            if not self.inner:
                self.inner = True
                return None
            return [(st, "v", rows_op(I, st, "SqlReader", NONE, args, kw))]
        if n == "Evaluator" and f[0] in ("cls", "fn"):
            return [(st, "v", ("evaluator", I.freeze(st, args[0])))]
        if f == self.reader or f[0] == "fn" and q.startswith("mabel.utils.parameter_validator.") and n == "wrapper":
            n = "Reader"
        if n in ("Reader", "GroupBy") and f[0] in ("cls", "fn", "closure"):
            src = args[0] if args and n == "GroupBy" else NONE
            return [(st, "v", rows_op(I, st, n, I.freeze(st, src), args[1:] if n == "GroupBy" else args, kw))]
        if n == "DictSet" and f[0] == "cls":
            return [(s, k, each_row(I.freeze(s, v)) if k in ("v", "ret") else v) for s, k, v in self.spelled(I, st, args[0])]
        if f[0] == "attr" and f[1][0] == "op":
            return [(st, "v", rows_op(I, st, n, f[1], args, kw))]
        if q in ("builtins.map", "map") and len(args) == 2:
            return [(st, "v", ("op", "map", (I.freeze(st, args[1]), args[0]), ()))]
        return None

    def spelled(self, I, st, v):
        """generators and comprehensions as the list of what they give"""
        if v[0] == "ref" and st.get(v[1]).kind in ("gen", "lazy"):
            return [(s, "v" if k == "ret" else k, x) for s, k, x in I.call(st, ("ext", "builtins.list"), (v,), {})]
        return [(st, "v", v)]

    def outcomes(self, given, facts=()):
        self.given, self.inner = given, False
        st = self.I.fresh()
        for t, b in facts:
            st = st.assume(t, b)
        return [(s, k, v) for s, k, v in self.ck.took(self.I.call(st, self.f, (S("=statement", "str"),), {"inner_reader": S("=inner")}))]


def each_row(v):
    """f(row) for each row, however written, is a map"""
    if v[0] == "list" and v[2] and all(p[0] == "rep" and len(p[4]) == 1 and p[4][0][1][0] == "op" for p in v[2]) and len({p[4][0][1] for p in v[2]}) == 1:
        src, p = v[2][0][4][0][1], v[2][0]
        t = p[1]
        if len(v[2]) == 1 and t[0] == "call" and t[1][0] == "evaluator" and not t[3]:
            return ("op", "map", (src, t[1]), ()) if t[2] == p[4] and not p[3] else v
        return ("op", "map", (src, ("made", v)), ())
    return v


def chain(v):
    ops = []
    while v[0] == "op":
        ops.append((v[1], v[2][1:], dict(v[3])))
        v = v[2][0]
    return ops[::-1], v


ALL = ("attr", ENGINE, "tokens")
SELECT, DATASET, PARTS, WHERE, GROUP, HAVING, ORDER, DESC, LIMIT = (S("=select", "str"), S("=dataset", "str"), S("=parts", "list"), S("=where", "str"), S("=group", "str"),
                                                                    S("=having", "str"), S("=order", "str"), S("=descending", "bool"), S("=limit", "int"))


def joined(t):
    """the parts of a subquery as text again"""
    if t[0] == "call" and t[1] == ("attr", C(""), "join") and len(t[2]) == 1:
        a = t[2][0]
        return a == PARTS or a[0] in ("list", "tuple") and a[2] == (("star", PARTS),)
    return False


def fields(t):
    """the columns which the SELECT clause gives"""
    while t[0] == "list" and len(t[2]) == 1 and t[2][0][0] == "star":
        t = t[2][0][1]
    return t[0] == "call" and t[1] == ("attr", ENGINE, "fields") and not t[2] and not t[3]


def unint(t):
    while t[0] == "call" and t[1] in (("ext", "builtins.int"), ("cls", "builtins.int")) and len(t[2]) == 1:
        t = t[2][0]
    return t


def everything_too(t):
    """the selection and all the columns"""
    return t[0] == "cat" and t[1][0] == SELECT and t[1][-1][0] == "c" and "".join(x[2] for x in t[1][1:] if x[0] == "c").replace(" ", "") == ",*"


def token_type(t, AGG):
    return t[0] == "cmp" and t[1] == "eq" and AGG in t[2:] and any(x[0] == "item" and x[2] == C("type") and x[1][0] == "elem" and x[1][1] == ALL for x in t[2:])


def has(s, AGG):
    """whether a token of that type is selected: True, False or None"""
    r = None
    for f, b in s.facts.items():
        if f == ("truth", ALL) and b is False:
            return False
        if f[0] == "exists" and f[1] == ALL and len(f[2]) == 1 and all(p and token_type(c, AGG) for c, p in f[2]):
            r = b
    return r


def aggregations(t, AGG):
    if t[0] != "list" or len(t[2]) != 1 or t[2][0][0] != "rep":
        return False
    term, ef, cf = t[2][0][1:4]
    conds = set(ef) | set(cf)
    if term[0] not in ("tuple", "list") or len(conds) != 1 or not all(p and token_type(c, AGG) for c, p in conds):
        return False
    v = term[1] if term[0] == "tuple" else [x[1] for x in term[2]]
    if len(v) != 2 or v[0][0] != "item" or v[0][2] != C("value"):
        return False
    e = v[0][1]
    return e[0] == "elem" and e[1] == ALL and v[1] == ("item", ("item", ("item", e, C("parameters")), C(0)), C("value"))


def columns(t):
    """the names in the GROUP BY clause"""
    if t[0] == "list" and not t[2]:
        return True
    if t[0] != "list" or len(t[2]) != 1 or t[2][0][0] != "rep":
        return False
    term, ef, cf = t[2][0][1:4]
    e = strip(term)
    if e[0] != "elem" or e == term or e[1][0] != "call" or e[1][1] != ("attr", GROUP, "split") or e[1][2] != (C(","),):
        return False
    def blank(c, p):
        if c[0] == "cmp" and c[1] == "eq" and not p and C("") in c[2:]:
            return strip(c[2] if c[3] == C("") else c[3]) == e
        return c[0] == "truth" and p and strip(c[1]) == e
    return all(blank(c, p) for c, p in set(ef) | set(cf))


def strip(t):
    while t[0] == "call" and t[1][0] == "attr" and t[1][2] == "strip" and not t[2]:
        t = t[1][1]
    return t


RANK = {"functions": 0, "where": 1, "GroupBy": 2, "aggregate": 3, "groups": 3, "having": 4, "names": 5, "distinct": 6, "sort": 7, "take": 8}


def named(ops):
    """the steps, each with the name of the clause it is for"""
    for n, a, k in ops:
        if n == "map" and len(a) == 1:
            yield ("functions" if a[0][0] == "evaluator" else "names"), a, k
        elif n == "filter":
            v = a[0] if a else k.get("filters")
            yield ("where" if v == WHERE else "having" if v == HAVING else "filter"), a, k
        else:
            yield {"sort_and_take": "sort"}.get(n, n), a, k


def pipeline(ck):
    R = Reading(ck)
    import itertools
    renamed = 0
    for sub, where, group, having, distinct, order, limit in itertools.product((0, 1), repeat=7):
        given = dict(select_expression=SELECT, distinct=C(bool(distinct)), dataset=PARTS if sub else DATASET, where_expression=WHERE if where else NONE,
                     group_by=GROUP if group else NONE, having=HAVING if having else NONE, order_by=ORDER if order else NONE, order_descending=DESC if order else C(False),
                     limit=LIMIT if limit else NONE, select_evaluator=ENGINE)
        facts = [(("truth", t), True) for t in (SELECT, WHERE, GROUP, HAVING, ORDER)]
        what = " ".join(n for n, b in zip(("FROM ()", "WHERE", "GROUP BY", "HAVING", "DISTINCT", "ORDER BY", "LIMIT"), (sub, where, group, having, distinct, order, limit)) if b)
        for s, k, v in R.outcomes(given, facts):
            path = [f"{'' if b else 'not '}{show(t, 6)}"[:200] for t, b in s.facts.items() if t not in dict(facts)][:8] + [what]

            def ob(rule, ok, why, detail=()):
                ck.ob(rule, "SqlReader", ok, why, None, path + list(detail))
            agg = has(s, R.AGG)
            if k == "raise":
                var = [t for t, b in s.facts.items() if b and t[0] == "cmp" and token_type(t, R.VAR)]
                ob("refused", "InvalidSqlError" in repr(v) and var and (group or agg), "a statement is refused although nothing is selected which is not grouped")
                continue
            ops, src = chain(v)
            steps = list(named(ops))
            names = [x[0] for x in steps]
            if not ops or src != NONE:
                ob("source", False, "the result is not the rows of the dataset named in FROM", [show(v, 6)])
                continue
            star = any(b and t[0] == "cmp" and t[1] == "eq" and SELECT in t[2:] and C("*") in t[2:] for t, b in s.facts.items())
            n, a, kw = steps[0]
            if sub:
                ob("source", n == "SqlReader" and len(a) == 1 and joined(a[0]) and kw.get("inner_reader") == S("=inner"), "a subquery is not read as a statement of its own")
                ob("where", (names.count("where") == 1) == bool(where), "the rows of a subquery are not filtered by WHERE, or without one", [str(names)])
                m = [x for x in steps if x[0] == "functions"]
                ob("functions", len(m) == 1 and (everything_too(m[0][1][0][1]) or star and m[0][1][0][1] == SELECT) or star and not m,
                   "the functions selected are not evaluated over the rows of a subquery", [str(names)])
            else:
                ob("source", n == "Reader" and not a and kw.get("dataset") == DATASET and kw.get("inner_reader") == S("=inner"), "the dataset read is not the one named in FROM")
                ob("where", n == "Reader" and (kw.get("filters", NONE) == (WHERE if where else NONE) and "where" not in names
                                               or kw.get("filters", NONE) == NONE and names.count("where") == 1 and where), "the rows read are not filtered by WHERE, or without one", [str(names)])
                x = kw.get("select", C("*"))
                ob("functions", everything_too(x) or star and x in (SELECT, C("*")), "the functions selected are not evaluated over the rows read")
            grouped = "GroupBy" in names
            ob("grouped", grouped if group else grouped is agg, "rows are grouped without GROUP BY or aggregation, or not with one", [str(names)])
            if grouped:
                g = steps[names.index("GroupBy")]
                gs = g[1][0] if g[1] else NONE
                ob("group-columns", columns(gs) if group else gs == ("list", "list", (("one", C("*")),), ()), "the rows are not grouped by the columns of GROUP BY", [show(gs, 9)])
                nx = steps[names.index("GroupBy") + 1:][:1]
                if nx and nx[0][0] == "aggregate":
                    ob("aggregations", len(nx[0][1]) == 1 and aggregations(nx[0][1][0], R.AGG), "the aggregations are not those selected, of the columns selected", [show(x, 9) for x in nx[0][1]])
                    ob("grouped-how", agg is not False, "groups are aggregated although no aggregation is selected")
                else:
                    ob("grouped-how", nx and nx[0][0] == "groups" and not agg, "groups are not aggregated although an aggregation is selected")
                free = [b for f, b in s.facts.items() if f[0] == "exists" and f[1] == ALL and any(p and token_type(c, R.VAR) for c, p in f[2])]
                none = any(f[0] == "exists" and f[1] == ALL and all(p and token_type(c, R.VAR) for c, p in f[2]) and not b for f, b in s.facts.items())
                ob("only-grouped", False in free or none or s.facts.get(("truth", ALL)) is False, "a column may be selected which the rows are not grouped by")
            ob("having", (names.count("having") == 1) == bool(having), "the rows are not filtered by HAVING, or without one", [str(names)])
            if "names" in names:
                renamed += 1
            ob("distinct", (names.count("distinct") == 1) == bool(distinct) and names.count("distinct") <= 1, "duplicate rows are not removed with DISTINCT, or are without", [str(names)])
            ob("order", (names.count("sort") == 1) == bool(order), "the rows are not sorted with ORDER BY, or are without", [str(names)])
            for n, a, kw in steps:
                if n == "sort":
                    vals = dict(zip(("column", "take", "descending"), a), **kw)
                    ob("order-by", vals.get("column") == ORDER and vals.get("descending", C(False)) == DESC, "the rows are not sorted by the column, or in the direction, of ORDER BY", [str(kw)[:200]])
                    tk = unint(vals.get("take", C(0)))
                    ob("order-take", tk == LIMIT if limit else tk[0] == "c" and (tk[2] is None or isinstance(tk[2], int) and tk[2] >= 10000), "rows are lost when sorting", [show(tk, 5)])
                if n == "take":
                    ob("limit-of", len(a) == 1 and unint(a[0]) == LIMIT, "the number of rows is not that of LIMIT", [show(x, 5) for x in a])
            ob("limit", names.count("take") == 1 and limit or "take" not in names and (not limit or order), "the number of rows is not limited by LIMIT, or is without", [str(names)])
            sel = [i for i, x in enumerate(steps) if x[0] == "select"]
            ob("select", sel and all(len(v) == 1 and fields(v[0]) for v in [steps[i][1] + tuple(steps[i][2].values()) for i in sel]), "the columns are not those selected", [str(names)])
            if distinct:
                ob("select-distinct", "distinct" in names and any(i < names.index("distinct") for i in sel), "duplicates are not told by the columns selected", [str(names)])
            elif order:
                ob("select-order", "sort" not in names or not any(i < names.index("sort") for i in sel), "the rows cannot be sorted by a column which is not selected", [str(names)])
            rest = [x for x in names[1:] if x != "select"]
            ob("steps", all(x in RANK for x in rest), "rows go through a step which no clause asks for", [str(names)])
            ranks = [RANK.get(x, 0) for x in rest]
            early = [i for i in sel if any(x in RANK and RANK[x] < 6 for x in names[i + 1:])]
            ob("in-order", ranks == sorted(ranks) and not early, "the clauses are not applied in their order", [str(names)])
    ck.ob("renamed", "SqlReader", renamed, "AS does not name a column", None)
    ck.need("limit", 128)
    ck.need("aggregations", 32)


def type_of(t):
    return ("call", ("ext", "type of"), (t,), (), None)


def is_type(t):
    return t[0] == "call" and t[1] == ("ext", "type of") and t[2][0][0] == "item"


class Statement:
    """SqlParser on any statement: what the last clause read does, after any others"""

    def __init__(self, ck):
        self.ck = ck
        self.collecting = None
        self.types = {}
        self.I = I = ck.interp(keep_facts=True, max_states=4000, ret_max=4000, on_call=self.oc, stop={"remove_comments", "clean_statement", "sql_parts", "build", "tokenize", "get_token_type"},
                               watch=lambda k, n: k == "mut" or k == "call" and n.startswith("#"), factless=())
        for n in ("LEFTPARENTHESES", "RIGHTPARENTHESES"):
            self.types[n] = I.value(LAB + ".TOKENS." + n)
        ck.saw(SQL + ".SqlParser.parse")
        self.turns = []
        I.on_turn = lambda head, ends, node, fr: self.turns.append((I.site(node, fr), ends))
        self.outs = [(s, k, v, self.attrs(s, v) if k == "ret" else None) for s, k, v in ck.took(I.call(I.fresh(), I.value(SQL + ".SqlParser"), (S("=sql", "str"),)))]

    def attrs(self, s, v):
        if v[0] != "ref" or not set(ATTRS) <= set(s.get(v[1]).d):
            raise AnalysisError("anchor vanished: the clauses of SqlParser")
        return {a: self.I.freeze(s, s.get(v[1]).d[a]) for a in ATTRS}

    def oc(self, I, st, f, args, kw, fr, node):
        if f[0] != "fn":
            return None
        q = I.callee_name(f)

        def moved(st, ref, site):
            o = st.get(ref[1])
            return st.put(ref[1], o._replace(d=dict(o.d, i=S(f"=after{site}"))))
        if q.startswith(LAB + ".Tokenizer."):
            m, r = q.split(".")[-1], args[0]
            if m == "has_next":
                return [(st, "v", TRUE), (st, "v", FALSE)]
            if m == "__init__":
                o = st.get(r[1])
                return [(st.put(r[1], o._replace(d=dict(o.d, i=S("=i"), tokens=S("=tokens", "list")))), "v", NONE)]
            v = ("item", S("=tokens"), st.get(r[1]).d["i"])
            if m == "next":
                return [(I.emit(moved(st, r, I.site(node, fr)), "call", "#next", None, (v,), {}, v, fr, node), "v", v)]
            return [(st, "v", v if "type" not in m else type_of(v))] if m in ("peek", "next_token_value", "next_token_type") else None
        if q == SQL + ".SqlParser.collector" and len(args) == 2 and args[1][0] == "ref":
            v = ("opq", "text", I.site(node, fr))
            at = st.get(args[1][1]).d["i"]
            return [(I.emit(moved(st, args[1], I.site(node, fr)), "call", "#collect", None, (at,), {}, v, fr, node), "v", v)]
        if q.endswith("Evaluator.__init__"):
            return [(st, "v", NONE)]
        return None


def facts_of(s):
    return [f"{'' if b else 'not '}{show(t, 6)}"[:200] for t, b in s.facts.items() if "remove_comments" not in show(t, 4)][-8:]


def length(t):
    return ("call", ("ext", "builtins.len"), (t,), (), None)


def is_a(s, d, name):
    for f, b in s.facts.items():
        if f[0] == "call" and f[1] == ("ext", "builtins.isinstance") and f[2][0] == d and f[2][1] == ("ext", "builtins." + name):
            return b
    return None


FINE = set("./-_")


def stripped_of(t):
    """(text, what is removed from it) of text.replace(x, "")..."""
    gone = set()
    while t[0] == "call" and t[1][0] == "attr" and t[1][2] == "replace" and len(t[2]) == 2 and t[2][0][0] == "c" and t[2][1] == C(""):
        gone.add(t[2][0][2])
        t = t[1][1]
    return t, gone


def checked(s, d):
    """what is not known of the name"""
    missing = {"it starts with a letter", "it has only letters, digits and ./-_"} | {f"it has no `{x}`" for x in ("..", "//", "--")}
    first = (("item", d, C(0)), ("item", d, ("slice", NONE, C(1), NONE)), ("slice", d, NONE, C(1), NONE))
    for f, b in s.facts.items():
        x = f[1] if f[0] == "truth" else f
        if b and x[0] == "call" and x[1][0] == "attr" and x[1][2] == "isalpha" and (x[1][1] in first or x[1][1][0] == "item" and x[1][1][1] == d and "slice" in repr(x[1][1][2]) and C(1) in list(walk(x[1][1][2]))):
            missing.discard("it starts with a letter")
        if b and x[0] == "call" and x[1][0] == "attr" and x[1][2] == "isalnum":
            t, gone = stripped_of(x[1][1])
            if t == d and gone <= FINE:
                missing.discard("it has only letters, digits and ./-_")
        if not b and f[0] == "cmp" and f[1] == "in" and f[3] == d and f[2][0] == "c":
            missing.discard(f"it has no `{f[2][2]}`")
        if f[0] == "cmp" and f[1] == "eq" and b and C(0) in f[2:] or f[0] == "truth" and not b:
            for y in f[1:] if f[0] == "truth" else f[2:]:
                if y[0] == "call" and y[1] == ("attr", d, "count") and y[2] and y[2][0][0] == "c":
                    missing.discard(f"it has no `{y[2][0][2]}`")
        if f[0] == "cmp" and f[1] in ("eq", "lt") and f[2][0] == "call" and f[2][1] == ("attr", d, "find") and f[2][2][0][0] == "c":
            if f[1] == "eq" and b and f[3] == C(-1) or f[1] == "lt" and b and f[3] == C(0):
                missing.discard(f"it has no `{f[2][2][0][2]}`")
        if not b and f[0] == "exists" and f[1] == d:
            if all(char_test(c, p, d) for c, p in f[2]):
                missing.discard("it has only letters, digits and ./-_")
        if b and f[0] == "truth" and f[1][0] == "call" and f[1][1][0] == "ext" and f[1][1][1] == "re.fullmatch" and f[1][2][1:2] == (d,) and f[1][2][0][0] == "c":
            missing -= pattern(f[1][2][0][2])
        if not b and f[0] == "cmp" and f[1] == "is" and f[3] == NONE and f[2][0] == "call" and f[2][1] == ("ext", "re.fullmatch") and f[2][2][1:2] == (d,) and f[2][2][0][0] == "c":
            missing -= pattern(f[2][2][0][2])
    if s.facts.get(("truth", d)) is False and "it starts with a letter" not in missing:
        return set()  # a name with a first letter is not empty
    return missing


def pattern(p):
    """what the text matching a whole pattern is known to be: only of one set of characters, repeated"""
    import re
    body = p.strip("^$").replace("\\\\Z", "")
    m = re.fullmatch(r"(\[[^\]]*\])?(\[[^\]]*\])[*+]", body)
    ok = set()
    if m:
        chars = m.group(2)[1:-1].replace("A-Z", "").replace("a-z", "").replace("0-9", "").replace("\\w", "_").replace("\\d", "").replace("\\", "")
        if set(chars) <= FINE and not re.search(r"[^\\]-.", chars[:-1] if chars.endswith("-") else chars):
            ok.add("it has only letters, digits and ./-_")
        if m.group(1) in ("[a-zA-Z]", "[A-Za-z]"):
            ok.add("it starts with a letter")
    return ok


def char_test(c, p, d):
    """a condition under which a character is known to be neither a letter, a digit nor one of ./-_: these together are refused"""
    e = ("elem", d, "_")
    x = c[1] if c[0] == "truth" else c
    if not p and x[0] == "call" and x[1] == ("attr", e, "isalnum"):
        return True
    if not p and c[0] == "cmp" and c[1] == "in" and c[2] == e:
        v = set(c[3][2]) if c[3][0] == "c" and isinstance(c[3][2], str) else {y[1][2] for y in c[3][2] if y[1][0] == "c"} if c[3][0] in ("list", "set") else {y[2] for y in c[3][1] if y[0] == "c"} if c[3][0] == "tuple" else None
        return v is not None and v <= FINE
    if not p and c[0] == "cmp" and c[1] == "eq" and e in c[2:]:
        return any(y[0] == "c" and y[2] in FINE for y in c[2:])
    return False


def named_data(ck):
    """C30"""
    P = Statement(ck)
    n = 0
    for s, k, v, a in P.outs:
        if k != "ret":
            ck.ob("rejects", "SqlParser", True, "", None)
            n += 1
            continue
        d = a["dataset"]
        for x, clause in ((d, "FROM"), (a["select_expression"], "SELECT")):
            none = s.facts.get(("cmp", "is", x, NONE)) is True or x == NONE or s.facts.get(("cmp", "is", x, NONE)) is None and x[0] == "phi" and is_a(s, x, "str") is None and not truthy(s, x)
            ck.ob("required", clause, not none, f"a statement without {clause} is accepted", None, facts_of(s))
        lst = d[0] in ("list", "tuple") or is_a(s, d, "list") is True or is_a(s, d, "str") is False
        missing = set() if lst else checked(s, d)
        for m in sorted(missing):
            ck.ob("name", m, False, f"a dataset is read by a name of which it is not known that {m}", None, facts_of(s))
        ck.ob("named", "FROM", not missing, "the name in FROM is not checked", None, facts_of(s))
    ck.ob("rejected", "SqlParser", n, "no statement is rejected", None)
    ck.need("named", 8)
    R = Reading(ck)
    for sub in (0, 1):
        given = dict(select_expression=SELECT, distinct=FALSE, dataset=PARTS if sub else DATASET, where_expression=NONE, group_by=NONE, having=NONE, order_by=NONE, order_descending=FALSE,
                     limit=NONE, select_evaluator=ENGINE)
        for s, k, v in R.outcomes(given, [(("truth", SELECT), True)]):
            if k == "ret":
                ops, src = chain(v)
                ok = ops and src == NONE and (ops[0][0] == "SqlReader" and len(ops[0][1]) == 1 and joined(ops[0][1][0]) if sub else
                                              ops[0][0] == "Reader" and ops[0][2].get("dataset") == DATASET)
                ck.ob("read", "SqlReader", ok, "what is read is not the dataset whose name was checked", None, [show(v, 5)])
    ck.need("read", 2)


def truthy(s, x):
    return s.facts.get(("truth", x)) is True


def upper_of(t):
    """the token whose upper case text t is"""
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] in ("upper", "lower") and not t[2]:
        return strip(t[1][1]), t[1][2]
    return None, None


def keyword(s, tok):
    """(the keyword the token is, those it is not)"""
    yes, no = None, set()
    for f, b in s.facts.items():
        if f[0] == "cmp" and f[1] == "eq":
            for x, y in (f[2:], f[3:1:-1]):
                t, how = upper_of(x)
                if t == tok and y[0] == "c" and y[2] == getattr(y[2], how)():
                    if b:
                        yes = y[2].upper()
                    else:
                        no.add(y[2].upper())
    return yes, no


CLAUSES = {"SELECT": "select_expression", "FROM": "dataset", "WHERE": "where_expression", "GROUP BY": "group_by", "HAVING": "having", "ORDER BY": "order_by", "LIMIT": "limit"}


def clauses(ck):
    """C31"""
    P = Statement(ck)
    seen = set()
    for s, k, v, a in P.outs:
        path = facts_of(s)
        toks = [x for f in s.facts for x in walk(f) if x[0] == "item" and x[1] == S("=tokens") and x[2][0] == "phi"]
        outer = [x for x in toks if len(x[2]) < 5 or x[2][4] == C(0)]
        if not outer:
            if k == "ret":
                ck.ob("some", "SqlParser", False, "a statement is accepted unread", None, path)
            continue
        tok = outer[0]
        kw, no = keyword(s, tok)
        peel = lambda t: peel(t[1][1]) if t[0] == "call" and t[1][0] == "attr" and t[1][2] in ("strip", "upper", "lower") and not t[2] else t
        blank = any(b and f[0] == "cmp" and f[1] == "eq" and C("") in f[2:] and peel(f[2] if f[3] == C("") else f[3]) == tok for f, b in s.facts.items()) or \
            any(not b and f[0] == "truth" and peel(f[1]) == tok and "strip" in show(f[1], 9) for f, b in s.facts.items())
        if k == "raise":
            continue
        loop = tok[2][1]
        set_ = {n for n in ATTRS if not (a[n][0] == "phi" and a[n][1] == loop)}
        if kw is None:
            ck.ob("unexpected", "SqlParser", blank, "text which is no clause is accepted", None, path)
            ck.ob("blank", "SqlParser", not set_, "blank text sets a clause", None, path + sorted(set_))
        else:
            seen.add(kw)
            own = CLAUSES.get(kw)
            may = {own} | {"SELECT": {"distinct"}, "ORDER BY": {"order_descending"}}.get(kw, set())
            ck.ob("own", kw, own and own in set_, f"{kw} is not kept", None, path)
            ck.ob("other", kw, set_ <= may, f"{kw} changes another clause", None, path + sorted(set_ - may))
            if own:
                value(ck, P, s, kw, a[own], tok, path)
            if "distinct" in set_ or kw == "SELECT":
                d = a["distinct"]
                is_, _ = second(s, tok, "DISTINCT")
                ck.ob("distinct", kw, (d == TRUE and is_ is True) or (d == FALSE or d[0] == "phi") and is_ is False or d not in (TRUE, FALSE) and d[0] != "phi" and says(d, "DISTINCT"),
                      "DISTINCT is not told from its absence", None, path + [show(d, 5)])
            if "order_descending" in set_ or kw == "ORDER BY":
                d = a["order_descending"]
                is_, known = second(s, tok, "DESC")
                ck.ob("direction", kw, (d == TRUE and is_ is True) or (d == FALSE or d[0] == "phi") and is_ is not True or d not in (TRUE, FALSE) and d[0] != "phi" and says(d, "DESC"),
                      "DESC is not told from ASC", None, path + [show(d, 5)])
        moves = [e for e in s.trace if e.kind == "call" and e.name in ("#next", "#collect")]
        ck.ob("moves", kw or "blank", moves and moves[0].name == "#next" and moves[0].args[0] == tok, "reading does not move on to the next text", None, path)
    for n in CLAUSES:
        ck.ob("clause", n, n in seen, f"{n} is not read", None)
    subquery(ck, P)
    collected(ck)
    ck.need("own", 10)
    ck.need("blank", 1)


def second(s, tok, word):
    """whether a token after the first of the clause is the word"""
    r, known = None, False
    for f, b in s.facts.items():
        if f[0] == "cmp" and f[1] == "eq":
            for x, y in (f[2:], f[3:1:-1]):
                t, how = upper_of(x)
                if t is not None and t != tok and t[0] == "item" and t[1] == S("=tokens") and y[0] == "c" and isinstance(y[2], str):
                    known = True
                    if y[2].upper() == word and y[2] == getattr(y[2], how)():
                        r = b
    return r, known


def says(d, word):
    if d[0] == "cmp" and d[1] == "eq":
        for x, y in (d[2:], d[3:1:-1]):
            t, how = upper_of(x)
            if t is not None and t[0] == "item" and y[0] == "c" and y[2] == getattr(word, how)():
                return True
    return False


def value(ck, P, s, kw, v, tok, path):
    texts = {e.res for e in s.trace if e.kind == "call" and e.name == "#collect"}
    if kw == "LIMIT":
        ok = v[0] == "call" and v[1] in (("ext", "builtins.int"), ("cls", "builtins.int")) and strip(v[2][0]) in texts
    elif kw == "FROM" and v[0] == "list":
        return
    elif kw == "FROM":
        t = v
        if t[0] == "call" and t[1][0] == "attr" and t[1][2] == "replace" and t[2] == (C("."), C("/")):
            t = t[1][1]
        ok = t != v and strip(t) in texts
    else:
        ok = strip(v) in texts
    ck.ob("value", kw, ok, f"{kw} is not the text after the keyword", None, path + [show(v, 6)])


def subquery(ck, P):
    """the parts of a subquery are those between its parentheses"""
    LEFT, RIGHT = P.types["LEFTPARENTHESES"], P.types["RIGHTPARENTHESES"]

    def inner(s):
        r = [x for f in s.facts for x in walk(f) if is_type(x) and x[2][0][2][0] == "phi" and len(x[2][0][2]) > 4 and x[2][0][2][4] != C(0) and RIGHT in f[2:]]
        return r[0] if r else None
    counters = {y[2] for s, k, v, a in P.outs for t in [inner(s)] if t for f in s.facts for y in walk(f) if y[0] == "bin" and y[1] in "+-" and y[2][0] == "phi" and y[3] == C(1) and y[2][1] == t[2][0][2][1]}
    for c in counters:
        between(ck, P, c, inner, LEFT, RIGHT)


def between(ck, P, c, inner, LEFT, RIGHT):

    def above(s, t):
        """whether t is known to be more than 0"""
        for f, v in ((("cmp", "lt", C(0), t), True), (("cmp", "le", t, C(0)), False), (("cmp", "le", C(1), t), True), (("cmp", "eq", t, C(0)), False), (("truth", t), True), (("cmp", "gt", t, C(0)), True)):
            if f in s.facts:
                return s.facts[f] is v
        return None
    def spent(s):
        less = ("bin", "-", c, C(1))
        return above(s, c) and (above(s, ("bin", "+", c, C(1))) is False or s.facts.get(("cmp", "eq", ("bin", "+", c, C(1)), C(0))) is True or s.facts.get(("cmp", "lt", C(0), less)) is False and s.facts.get(("cmp", "eq", less, C(0))) is False)

    def sides(s, tok):
        return [s.facts.get(("cmp", "eq", tok, x)) is True for x in (LEFT, RIGHT)]

    def collects(s, tok, path, right):
        app = any(e.kind == "mut" and e.name == "append" and strip(e.args[0]) == tok[2][0] for e in s.trace)
        closed = right and above(s, ("bin", "-", c, C(1))) is False
        ck.ob("parts", "FROM", app != closed, "the parts of a subquery are not those between its parentheses", None, path)
        return closed
    def holds(s):
        os = [s.get(k) for k in {*s.base, *s.over}]
        return {o.d[c[2][1]] for o in os if o is not None and isinstance(o.d, dict) and c in set(walk(o.d.get(c[2][1]) or NONE))}
    for site, ends in P.turns:
        if site != c[1]:
            continue
        for s in ends:
            tok = inner(s)
            if not tok or spent(s) or not holds(s):
                continue
            path = facts_of(s)
            left, right = sides(s, tok)
            ck.ob("parentheses", "FROM", holds(s) == {("bin", "-" if right else "+", c, C(1)) if left or right else c}, "the parentheses of a subquery are miscounted", None, path)
            collects(s, tok, path, right)
    for s, k, v, a in P.outs:
        tok = inner(s)
        if not tok or spent(s):
            continue
        closed = collects(s, tok, facts_of(s), sides(s, tok)[1])
        if k == "ret":
            ck.ob("closed", "FROM", closed, "a subquery can end before its last parenthesis", None, facts_of(s))


def collected(ck):
    """the text of a clause is that up to the next keyword"""
    words = set(CLAUSES) | {"ASC", "DESC", "DISTINCT"}

    def oc(I, st, f, args, kw, fr, node):
        if f[0] != "fn":
            return None
        q = I.callee_name(f)
        if q.startswith(LAB + ".Tokenizer."):
            m, r = q.split(".")[-1], args[0]
            o = st.get(r[1])
            v = ("item", S("=tokens"), o.d["i"])
            if m == "has_next":
                return [(st, "v", TRUE), (st, "v", FALSE)]
            if m == "next":
                st = st.put(r[1], o._replace(d=dict(o.d, i=("bin", "+", o.d["i"], C(1)))))
                return [(I.emit(st, "call", "#next", None, (v,), {}, v, fr, node), "v", v)]
            if m in ("peek", "next_token_value"):
                return [(st, "v", v)]
        return None
    I = ck.interp(on_call=oc, keep_facts=True, ret_max=400, watch=lambda k, n: k == "mut" or k == "call" and n.startswith("#"))
    ck.saw(SQL + ".SqlParser.collector")
    I.value(SQL)
    cls = I.value(SQL + ".SqlParser")
    st, r = I.fresh().new("parser", Obj("inst", SQL + ".SqlParser", {}, None))
    I.value(LAB + ".Tokenizer")
    st, tk = st.new("labeler", Obj("inst", LAB + ".Tokenizer", dict(i=S("=i"), tokens=S("=tokens")), None))
    n = 0
    for s, k, v in ck.took(I.method(st, r, "collector", (tk,))):
        if k != "ret":
            continue
        v = I.freeze(s, v)
        n += 1
        path = facts_of(s)
        t = strip(v)
        lst = t[2][0] if t[0] == "call" and t[1] == ("attr", C(""), "join") and len(t[2]) == 1 else NONE
        moved = [e.args[0] for e in s.trace if e.name == "#next"]
        ck.ob("text", "collector", lst[0] == "list" and all(p[0] in ("one", "rep", "any", "star") for p in lst[2]) or v == C(""), "the text of a clause is not the texts read, joined", None, path + [show(v, 6)])
        if lst[0] == "list":
            for p in lst[2]:
                if p[0] in ("one", "rep"):
                    ck.ob("text-of", "collector", p[1][0] == "item" and p[1][1] == S("=tokens"), "the text of a clause is changed", None, path + [show(p[1], 6)])
        for e in s.trace:
            if e.name == "#next":
                kept = [x for x in s.trace if x.kind == "mut" and x.args and x.args[-1] == e.args[0]]
                ck.ob("text-kept", "collector", kept, "text of a clause is lost", None, path)
        if moved:
            not_ = set()
            for f, b in s.facts.items():
                if not b and f[0] == "cmp" and f[1] in ("eq", "in"):
                    for x, y in (f[2:], f[3:1:-1]):
                        if upper_of(x)[0] in moved:
                            not_ |= {w[2].upper() for w in walk(y) if w[0] == "c" and isinstance(w[2], str)}
            ck.ob("until", "collector", words <= not_, "the text of a clause does not end at each keyword", None, path + sorted(words - not_))
    ck.need("until", 1)
    ck.need("text-kept", 1)
