"""C22 keys of groups and duplicates, C23 aggregation."""
from ..rulelib import *
from .pipeline import passes, left, unfinished, entire, facts_path, walk_all
from .dictsets import Sets, ROWS, from_rows, turns_over_rows, value_of, DS, all_of

GB = "mabel.data.internals.group_by.GroupBy"
CS = "mabel.data.internals.collected_set"
COLS = S("columns", "list")
COL = S("column", "str")
WRAPS = ("builtins.hash", "builtins.int", "builtins.str", "builtins.bytes")
WHOLE = ("builtins.repr", "json.dumps", "orjson.dumps", "builtins.str", "pickle.dumps", "builtins.ascii")


# ---------------------------------------------------------------------- C22
def keys(ck):
    distinct(ck)
    groups(ck)
    collections(ck)
    ck.need("distinct", 4)
    ck.need("key", 3)
    ck.need("group", 2)
    ck.need("collected", 2)


def hasher(t):
    return t[0] == "call" and t[1][0] == "ext" and (t[1][1] in WRAPS or t[1][1].split(".")[0] in ("xxhash", "hashlib", "zlib", "mmh3") or "cityhash" in t[1][1])


def structure(t):
    """what is behind the hashing -> (the structure, was it written as text?)"""
    text = False
    for _ in range(12):
        if t[0] == "call" and t[1][0] == "ext" and t[1][1] in WHOLE and len(t[2]) >= 1 and not (t[1][1] == "builtins.str" and not structured(t[2][0])):
            text = True
            if t[1][1].endswith("dumps") and sorts_keys(t):
                return ("sorted", t[2][0]), text
            t = t[2][0]
        elif hasher(t) and t[2]:
            t = t[2][0]
        elif t[0] == "call" and t[1][0] == "attr" and t[1][2] in ("encode", "hexdigest", "digest", "intdigest") :
            t = t[1][1]
        elif t[0] == "cat" and len(t[1]) == 1:
            t = t[1][0]
            text = True
        elif t[0] == "call" and t[1][0] == "ext" and t[1][1] in ("builtins.tuple", "builtins.list") and len(t[2]) == 1:
            t = t[2][0]
        else:
            break
    return t, text


def structured(t):
    return t[0] in ("list", "tuple", "dict")


def sorts_keys(t):
    kw = dict(t[3])
    return kw.get("sort_keys") == TRUE or "OPT_SORT_KEYS" in repr(t)


def faithful(t, el, cols):
    """'' when equal keys mean equal values of the columns, and equal values equal keys; else what is wrong"""
    x, text = structure(t)
    if not contains(x, el):
        return "it does not depend on the record"
    if x[0] == "sorted":
        return "" if cols is None and (x[1] == el or whole_items(x[1], el)) else "not all of the record"
    if x[0] == "cat" or x[0] == "call" and x[1][0] == "attr" and x[1][2] == "join":
        return "values are joined to one text, so different values can read the same"
    if x[0] == "bin" or x[0] == "phi" or x[0] == "call" and x[1] in (("ext", "builtins.sum"),):
        return "values are combined, so different values can give the same key"
    if cols is None:
        if x[0] == "call" and x[1] == ("ext", "builtins.sorted") and x[2][0] == ("call", ("attr", el, "items"), (), (), None):
            return ""
        if x[0] == "list" and (x[1] == "set" or any(m[0] == "sorted" for m in x[3])) and not any(m[0] == "slice" for m in x[3]):
            return "" if len(x[2]) == 1 and items_part(x[2][0], el) else "not all of the record"
        if x[0] == "dict" and x[2] == NONE and not x[1] and len(x[3]) == 1:
            p = x[3][0]
            if any(isinstance(e, tuple) and e and e[0] == "list" and any(m[0] == "sorted" for m in e[3]) for e in walk(p[1])):
                return ""
        return "the order of the record's columns matters" if x[0] in ("list", "dict", "call") or x == el else "not all of the record"
    if x[0] in ("list", "tuple"):
        ones = [p[1] for p in x[2] if p[0] == "one"] if x[0] == "list" else list(x[1])
        if len(ones) == len(x[2] if x[0] == "list" else x[1]) == 1:
            y = ones[0] if ones[0][0] != "tuple" else ones[0][1][-1]
            return "" if (record_value(y, el) or quoted(y, el)) and contains(y, cols) else "not each column"
    if x[0] != "list" or len(x[2]) != 1 or x[2][0][0] != "rep":
        return "not each column"
    if x[1] == "set":
        return "which column has which value is lost"
    if any(m[0] in ("slice", "sorted", "unique") for m in x[3]):
        return "the order or number of values is not that of the columns"
    p = x[2][0]
    vals = [y for y in walk(p[1]) if record_value(y, el)]
    keys_ = {y[2] if y[0] in ("item", "get") else y[2][0] for y in vals}
    if not vals or not all(k[0] == "elem" and entire_cols(k[1], cols) for k in keys_):
        return "not each column"
    key = next(iter(keys_))
    parts = [p[1]] if record_value(p[1], el) or quoted(p[1], el) else list(p[1][1]) if p[1][0] == "tuple" else [q[1] for q in p[1][2]] if p[1][0] == "list" else []
    if not any(record_value(y, el) or quoted(y, el) for y in parts):
        return "a value is not kept as it is"
    conds = [(a, b) for c in p[2:4] for a, b in c if contains(a, key)]
    if conds and key not in parts:
        return "columns are left out without saying which"
    if any(not (a[0] == "cmp" and a[1] == "in" and a[2] == key and b) for a, b in conds):
        return "columns are left out"
    return ""


def record_value(y, el):
    return y[0] == "call" and y[1] == ("attr", el, "get") and len(y[2]) >= 1 or y[0] in ("item", "get") and y[1] == el


def quoted(y, el):
    return y[0] == "call" and y[1] == ("ext", "builtins.repr") and record_value(y[2][0], el)


def entire_cols(t, cols):
    return t == cols or entire(t, cols) or all_of(t, cols) or t == ("tuple", (("star", cols),)) or \
        t[0] == "tuple" and len(t[1]) == 1 and t[1][0][0] == "star" and t[1][0][1] == cols or \
        t[0] == "list" and len(t[2]) == 1 and t[2][0] in (("star", cols), ("one", cols)) and not t[3]


def whole_items(t, el):
    return t[0] == "list" and len(t[2]) == 1 and items_part(t[2][0], el)


def items_part(p, el):
    items = ("call", ("attr", el, "items"), (), (), None)
    if p[0] == "star":
        return p[1] in (items, el)
    if p[0] != "rep" or p[2] or p[3]:
        return False
    t = p[1]
    if t[0] == "elem":
        return t[1] in (items,)
    return t[0] == "tuple" and len(t[1]) == 2 and t[1][0][0] == "elem" and t[1][0][1] == el and t[1][1] in (("item", el, t[1][0]), ("get", el, t[1][0], NONE), ("get", el, t[1][0]))


def distinct(ck):
    """handed out exactly when no earlier record had its key, and its key is kept"""
    D = Sets(ck, watch=lambda k, n: k in ("out", "iter", "enditer", "mut"))
    asked = S("columns", "tuple")
    for sc in ("NO_PERSISTANCE", "MEMORY"):
        some = False
        for s, k, made in D.drained(sc, "distinct", (("star", asked),)):
            if k == "raise":
                continue
            ck.ob("keeps-storage", f"distinct({sc})", made == ("enum", DS + ".STORAGE_CLASS", sc), "the result is not kept the way the set is kept", None, [show(made) if made else ""])
            by = [b for t, b in s.facts.items() if t[0] == "truth" and (t[1] == asked or entire(t[1], asked))]
            for el in unfinished(s, k):
                ck.ob("distinct", f"to-the-end({sc})", not from_rows(el), "going through the records stops early", None, facts_path(s.facts))
            for el, ins in turns_over_rows(s):
                some = True
                outs = [e for e in ins if e.kind == "out"]
                puts = [e for e in ins if e.kind == "mut" and e.name in ("setitem", "add", "append", "setdefault", "update") and e.args and contains(e.args[0], el)]
                tests = [(t, b) for t, b in s.facts.items() if t[0] == "cmp" and t[1] == "in" and contains(t[2], el) and t[2][0] not in ("elem",)]
                if len(outs) > 1 or outs and outs[0].args[0] != el:
                    ck.ob("distinct", f"distinct({sc})", False, "a record is not handed out once and as it is", outs[-1], [show(e.args[0]) for e in outs])
                    continue
                if len(tests) != 1:
                    ck.ob("distinct", f"distinct({sc})", False, "whether a record is a duplicate does not depend on one key alone", ins[-1] if ins else None, facts_path(s.facts))
                    continue
                key, seen = tests[0][0][2], tests[0][1]
                ok = bool(outs) is not seen and (seen or any(same(e.args[0], key) for e in puts))
                ck.ob("distinct", f"distinct({sc})", ok, "a record is not handed out exactly when its key is new", outs[0] if outs else None, [show(key, 8)] + facts_path(s.facts))
                for cols in ([asked] if by[:1] == [True] else [None] if by[:1] == [False] else [asked, None]):
                    why = faithful(key, el, cols)
                    ck.ob("key", "distinct" + ("(columns)" if cols else "()"), not why, f"two records are taken for the same although they differ, or the other way round: {why}", outs[0] if outs else None, [show(key, 9)])
        ck.ob("distinct", f"distinct({sc})", some, "nothing comes out", None)


def same(a, b):
    return a == b or re_bind(a) == re_bind(b)


def re_bind(t):
    """forget where an element's loop was"""
    subs = {x: ("elem", x[1], "_") for x in walk(t) if x[0] == "elem" and len(x) > 2}
    return subst(t, subs) if subs else t


class Grouped:
    def __init__(self, ck, columns=COLS, **kw):
        self.stub = None

        def oc(I, st, f, args, kws, fr, node):
            return self.stub(I, st, f, args, kws) if self.stub else None
        self.I = ck.interp(on_call=oc, keep_facts=kw.pop("keep", True), ret_max=600, max_states=600, extra_pure=(), watch=lambda k, n: k in ("out", "iter", "enditer", "mut", "call"), **kw)
        self.good = build(self.I, self.I.value(GB), (ROWS, columns), {})
        self.ck = ck

    def over(self):
        return [(self.I.clear(s), r) for s, r in self.good]


def groups(ck):
    """records are in one group exactly when their values of the columns are the same, and the group keeps those"""
    COLLECT = S("=collect", "set")
    for columns in (COLS, COL):
        D = Grouped(ck, columns)
        ck.saw(GB + "._map", GB + ".__init__", GB + ".groups")
        some = False
        for s0, r in D.over():
            for s1, k1, v in D.I.method(s0, r, "_map", (COLLECT,)):
                for s, k, _ in ck.took(D.I.drain(s1, v)) if k1 == "ret" else []:
                    if k == "raise":
                        continue
                    for el in unfinished(s, k):
                        ck.ob("group", "mapped", not (from_rows(el) or entire(el[1], COLLECT)), "going through the records stops early", None, facts_path(s.facts))
                    for el, ins in turns_over_rows(s):
                        if any(e.kind == "out" and e.args[0] == ("tuple", (C("*"), C("*"), C("*"))) for e in ins):
                            continue
                        outs = [e for e in ins if e.kind == "out"]
                        regs = [e for e in ins if e.kind == "mut" and e.name in ("setitem", "setdefault") and e.recv is not None and contains_key(e.args[0], el)]
                        new = [(t, b) for t, b in s.facts.items() if t[0] == "cmp" and t[1] == "in" and contains_key(t[2], el)]
                        for e in outs:
                            x = e.args[0]
                            if x[0] != "tuple" or len(x[1]) != 3:
                                ck.ob("key", "group_by", False, "a value is not handed on with its group", e, [show(x)])
                                continue
                            some = True
                            why = faithful(x[1][0], el, columns)
                            ck.ob("key", "group_by", not why, f"records are put in the wrong group: {why}", e, [show(x[1][0], 9)])
                        for t, b in new:
                            ck.ob("group", "kept", bool(regs) is not b and all(same(e.args[0], t[2]) for e in regs), "a new group's columns are not kept under its key", ins[-1] if ins else None, facts_path(s.facts))
                        if not new:
                            ck.ob("group", "kept", len(regs) == 1, "a new group's columns are not kept", ins[-1] if ins else None, facts_path(s.facts))
                        for e in regs:
                            x = D.I.freeze(s, e.args[1])
                            why = faithful(e.args[0], el, columns)
                            ck.ob("key", "group_by", not why, f"records are put in the wrong group: {why}", e, [show(e.args[0], 9)])
                            ok = names_and_values(x, el, columns)
                            ck.ob("group", "columns", ok, "what is kept for a group is not each column with its value", e, [show(x, 9)])
        ck.ob("group", "mapped", some, "nothing is handed on", None)
        listed(ck, D)


def contains_key(t, el):
    return contains(t, el) and not (t[0] == "elem") and not record_value(t, el)


def names_and_values(x, el, columns):
    if x[0] == "dict":
        ps = [("tuple", (p[1], p[2])) for p in x[3]] + [("tuple", kv) for kv in x[1]]
        return len(ps) == 1 and pair(ps[0], el, columns)
    if x[0] == "list" and len(x[2]) == 1 and x[2][0][0] in ("rep", "one"):
        p = x[2][0]
        return not any(m[0] in ("slice", "unique") for m in x[3]) and not (p[0] == "rep" and any(contains(a, p[1][1][0]) for c in p[2:4] for a, b in c if p[1][0] == "tuple")) and pair(p[1], el, columns)
    if x[0] == "tuple" and len(x[1]) == 1:
        return pair(x[1][0], el, columns)
    return False


def pair(t, el, columns):
    return t[0] == "tuple" and len(t[1]) == 2 and (t[1][0][0] == "elem" and entire_cols(t[1][0][1], columns) or t[1][0] == columns) and value_of(t[1][1], el, t[1][0])


def listed(ck, D):
    """groups() lists every group once, after all records were looked at"""
    MAPPED, GROUPS = S("=mapped", "list"), S("=groups", "dict")
    for s0, r in D.over():
        o = s0.get(r[1])
        d = dict(o.d)
        if "_group_keys" not in d:
            return
        d["_group_keys"] = GROUPS
        s0 = s0.put(r[1], o._replace(d=d))
        D.stub = lambda I, st, f, args, kws: [(st, "v", MAPPED)] if I.callee_name(f).split(".")[-1] == "_map" else None
        for s1, k1, v in D.I.method(s0, r, "groups", ()):
            for s, k, _ in ck.took(D.I.drain(s1, v)) if k1 == "ret" else []:
                if k == "raise":
                    continue
                looked = [e for e in s.trace if e.kind == "iter" and e.args[0] is not None and contains(e.args[0], MAPPED)]
                gone = s.facts.get(("truth", MAPPED)) is False or looked and not left(s, k, MAPPED)
                ck.ob("groups", "first", gone, "groups are listed before all records were looked at", None, facts_path(s.facts))
                for el, ins in passes(s):
                    if el is None or not contains(el, GROUPS) or el[0] == "elem" and el[1] != GROUPS and not (el[1][0] == "call" and el[1][1][0] == "attr" and el[1][1][1] == GROUPS):
                        continue
                    if any(e.kind == "iter" and contains(e.args[0], el) for e in ins):
                        continue
                    outs = [e for e in ins if e.kind == "out"]
                    ck.ob("groups", "each", len(outs) == 1 and contains(D.I.freeze(s, outs[0].args[0]), GROUPS), "a group is not listed once with its columns", outs[0] if outs else None, [show(e.args[0]) for e in outs])
        D.stub = None


def collections(ck):
    """each record goes, whole, into the one collection of its value of the column"""
    I = ck.interp(keep_facts=True, ret_max=400, max_states=400, watch=lambda k, n: k in ("iter", "enditer", "mut", "call", "callx"), extra_pure=())
    ck.saw(CS + ".CollectedSet.__init__")
    some = False
    for s, k, r in ck.took(I.call(I.fresh(), I.value(CS + ".CollectedSet"), (ROWS, COL))):
        if k != "ret":
            continue
        for el in unfinished(s, k):
            ck.ob("collected", "all", not from_rows(el), "collecting stops early", None, facts_path(s.facts))
        for el, ins in turns_over_rows(s):
            some = True
            appends = [e for e in ins if e.kind == "mut" and e.name in ("append", "extend", "iadd") and contains(I.freeze(s, e.args[-1]), el)]
            ck.ob("collected", "once", len(appends) == 1, "a record is not put in exactly one collection", appends[-1] if appends else None, facts_path(s.facts))
            keyed = [e for e in ins if e.kind == "mut" and e.name in ("setdefault", "setitem") and contains(e.args[0], el)]
            ks = {e.args[0] for e in keyed} | {y[2] for e in appends for y in walk(e.recv) if y[0] == "item" and contains(y[2], el)} | {t[2] for t in s.facts if t[0] == "cmp" and t[1] == "in" and contains(t[2], el) and t[2] != el}
            for y in ks:
                ok = value_of(y, el, COL) or popped(y, el)
                ck.ob("collected", "key", ok, "a record is not collected under its value of the column", appends[-1] if appends else None, [show(y)])
            ck.ob("collected", "keyed", bool(ks), "a record is not collected under its value of the column", appends[-1] if appends else None, facts_path(s.facts))
    ck.ob("collected", "some", some, "nothing is collected", None)
    # choosing collections
    COLLECTIONS = S("=collections", "dict")
    for asked in (S("=names", "tuple"), S("=names", "list")):
        for s0, r in build(I, I.value(CS + ".CollectedSet"), (ROWS, COL), {})[:1]:
            o = s0.get(r[1])
            s0 = I.clear(s0.put(r[1], o._replace(d={**o.d, "_collections": COLLECTIONS}))).with_(facts={})
            for s, k, v in I.method(s0, r, "__getitem__", (asked,)):
                if k != "ret":
                    continue
                for el, ins in passes(s):
                    if el is None or not entire(el[1] if el[0] == "elem" else el, asked):
                        continue
                    there = [b for t, b in s.facts.items() if t[0] == "cmp" and t[1] == "in" and t[2] == el]
                    puts = [e for e in ins if e.kind == "mut" and e.name == "setitem" and e.args[0] == el]
                    ok = len(puts) == (1 if True in there or not there else 0) and all(e.args[1] in (("item", COLLECTIONS, el), ("get", COLLECTIONS, el)) or contains(e.args[1], COLLECTIONS) for e in puts)
                    ck.ob("chosen", "CollectedSet.__getitem__", ok, "a collection asked for is not taken over", puts[0] if puts else None, facts_path(s.facts))


def popped(y, el):
    """the copy's column, taken out of it"""
    if y[0] == "call" and y[1][0] == "attr" and y[1][2] == "pop" and y[2] in ((COL, NONE), (COL,)):
        return contains(y[1][1], el)
    return y[0] == "call" and y[1][0] == "attr" and y[1][2] == "get" and contains(y[1][1], el) and y[2][:1] == (COL,) and y[2][1:] in ((), (NONE,)) or y[0] in ("get", "item") and contains(y[1], el) and y[2] == COL


# ---------------------------------------------------------------------- C23
ALL = ("SUM", "MAX", "MIN", "COUNT", "AVG")
COL2 = S("other", "str")


def aggregation(ck):
    mapping(ck)
    for what in [((f, COL),) for f in ALL] + [(("COUNT", C("*")),), (("AVG", COL), ("SUM", COL)), (("COUNT", COL), ("AVG", COL)), (("SUM", COL), ("SUM", COL)), (("MAX", COL), ("MIN", COL2))]:
        aggregated(ck, what)
    shorthands(ck)
    ck.need("folds", 8)
    ck.need("starts", 8)
    ck.need("mapped", 4)
    ck.need("answer", 8)
    ck.need("shorthand", 6)


def mapping(ck):
    """every value that is there is handed on, once for each column, nulls are not"""
    COLLECT = S("=collect", "set")
    D = Grouped(ck)
    ck.saw(GB + "._map")
    for s0, r in D.over():
        for s1, k1, v in D.I.method(s0, r, "_map", (COLLECT,)):
            for s, k, _ in ck.took(D.I.drain(s1, v)) if k1 == "ret" else []:
                early = k == "raise"
                for el in unfinished(s, k):
                    ck.ob("mapped", "all", not (from_rows(el) or entire(el[1], COLLECT)), "going through the records and columns stops early", None, facts_path(s.facts))
                for c, ins in passes(s):
                    if c is None or c[0] != "elem" or not entire(c[1], COLLECT) or early:
                        continue
                    els = {e.args[0] for e in s.trace if e.kind == "iter" and e.args[0] is not None and from_rows(e.args[0])}
                    if len(els) != 1:
                        continue
                    el = next(iter(els))
                    outs = [e for e in ins if e.kind == "out"]
                    star = [b for t, b in s.facts.items() if t == ("cmp", "eq", c, C("*"))]
                    odd = [t for t, b in s.facts.items() if any(record_value(y, el) and contains(y, c) for y in walk(t)) and not (t[0] == "cmp" and t[1] in ("is", "eq") and NONE in t[2:4])]
                    null = [b for t, b in s.facts.items() if t[0] == "cmp" and t[1] in ("is", "eq") and t[3] == NONE and record_value(t[2], el) and contains(t[2], c)]
                    ck.ob("mapped", "nulls", not odd, "whether a value counts depends on more than whether it is null", ins[-1] if ins else None, facts_path(s.facts))
                    if star == [True]:
                        ok = len(outs) == 1
                    else:
                        ok = len(outs) == (0 if null == [True] else 1)
                        ok = ok and (not outs or null == [False] and outs[0].args[0][0] == "tuple" and len(outs[0].args[0][1]) == 3 and record_value(outs[0].args[0][1][2], el) and contains(outs[0].args[0][1][2], c))
                    ok = ok and all(e.args[0][0] == "tuple" and e.args[0][1][1] == c for e in outs)
                    ck.ob("mapped", "values", ok, "a record's value is not handed on once if it is not null", outs[0] if outs else (ins[-1] if ins else None), [show(e.args[0]) for e in outs] + facts_path(s.facts))


def named(f, col):
    return cat([C(f + "("), col, C(")")])


def aggregated(ck, what):
    MAPPED, GROUPS = S("=mapped", "list"), S("=groups", "dict")
    D = Grouped(ck, keep="loops" if len(what) == 1 else True)
    ck.saw(GB + ".aggregate")
    label = "+".join(f"{f}" for f, c in what)
    asked = []

    def stub(I, st, f, args, kws):
        if I.callee_name(f).split(".")[-1] == "_map":
            asked.append(I.freeze(st, args[-1] if args else kws.get("collect_columns", NONE)))
            return [(st, "v", MAPPED)]
        return None
    D.stub = stub
    folded, started, answered = set(), set(), False
    distinct = list(dict.fromkeys(what))
    wanted = list(dict.fromkeys([w for w in distinct if w[0] != "AVG"] + [(g, c) for f, c in distinct if f == "AVG" for g in ("SUM", "COUNT")]))
    for s0, r in D.over():
        o = s0.get(r[1])
        s0 = s0.put(r[1], o._replace(d={**o.d, "_group_keys": GROUPS}))
        s0, L = D.I.new_list(s0, ("given",), "list", tuple(("one", ("tuple", (C(f), c))) for f, c in what))
        for s1, k1, v in D.I.method(s0, r, "aggregate", (L,)):
            if k1 != "ret":
                ck.ob("accepted", label, False, "an aggregation that can be calculated is refused", None, [show(v)])
                continue
            for s, k, _ in ck.took(D.I.drain(s1, v)):
                muts = [e for e in s.trace if e.kind == "mut" and e.recv == L]
                ck.ob("caller", label, not muts, "the caller's list of aggregations is changed", muts[0] if muts else None)
                if k == "raise":
                    continue
                for el in unfinished(s, k):
                    ck.ob("folds", label, el[1] != MAPPED, "going through the values stops early", None, facts_path(s.facts))
                for el, ins in passes(s):
                    if el is not None and el[0] == "elem" and el[1] == MAPPED:
                        for w in wanted:
                            one_value(ck, s, el, ins, w, folded, started, label)
                    elif el is not None and any(e.kind == "out" for e in ins) and not contains(el, MAPPED):
                        answered = True
                        answer(ck, D.I, s, el, ins, what, GROUPS, label)
    for w in wanted:
        name = f"{label}:{w[0]}"
        ck.ob("folds", name, w in folded, "values are not aggregated with what was there before", None)
        ck.ob("starts", name, w in started or w[0] == "COUNT" and w in folded, "the first value is not taken up", None)
        ck.ob("collects", name, any(contains(a, w[1]) for a in asked), "the column is not collected", None, [show(a) for a in asked[:3]])
    ck.ob("answer", label, answered, "nothing comes out", None)
    D.stub = None


def one_value(ck, s, el, ins, w, folded, started, label):
    """one value dealt with for one of the aggregations"""
    f, col = w
    key = named(f, col)
    puts = [e for e in ins if e.kind == "mut" and e.name == "setitem" and e.args[0] == key]
    val = ("item", el, C(2))
    grp = ("item", el, C(0))
    about = [(t, b) for t, b in s.facts.items() if t[0] == "cmp" and t[1] == "eq" and {t[2], t[3]} == {("item", el, C(1)), col}]
    mine = [b for t, b in about]
    exist = {y for t in list(s.facts) + [e.args[1] for e in puts] for y in walk(t) if y[0] == "call" and y[1][0] == "attr" and y[1][2] == "get" and y[2][:1] == (key,) or y[0] in ("item", "get") and y[2] == key}
    exist = {y for y in exist if contains(y, el)} or {y for y in exist if any(z[0] == "ref" for z in walk(y))}
    blank = s.facts.get(("cmp", "eq", val, C("")))
    name = f"{label}:{f}"
    if False in mine:
        ck.ob("own-column", name, not puts, "a value of another column is counted", puts[0] if puts else None, facts_path(s.facts))
        return
    ck.ob("once", name, len(puts) <= 1, "a value is counted more than once", puts[-1] if puts else None, facts_path(s.facts))
    if len(puts) > 1:
        return
    if not puts:
        if mine == [True] and not any(e.kind == "mut" and e.name == "setitem" for e in ins) and (f == "COUNT" or blank is not True):
            ck.ob("counted", name, False, "a value is not taken into account", ins[-1] if ins else None, facts_path(s.facts))
        elif not mine and any(not b and t[0] == "cmp" and t[1] == "eq" and ("item", el, C(1)) in t[2:4] for t, b in s.facts.items()):
            ck.ob("counted", name, False, "a value is not looked at for each aggregation", ins[-1] if ins else None, facts_path(s.facts))
        return
    ck.ob("counted", name, mine == [True], "a value is counted whatever its column", puts[0], facts_path(s.facts))
    e = puts[0]
    recv = e.recv
    ck.ob("own-group", name, contains(recv, grp) if recv[0] != "ref" else True, "a value is counted in another group", e, [show(recv)])
    x = e.args[1]
    none = odd = there = None
    for t, b in s.facts.items():
        if any(contains(t, y) for y in exist):
            y = t[2] if t[0] == "cmp" else None
            if t[0] == "cmp" and t[1] in ("is", "eq") and t[3] == NONE or t[0] == "cmp" and t[1] == "eq" and t[3] == C(""):
                none = True if b else none
                there = True if not b and t[3] == NONE else there
            elif f == "COUNT" and t[0] == "truth":
                none, there = (True, there) if not b else (none, True)
            else:
                odd = t
        elif t[0] == "cmp" and t[1] == "in" and t[2] == key:
            none = True if not b else none
            there = True if b else there
        elif contains(t, val) and not (t[0] == "cmp" and t[1] in ("eq", "is") and t[3] in (C(""), NONE)):
            odd = t
    ck.ob("zeros", name, odd is None, "whether a value counts depends on more than whether it is blank", e, [show(odd)] if odd else None)
    if f == "COUNT":
        inc = x[0] == "bin" and x[1] == "+" and C(1) in x[2:4]
        if inc and any(contains(x, y) for y in exist):
            folded.add(w)
            y = x[2] if x[3] == C(1) else x[3]
            dflt = y[2][1:] == (C(0),) if y[0] == "call" else False
            ok = y in exist and (none is not True or dflt)
        elif x == C(1) or inc and x == ("bin", "+", C(0), C(1)):
            started.add(w)
            ok = there is not True or none is True
        else:
            ok = False
        ck.ob("folds", name, ok, "counting does not add one for each value", e, [show(x)] + facts_path(s.facts))
        return
    if x == val:
        started.add(w)
        ck.ob("starts", name, not ((there or blank and "+" not in label) and none is not True), "what was aggregated before is lost", e, [show(x)] + facts_path(s.facts))
    elif x in exist:
        ck.ob("folds", name, blank is True, "a value is left out", e, [show(x)] + facts_path(s.facts))
    else:
        folded.add(w)
        ok = none is not True and blank is not True and combines(f, x, val, exist)
        ck.ob("folds", name, ok, "a value is not combined with what was there before", e, [show(x)] + facts_path(s.facts))


def number_of(t):
    while t[0] == "call" and t[1][0] == "ext" and len(t[2]) == 1 and t[1][1] in ("decimal.Decimal", "builtins.float", "fractions.Fraction"):
        t = t[2][0]
    return t


def combines(f, x, val, exist):
    if f == "SUM":
        return x[0] == "bin" and x[1] == "+" and (number_of(x[2]) in exist and number_of(x[3]) == val or number_of(x[3]) in exist and number_of(x[2]) == val)
    fn = {"MAX": "max", "MIN": "min"}.get(f)
    if x[0] == "call" and x[1] == ("ext", "builtins." + str(fn)):
        args = x[2]
        if len(args) == 1 and args[0][0] in ("list", "tuple"):
            args = tuple(p[1] for p in args[0][2]) if args[0][0] == "list" else args[0][1]
        return val in args and any(a in exist for a in args) and len(args) == 2 and all(n == "default" for n, _ in x[3])
    return False


def answer(ck, I, s, el, ins, what, GROUPS, label):
    outs = [e for e in ins if e.kind == "out"]
    for e in outs:
        x = I.freeze(s, e.args[0])
        got = known_keys(x)
        for f, col in what:
            key = named(f, col)
            v = got.get(key)
            ok = v is not None
            if ok and f == "AVG":
                ok = average(s, v, col, key)
            elif ok:
                ok = v[0] == "call" and v[1][0] == "attr" and v[1][2] == "get" and v[2][:1] == (key,) and v[2][1:] in ((), (NONE,)) or v[0] in ("item", "get") and v[2] == key
            ck.ob("answer", f"{label}:{f}", ok, f"a group's {f}(column) is not what was aggregated for it", e, [show(v) if v else "missing"] + facts_path(s.facts))
        odd = [t for t, b in list(s.facts.items()) + [y for p in (x[3] if x[0] == "dict" else ()) if contains(p[1], GROUPS) for c in p[3:5] for y in c] if any(y[0] == "item" and y[2] == C(1) and y[1][0] == "elem" and contains(y, GROUPS) for y in walk(t))]
        ck.ob("answer", label + ":group", not odd, "whether a group's column is in its answer depends on its value", e, [show(t) for t in odd])
        grp = [t for t, b in s.facts.items() if t[0] == "truth" and contains(t, GROUPS)]
        if all(s.facts[t] is not False for t in grp):
            ok = any(p[0] == "kv" and contains(p[1], GROUPS) and contains(p[2], GROUPS) for p in (x[3] if x[0] == "dict" else ())) or any(m.kind == "mut" and m.name in ("setitem", "update") and all(contains(a, GROUPS) for a in m.args) for m in ins) or contains(x, GROUPS)
            ck.ob("answer", label + ":group", ok, "a group's columns are not in its answer", e, [show(x)])
    ck.ob("answer", label, len(outs) == 1, "a group does not have one answer", outs[-1] if outs else None)


def known_keys(x):
    """what a dict is known to hold, looking through what it was put together from"""
    if x[0] == "call" and x[1] == ("ext", "#merge"):
        return {**known_keys(x[2][0]), **known_keys(x[2][1])}
    if x[0] != "dict":
        return {}
    got = {**known_keys(x[2]), **dict(x[1])}
    for p in x[3]:
        if not p[3] and not p[4]:
            got[p[1]] = p[2]
    return got


def average(s, v, col, key):
    """sum by count, of the same column"""
    def part(t, f):
        t = number_of(t)
        k = named(f, col)
        return t[0] in ("item", "get") and t[2] == k or t[0] == "call" and t[1][0] == "attr" and t[1][2] == "get" and t[2][:1] == (k,)
    if v[0] == "bin" and v[1] == "/":
        return part(v[2], "SUM") and part(v[3], "COUNT")
    none = any(b is False and t[0] == "truth" and contains(t, named("COUNT", col)) or b is True and t[0] == "cmp" and NONE in t[2:4] and (contains(t, named("COUNT", col)) or contains(t, named("SUM", col))) for t, b in s.facts.items())
    return none and (v == NONE or v[0] == "call" and v[1][0] == "attr" and v[1][2] == "get" and v[2][:1] == (key,) or v[0] in ("get", "item") and v[2] == key)


def shorthands(ck):
    """max(columns) and the like ask for that aggregation of each column"""
    for name, f in (("max", "MAX"), ("min", "MIN"), ("sum", "SUM"), ("average", "AVG"), ("count", "COUNT")):
        for cols in ([COLS, S("columns", "set"), COL] if name != "count" else [None]):
            D = Grouped(ck)
            ck.saw(GB + "." + name)
            calls = []

            def stub(I, st, fn, args, kws):
                if I.callee_name(fn).split(".")[-1] == "aggregate":
                    calls.append(I.freeze(st, args[-1] if args else kws.get("aggregations", NONE)))
                    return [(st, "v", S("=answer"))]
                return None
            D.stub = stub
            for s0, r in D.over()[:1]:
                for s, k, v in ck.took(D.I.method(s0, r, name, (cols,) if cols else ())):
                    v = D.I.freeze(s, v)
                    ck.ob("shorthand", name, k == "ret" and v == S("=answer"), "what was aggregated is not what comes back", None, [show(v)])
            for a in calls:
                want = COL if cols == COL else None
                if name == "count":
                    t = ("tuple", (C("COUNT"), C("*")))
                    ok = a == t or a[0] == "list" and [p[1] for p in a[2]] == [t]
                elif cols == COL:
                    ok = a == ("tuple", (C(f), COL)) or a[0] == "list" and [p[1] for p in a[2]] == [("tuple", (C(f), COL))]
                else:
                    ok = a[0] == "list" and len(a[2]) == 1 and a[2][0][0] == "rep" and not a[2][0][2] and not a[2][0][3] and a[2][0][1][0] == "tuple" and a[2][0][1][1][0] == C(f) and a[2][0][1][1][1][0] == "elem" and entire(a[2][0][1][1][1][1], cols)
                ck.ob("shorthand", name, ok, f"{name} does not aggregate each column asked for with {f}", None, [show(a)])
            ck.ob("shorthand", name, bool(calls), "nothing is aggregated", None)
