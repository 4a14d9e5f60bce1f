"""C42 - records and arguments the caller hands over are never changed."""
from ..rulelib import *
from .wlib import HELPERS, INNER, SIMPLE, BATCH, STREAM, DBW, BLOB, POOL, make, havoc_all
from .dictsets import Sets, ROWS, DS

REC = S("=record", "dict")
COLUMNS, NAMES = S("=columns", "list"), S("=names", "tuple")
FILTERS = S("=filters", "list")
RECORDS = "mabel.data.internals.records."
CHANGES = {"setitem", "delitem", "append", "extend", "iadd", "update", "pop", "popitem", "clear", "setdefault", "sort", "insert", "remove",
           "reverse", "add", "discard", "__setitem__", "__delitem__", "move_to_end", "difference_update", "intersection_update"}
SHALLOW = {"copy", "items", "values", "keys", "distinct", "take", "itake", "sort_and_take", "filter", "sample", "get_items"}
SAME = {"builtins.dict", "builtins.list", "builtins.tuple", "builtins.set", "builtins.sorted", "builtins.reversed", "builtins.iter", "builtins.enumerate",
        "builtins.zip", "copy.copy", "builtins.next", "builtins.filter"}


def holder(t, roots):
    """something whose members are the caller's: the object itself or a shallow copy of it"""
    if owned(t, roots):
        return True
    if t[0] == "call":
        f = t[1]
        if f[0] == "attr" and f[2] in SHALLOW:
            return holder(f[1], roots)
        if f[0] == "ext" and f[1] in SAME:
            return any(holder(a, roots) for a in t[2])
    return False


def owned(t, roots):
    """is this very object the caller's (or part of it)?"""
    if t in roots:
        return True
    k = t[0]
    if k in ("elem", "item", "get"):
        return holder(t[1], roots)
    if k == "attr":
        return owned(t[1], roots)
    if k == "call":
        f = t[1]
        if f[0] == "attr" and f[2] in ("get", "__getitem__", "pop", "setdefault", "first"):
            return holder(f[1], roots)
        if f == ("ext", "builtins.next") or f == ("ext", "builtins.getattr"):
            return any(holder(a, roots) for a in t[2][:1])
    return False


def judge(ck, I, label, outs, roots, what):
    n = 0
    for s, k, v in outs:
        n += 1
        for e in s.trace:
            name = e.name[1:] if isinstance(e.name, str) and e.name.startswith(".") else e.name
            if e.kind == "set" or (e.kind in ("mut", "call", "callx") and name in CHANGES):
                r = e.recv
                if r is None:
                    continue
                if r[0] == "ref" and r not in roots:
                    continue
                if owned(r, roots):
                    ck.ob("left-alone", label, False, f"{label} changes {what} it was given ({show(r)[:80]}: {name})", e, steps(s))
    ck.ob("left-alone", label, True, "")
    ck.ob("reached", label, n > 0, f"{label} was not analysed", None)


WATCH = lambda k, n: k in ("mut", "set", "call", "callx")


def run(ck):
    helpers(ck)
    operations(ck)
    schema(ck)
    writers(ck)
    evaluators(ck)
    ck.need("left-alone", 40)


def helpers(ck):
    I = ck.interp(watch=WATCH, keep_facts=True, ret_max=200)
    st = I.fresh()
    for name, args in (("select_record_fields", (REC, COLUMNS)), ("order", (REC,)), ("set_value", (REC, S("field", "str"), S("setter"))), ("flatten", (REC,))):
        ck.saw(RECORDS + name)
        judge(ck, I, f"records.{name}", ck.took(I.call(st, I.value(RECORDS + name), args, {})), {REC, COLUMNS}, "the record")
    for fn in ("html_table", "ascii_table"):
        q = "mabel.data.internals.display." + fn
        ck.saw(q)
        judge(ck, I, f"display.{fn}", ck.took(I.call(st, I.value(q), (ROWS, S("limit", "nat")), {})), {ROWS}, "the records")


KEY = S("key", "str")
NUMBERS = ("max", "sum", "min", "min_max", "mean", "variance", "standard_deviation")


def operations(ck):
    D = Sets(ck, watch=WATCH, stop={"html_table", "ascii_table"})
    PRED = S("predicate")

    def which(st, f, args, kw):
        return [(st, "v", FALSE)] if args and args[0] == PRED else None
    D.more["isinstance"] = which
    roots = {ROWS, COLUMNS, NAMES, FILTERS}
    calls = [("__iter__", ()), ("sample", (S("fraction"),)), ("collect_list", ()), ("collect_list", (KEY,)), ("keys", ()), ("types", ()), ("count", ()), ("distinct", ()),
             ("distinct", (("star", NAMES),)), ("get_items", (("star", S("=locs", "tuple")),)), ("first", ()), ("take", (S("n", "nat"),)), ("itake", (S("n", "nat"),)),
             ("select", (COLUMNS,)), ("select", (NAMES,)), ("select", (KEY,)), ("sort_and_take", (KEY, S("n", "nat"), S("descending"))), ("filter", (PRED,)),
             ("__hash__", ()), ("__getitem__", (COLUMNS,)), ("to_ascii_table", (S("limit", "nat"),)), ("to_html_table", (S("limit", "nat"),)), ("to_pandas", ())]
    calls += [(n, (KEY,)) for n in NUMBERS]
    for sc in ("MEMORY", "NO_PERSISTANCE"):
        for name, args in calls:
            try:
                outs = []
                for s, k, v, r in D.method(sc, name, args):
                    if k != "ret":
                        outs.append((s, k, v))
                        continue
                    if v is not None and v[0] == "tuple" and v[1] and v[1][0] == C("dictset"):
                        v = v[1][1]
                    if v is not None and v[0] in ("ref", "gen", "call"):
                        outs += [(s3, k3, v3) for s3, k3, v3 in D.I.drain(s, v)]
                    else:
                        outs.append((s, k, v))
                judge(ck, D.I, f"DictSet.{name}[{sc}]", outs, roots, "the records")
            except AnalysisError:
                raise
    I = ck.interp(watch=WATCH, keep_facts=True, ret_max=300, max_states=300)
    for dd in (FALSE, TRUE):
        q = "mabel.data.internals.collected_set.CollectedSet"
        ck.saw(q + ".__init__")
        judge(ck, I, "CollectedSet", ck.took(I.call(I.fresh(), I.value(q), (ROWS, KEY), {"dedupe": dd})), roots, "the records")
    q = "mabel.data.internals.group_by.GroupBy"
    ck.saw(q + ".__init__", q + ".aggregate", q + ".groups", q + "._map")
    for ms, stop in ((("aggregate",), {"_map"}), (("groups", "count", "_map"), ())):
        I = ck.interp(watch=WATCH, keep_facts=True, ret_max=300, max_states=300, stop=stop)
        for cols in (COLUMNS, KEY):
            for s, r in shapes(I, build(I, I.value(q), (ROWS, cols), {}), 2):
                for m in ms:
                    s2, l, a = I.clear(s), ROWS, ()
                    if m == "aggregate":
                        s2, l = I.new_list(s2, "asked", "list", (("one", ("tuple", (C("AVG"), KEY))), ("one", ("tuple", (C("MAX"), KEY)))))
                        a = (l,)
                    elif m == "_map":
                        a = (S("=collect", "set"),)
                    outs = []
                    for s3, k3, v3 in ck.took(I.method(s2, r, m, a)):
                        outs += [(x, y, z) for x, y, z in I.drain(s3, v3)] if k3 == "ret" and v3[0] == "ref" else [(s3, k3, v3)]
                    judge(ck, I, f"GroupBy.{m}", outs, roots | {l, S("=collect", "set")}, "the records, the columns or the aggregations")


def schema(ck):
    I = ck.interp(watch=WATCH, keep_facts=True, ret_max=100)
    q = "mabel.data.validator.schema_loader"
    f = I.value(q)
    ck.saw(q)
    for d in (S("=schema", "dict"), S("=schema", "list")):
        judge(ck, I, f"schema_loader({d[2]})", ck.took(I.call(I.fresh(), f, (d,), {})), {d}, "the schema")


def writers(ck):
    I = ck.interp(watch=WATCH, ret_max=200, stop=HELPERS | {"pool_attendant"})
    for fmt in ("jsonl", "text", "flat", "parquet"):
        for s0, ref in shapes(I, build(I, I.value(BLOB), (), {"inner_writer": INNER, "format": C(fmt), "schema": S("schema")}), 2):
            judge(ck, I, f"BlobWriter.append[{fmt}]", ck.took(I.method(I.clear(s0), ref, "append", (REC,))), {REC}, "the record")
    for q, short in ((SIMPLE, "Writer"), (BATCH, "BatchWriter"), (STREAM, "StreamWriter"), (DBW, "DatabaseWriter")):
        good = make(I, q, "jsonl") if q != DBW else build(I, I.value(DBW), (), {"schema": S("schema"), "inner_writer": INNER, "dataset": S("dataset", "str"), "set_of_expectations": S("expectations")})
        ck.saw(q + ".append")
        for s0, ref in shapes(I, good, 1):
            judge(ck, I, f"{short}.append", ck.took(I.method(I.clear(s0), ref, "append", (REC,))), {REC}, "the record")


def evaluators(ck):
    I = ck.interp(watch=WATCH, keep_facts=True, ret_max=300, max_states=300, stop={"parse_iso"})
    q = "mabel.data.internals.dnf_filters."
    ck.saw(q + "DnfFilters.filter_dictset", q + "evaluate")
    for s, r in shapes(I, build(I, I.value(q + "DnfFilters"), (FILTERS,), {}), 2):
        s = I.clear(s)
        outs = []
        for s3, k3, v3 in ck.took(I.method(s, r, "filter_dictset", (ROWS,))):
            outs += list(I.drain(s3, v3)) if k3 == "ret" else [(s3, k3, v3)]
        judge(ck, I, "DnfFilters.filter_dictset", outs, {ROWS, FILTERS}, "the records or the filters")
        judge(ck, I, "DnfFilters.__call__", ck.took(I.method(s, r, "__call__", (REC,))), {REC, FILTERS}, "the record or the filters")
    q = "mabel.data.readers.internals.inline_evaluator.Evaluator"
    ck.saw(q + ".__call__")
    TOK = S("=tokens", "list")
    r = None
    st = I.fresh()
    st, r = st.new("evaluator", Obj("inst", q, {"tokens": TOK, "proforma": S("proforma", "str"), "iter": NONE}, None))
    judge(ck, I, "Evaluator.__call__", ck.took(I.method(st, r, "__call__", (REC,))), {REC}, "the record")
    q = "mabel.data.internals.expression.Expression"
    ck.saw(q + ".evaluate")
