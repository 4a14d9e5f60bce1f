"""C10 what a writer writes a reader reads, C19 filtering, C38 flattening."""
from ..rulelib import *
from .adapters import instances, concrete
from .buffering import BW, FORMATS, REC, is_storage_commit, payload

PR = "mabel.data.readers.internals.parallel_reader"
STREAM, LINE = S("stream"), S("line")
COLS, FILT, RED, RC, BLOB = S("=cols"), S("=filt"), S("=red"), S("rc"), S("blob", "str")
# what unpacks each kind of file
CODEC = {".zstd": ("zstandard",), ".lzma": ("lzma",), ".zip": ("zipfile",), ".parquet": ("pyarrow", "pandas", "polars"), ".csv": ("csv",)}
CODECS = tuple(x for v in CODEC.values() for x in v) + ("gzip", "bz2", "lz4", "zlib")
JSONS = (".json", ".jsonl", ".zstd", ".lzma")
NARROWING = {"head", "readline", "islice", "takewhile", "dropwhile", "compress", "read_row_group", "slice", "take", "set", "sample"}


def facts_path(f):
    return [f"{'' if b else 'not '}{show(t, 6)}"[:200] for t, b in f.items()][:8]


def table(I):
    ext = I.value(PR + ".KNOWN_EXTENSIONS")
    o = I.fresh().get(ext[1]) if ext[0] == "ref" else None
    if o is None or o.kind != "dict" or not o.d:
        raise AnalysisError("KNOWN_EXTENSIONS is not a dictionary that can be read off the source")
    out = {}
    for k, v in o.d.items():
        v = I.freeze(I.fresh(), v)
        k = k[2] if isinstance(k, tuple) else k
        if v[0] != "tuple" or len(v[1]) < 3:
            raise AnalysisError(f"KNOWN_EXTENSIONS[{k}] is not a decoder, parser, type")
        out[k] = v[1]
    return out, ext


def whole(t, narrow=None):
    """does t hold the whole of the stream's content (or one of the pieces the whole was cut into)?"""
    if t == STREAM:
        return True
    k = t[0]
    if k == "elem":
        return whole(t[1])
    if k == "item":
        if t[2][0] == "slice":
            if t[2][1:] == (NONE, NONE, NONE):
                return whole(t[1])
            # the empty piece behind the last newline
            return t[2][1] in (NONE, C(0)) and t[2][2] == C(-1) and t[2][3] == NONE and t[1][0] == "call" and t[1][1][0] == "attr" and t[1][1][2] == "split" and whole(t[1])
        return False
    if k == "call":
        f = t[1]
        args = tuple(t[2]) + tuple(v for _, v in t[3])
        name = f[2] if f[0] == "attr" else (f[1].split(".")[-1] if f[0] == "ext" else "")
        if name in NARROWING:
            return False
        if name in ("read", "readlines", "read1"):
            # all of it
            if f[0] == "attr" and f[1][0] == "call" and args and not all(a in (NONE, C(-1)) for a in args):
                return "zipfile" in repr(f[1]) and whole(f[1]) and any(whole(a) for a in args)
            return f[0] == "attr" and whole(f[1]) and all(a in (NONE, C(-1)) for a in args)
        if any(n in ("columns", "filters", "n", "nrows", "max_rows", "max_length", "row_groups", "maxsplit", "skip_rows") for n, v in t[3] if v != NONE):
            return False
        if name in ("split", "rsplit") and len(t[2]) > 1:
            return False
        if f[0] == "attr" and f[1][0] != "ext":
            return whole(f[1])
        return any(whole(a) for a in args)
    if k == "attr":
        return whole(t[1])
    if k == "list":
        return len(t[2]) == 1 and not any(m[0] == "slice" for m in t[3]) and (t[2][0][0] == "star" and whole(t[2][0][1]) or t[2][0][0] == "rep" and whole(t[2][0][1]) and not t[2][0][2])
    return False


def passes(s):
    """the loop turns of a finished path: (element, events inside, index of the end)"""
    open_, out = [], []
    for i, e in enumerate(s.trace):
        if e.kind == "iter":
            open_.append((i, e.args[0] if e.args else None))
        elif e.kind == "enditer":
            for j in range(len(open_) - 1, -1, -1):
                if not e.args or open_[j][1] == e.args[0]:
                    a, el = open_[j]
                    del open_[j:]
                    out.append((el, s.trace[a + 1:i]))
                    break
    return out


# ---------------------------------------------------------------------- C19
def filtering(ck):
    prog = ck.prog
    pipe(ck)
    decoders(ck)
    made(ck)
    dnf(ck)
    dictset_filter(ck)


def told(s, value):
    """what the filter said about value on this path"""
    return s.facts.get(("truth", ("opq", "filt", value)))


def pipe(ck):
    rows = S("=rows", "list")

    def oc(I, st, f, args, kw, fr, node):
        if f == COLS:
            return [(st, "v", ("opq", "cols", I.freeze(st, args[0])))]
        if f == FILT:
            return [(st, "v", ("opq", "filt", I.freeze(st, args[0])))]
        if f == RED:
            return [(st, "v", args[0])]
        part = which(f)
        if part == 0:
            return [(st, "v", ("opq", "decoded", I.freeze(st, args[0]) if args else NONE))]
        if part == 1:
            return [(st, "v", ("opq", "parsed", I.freeze(st, args[0]) if args else NONE))]
        return None
    I = ck.interp(on_call=oc, keep_facts=True, ret_max=400, max_states=400, watch=lambda k, n: k in ("call", "out", "iter", "enditer"))
    K = I.value(PR + ".ParallelReader")
    ck.saw(PR + ".ParallelReader.__call__")
    kw = dict(reader=RC, filters=FILT, columns=COLS, reducer=RED, override_format=NONE)
    for s, r in shapes(I, build(I, K, (), kw), 2):
        outs = []
        for s2, k, v in I.method(I.clear(s), r, "__call__", (BLOB, S("ix", "list"))):
            outs += ck.took(I.drain(s2, v)) if k == "ret" else [(s2, k, v)]
        for s2, k, v in outs:
            for e in (e for e in s2.trace if e.kind == "out"):
                x = e.args[0]
                ok = x[0] == "opq" and x[1] == "cols" and x[2][0] == "opq" and x[2][1] == "parsed"
                ck.ob("passed-on", "ParallelReader", ok, "what comes out of a blob is not the parsed record with its columns selected", e, [show(x)])
                ck.ob("accepted", "ParallelReader", told(s2, x) is True, "a record comes out that the filter did not accept", e, facts_path(s2.facts))
                if ok:
                    el = x[2][2]
                    ok = el[0] == "elem" and el[1] == ("opq", "decoded", el[1][2] if el[1][0] == "opq" else NONE) and read_of(el[1])
                    ck.ob("from-blob", "ParallelReader", ok, "what is parsed is not what was decoded from the blob's content", e, [show(el)])
            for el, inside in passes(s2):
                n = [e for e in inside if e.kind == "out"]
                val = ("opq", "cols", ("opq", "parsed", el))
                if el is None or not any_term(el, lambda t: t[0] == "opq" and t[1] == "decoded"):
                    continue
                said = told(s2, val)
                if k != "raise":
                    ck.ob("only-rejected-dropped", "ParallelReader", len(n) == 1 and said is True or not n and said is False, "a record of the blob is dropped (or repeated) although the filter did not reject it", inside[-1] if inside else None, facts_path(s2.facts))
    # known files are never skipped
    ck.need("only-rejected-dropped", 2)
    ck.need("accepted", 1)
    ck.need("from-blob", 1)


def which(f):
    """0: the decoder, 1: the parser picked from the table for the blob"""
    if f[0] == "item" and f[1][0] == "item" and f[2] in (C(0), C(1)):
        return f[2][2]
    if f[0] == "item" and f[1][0] == "call" and f[2] in (C(0), C(1)):
        return f[2][2]
    return None


def read_of(t):
    x = t[2] if len(t) > 2 else NONE
    return x[0] == "call" and x[1][0] == "attr" and x[1][2] == "read_blob" and x[1][1] == RC and BLOB in tuple(x[2]) + tuple(v for _, v in x[3])


def decoders(ck):
    """each decoder yields everything in the file"""
    I = ck.interp(keep_facts=True, ret_max=400, max_states=400, watch=lambda k, n: k in ("call", "out", "iter", "enditer"))
    tab, ref = table(I)
    done = {}
    for ext, (dec, parser, kind) in sorted(tab.items()):
        if "DATA" not in repr(kind):
            continue
        name = dec[1].split(".")[-1] if dec[0] in ("fn", "ext") else ext
        ck.saw(dec[1] if dec[0] in ("fn", "ext") else ext)
        if dec in done:
            continue
        done[dec] = True
        outs = []
        for s, k, v in I.call(I.fresh(), dec, (STREAM,)):
            outs += ck.took(I.drain(s, v)) if k == "ret" else []
        some = False
        for s, k, v in outs:
            for e in (e for e in s.trace if e.kind == "out"):
                some = True
                x = e.args[0]
                inner = nested(x)
                if inner is not None:
                    dec_arg, same = inner
                    ck.ob("whole-file", name, same and whole(dec_arg), "a file inside the file is not decoded and parsed as its extension says", e, [show(x, 8)[:300]])
                else:
                    ck.ob("whole-file", name, whole(x), "the decoder does not hand on the whole content of the file", e, [show(x, 8)[:300]])
            if k == "raise":
                continue
            for el, inside in passes(s):
                if el is None or any(e.kind == "out" for e in inside) or any(e.kind == "iter" for e in inside):
                    continue
                why = [t for t, b in s.facts.items() if b is False and (t == ("truth", el) or t[0] == "truth" and any_term(t[1], lambda x: x == el) or t[0] == "cmp" and t[1] == "in" and contains(t, el) and ref in walk(t))] \
                    + [t for t, b in s.facts.items() if b is True and t[0] == "cmp" and t[1] == "eq" and contains(t, el) and any(x in (C(b""), C("")) for x in t[2:4])]
                ck.ob("every-piece", name, why, "a piece of the file is not handed on", inside[-1] if inside else None, facts_path(s.facts))
        ck.ob("yields", name, some, "the decoder yields nothing", None)
    ck.need("whole-file", 6)


def nested(x):
    """a line of a file within the file -> (what was decoded, decoder and parser of the same extension)"""
    if not any(y[0] == "call" and which(y[1]) == 0 for y in walk(x)):
        return None
    if x[0] != "call" or which(x[1]) is None:
        return (NONE, False)
    parser, a = x[1], x[2][0] if x[2] else NONE
    if which(parser) != 1 or a[0] != "elem" or a[1][0] != "call" or which(a[1][1]) != 0:
        return (a, False)
    dec = a[1]
    return (dec[2][0] if dec[2] else NONE, dec[1][1] == parser[1])


def made(ck):
    """the filter the reader was given is the filter applied"""
    from . import resume
    EXPR, DNF = "mabel.data.internals.expression.Expression", "mabel.data.internals.dnf_filters.DnfFilters"
    for label, given, kind in (("text", S("filters", "str"), EXPR), ("dnf", S("filters", "list"), DNF), ("tuple", S("filters", "tuple"), DNF), ("none", NONE, None)):
        seen = []

        def oc(I, st, f, args, kw, fr, node):
            if f in (("cls", EXPR), ("cls", DNF)):
                return [(st, "v", ("opq", "made", f[1], I.freeze(st, args[0]) if args else (dict(kw).get("filters") or dict(kw).get("exp") or NONE)))]
            n = I.callee_name(f).split(".")[-1]
            if n == "get_logger":
                return [(st, "v", S("=log"))]
            if n in ("ParallelReader",):
                seen.append((st, kw.get("filters", args[1] if len(args) > 1 else None)))
                return [(st, "v", S("=parallel", "none-of"))]
            if n in ("Cursor",):
                return [(st, "v", S("=cursor"))]
            if n == "next_blob":
                return [(st, "v", NONE)]
            if n == "processed_reader":
                return [(st, "v", S("=processed", "list"))]
            return None
        I = ck.interp(on_call=oc, keep_facts=True, watch=lambda k, n: False, extra_pure=())
        L = I.value(resume.LOWLEVEL)
        kw = dict(reader_class=RC, freshness_limit=S("fresh"), select=C("*"), override_format=NONE, multiprocess=S("multi", "bool"), cursor=NONE, filters=given)
        for s, r in shapes(I, build(I, L, (), kw), 4):
            for s2, k, v in I.method(I.clear(s), r, "_create_line_reader", ()):
                if k == "ret":
                    ck.took(I.drain(s2, v))
        if not seen:
            raise AnalysisError("the reader builds no ParallelReader")
        ck.saw(resume.LOWLEVEL + ".__init__")
        for st, f in seen:
            if f is not None and f[0] == "partial":
                f = I.freeze(st, f)
            if kind is None:
                ok = f is None or always_true(I, st, f)
                ck.ob("no-filter", "_LowLevelReader", ok, "records are filtered although no filter was given", None, [show(f) if f else ""])
            else:
                ok = f is not None and any_term(I.freeze(st, f), lambda t: t == ("opq", "made", kind, given)) or st.facts.get(("truth", ("opq", "made", kind, given))) is False or st.facts.get(("truth", given)) is False
                ck.ob("filter-applied", "_LowLevelReader", ok, f"a {label} filter given to the reader is not the one applied", None, [show(f) if f else "none"])
    ck.need("filter-applied", 3)
    ck.need("no-filter", 1)


def always_true(I, st, f):
    if f == NONE:
        return True
    if f == ("ext", "builtins.bool"):
        return False
    outs = I.call(st, f, (S("record"),))
    return bool(outs) and all(k == "ret" and v == TRUE for _, k, v in outs)


def entire(t, coll):
    """t is coll, or a copy of all of it"""
    return t == coll or t[0] == "list" and len(t[2]) == 1 and t[2][0] == ("star", coll) and not any(m[0] == "slice" for m in t[3]) or t[0] == "call" and t[1] in (("ext", "builtins.list"), ("ext", "builtins.tuple")) and entire(t[2][0], coll)


def unfinished(s, kind):
    """elements in whose turn a loop was left without an exception"""
    if kind == "raise":
        return []
    els = [e.args[0] for e in s.trace if e.kind == "iter" and e.args and e.args[0] is not None and e.args[0][0] == "elem"]
    return [el for el in dict.fromkeys(els) if left(s, kind, el[1])]


def left(s, kind, coll):
    """was the loop over coll left before its end, without an exception?"""
    n = 0
    for e in s.trace:
        if e.args and e.args[0] is not None and e.args[0][0] == "elem" and e.args[0][1] == coll:
            n += {"iter": 1, "enditer": -1}.get(e.kind, 0)
    return kind != "raise" and n > 0


def dnf(ck):
    """DnfFilters.filter_dictset keeps what evaluate accepts"""
    Q = "mabel.data.internals.dnf_filters"
    def oc(I, st, f, args, kw, fr, node):
        if f[0] == "fn" and f[1].endswith("dnf_filters.evaluate"):
            return [(st, "v", ("opq", "filt", tuple(I.freeze(st, a) for a in args)))]
        return None
    I = ck.interp(on_call=oc, keep_facts=True, watch=lambda k, n: k in ("out", "iter", "enditer"))
    K = I.value(Q + ".DnfFilters")
    ck.saw(Q + ".DnfFilters.filter_dictset", Q + ".DnfFilters.__call__", Q + ".DnfFilters.__init__")
    DS = S("records", "list")
    for given in (S("predicates", "list"), S("predicate", "tuple"), NONE):
        PRED = given
        for s, r in shapes(I, build(I, K, (given,)), 3):
            some = False
            none = s.facts.get(("truth", PRED)) is False
            mine = lambda t: entire(t, PRED) or none and (t in (C(()), NONE, ("tuple", ())) or t[0] == "list" and not t[2])
            for s2, k, v in I.method(I.clear(s), r, "filter_dictset", (DS,)):
                for s3, k3, v3 in ck.took(I.drain(s2, v)) if k == "ret" else []:
                    for el, inside in passes(s3):
                        n = [e for e in inside if e.kind == "out"]
                        if el is None or el[0] != "elem" or el[1] != DS:
                            continue
                        some = True
                        ck.ob("all", "DnfFilters", not left(s3, k3, DS), "the records behind a rejected one are not looked at", None, facts_path(s3.facts))
                        ans = [b for t, b in s3.facts.items() if t[0] == "truth" and t[1][0] == "opq" and t[1][1] == "filt" and t[1][2][-1] == el and mine(t[1][2][0])]
                        if given == NONE:
                            ck.ob("no-filter", "DnfFilters", len(n) == 1 and n[0].args[0] == el, "an absent filter drops or changes records", None, facts_path(s3.facts))
                        else:
                            ck.ob("only-rejected-dropped", "DnfFilters", len(n) == 1 and n[0].args[0] == el and ans == [True] or not n and ans == [False] or len(n) == 1 and s3.facts.get(("truth", PRED)) is False, "a record is dropped, kept, changed or repeated against the filter", None, facts_path(s3.facts))
            ck.ob("goes-through", "DnfFilters", some, "the records are not gone through", None)
            # called on one record
            for s2, k, v in I.method(I.clear(s), r, "__call__", (S("record"),)):
                if k != "ret":
                    continue
                x = I.freeze(s2, v)
                ok = x[0] == "opq" and x[1] == "filt" and x[2][-1] == S("record")
                if ok and given != NONE and not s2.facts.get(("truth", PRED)) is False:
                    ok = mine(x[2][0])
                ck.ob("asks", "DnfFilters", ok or given == NONE and v == TRUE, "calling the filter does not evaluate its predicates on the record", None, [repr(x)])
    ck.need("asks", 2)


def dictset_filter(ck):
    """DictSet.filter with an expression, DNF or a function keeps exactly what is accepted"""
    Q = "mabel.data.internals.dictset.DictSet"
    EXPR, DNF = "mabel.data.internals.expression.Expression", "mabel.data.internals.dnf_filters.DnfFilters"
    ROWS = S("rows", "list")
    FN = S("=fn")
    ck.saw(Q + ".filter")
    for label, given in (("text", S("filters", "str")), ("dnf", S("filters", "list")), ("function", FN)):
        def oc(I, st, f, args, kw, fr, node):
            n = I.callee_name(f).split(".")[-1]
            if f == ("cls", EXPR):
                return [(st, "v", ("opq", "made", "expr", args[0] if args else NONE))]
            if f == FN:
                return [(st, "v", ("opq", "filt", tuple(args)))]
            if f[0] == "fn" and f[1].endswith("dnf_filters.evaluate"):
                return [(st, "v", ("opq", "filt", tuple(args)))]
            if f[0] == "opq" and f[1] == "made":
                return [(st, "v", ("opq", "filt", (f,) + tuple(args)))]
            if f[0] == "attr" and f[1][0] == "opq" and f[1][1] == "made" and f[2] in ("evaluate", "__call__"):
                return [(st, "v", ("opq", "filt", (f[1],) + tuple(args)))]
            if n == "hasattr" and args[:1] == (FN,):
                return [(st, "v", TRUE)]
            if n == "callable" and args[:1] == (FN,):
                return [(st, "v", TRUE)]
            if n == "isinstance" and args[:1] == (FN,):
                return [(st, "v", FALSE)]
            return None
        I = ck.interp(on_call=oc, keep_facts=True, watch=lambda k, n: k in ("out", "iter", "enditer"))
        K = I.value(Q)
        some = False
        for s, r in shapes(I, build(I, K, (ROWS,)), 2):
            for s2, k, v in I.method(I.clear(s), r, "filter", (given,)):
                if k != "ret":
                    continue
                if v == NONE:
                    ck.ob("filters", "DictSet.filter", False, f"a {label} filter is ignored", None, facts_path(s2.facts))
                    continue
                inner = s2.get(v[1]).d.get("_iterator") if v[0] == "ref" and s2.get(v[1]).kind == "inst" else v
                for s3, k3, v3 in ck.took(I.drain(s2, inner)):
                    ck.ob("all", "DictSet.filter", not left(s3, k3, ROWS), "the records behind a rejected one are not looked at", None, facts_path(s3.facts))
                    for el, inside in passes(s3):
                        if el is None or el[0] != "elem" or el[1] != ROWS:
                            continue
                        some = True
                        n = [e for e in inside if e.kind == "out"]
                        ans = [b for t, b in s3.facts.items() if t[0] == "truth" and t[1][0] == "opq" and t[1][1] == "filt" and t[1][2][-1] == el]
                        ck.ob("only-rejected-dropped", "DictSet.filter", len(n) == 1 and n[0].args[0] == el and ans == [True] or not n and ans == [False] or label == "dnf" and len(n) == 1 and s3.facts.get(("truth", given)) is False, f"a record is dropped, kept, changed or repeated against a {label} filter", None, facts_path(s3.facts))
        ck.ob("filters", "DictSet.filter", some, f"a {label} filter is not applied to the records", None)


# ---------------------------------------------------------------------- C10
ENC = {"zstandard": "zstandard", "zstd": "zstandard", "lzma": "lzma", "gzip": "gzip", "bz2": "bz2", "lz4": "lz4", "zlib": "zlib", "zipfile": "zipfile", "pyarrow": "pyarrow"}


def codec_of(terms, s=None):
    """the (de)compression libraries a term passes through"""
    out = set()
    for t in terms:
        for x in walk(t):
            if x[0] == "ext":
                top = x[1].split(".")[0]
                if top in ENC:
                    out.add(ENC[top])
    return out


def formats(ck):
    prog = ck.prog
    J = ck.interp(keep_facts=True, watch=lambda k, n: k in ("call", "out", "iter", "enditer"))
    tab, _ = table(J)
    I = ck.interp(watch=lambda k, n: k in ("call", "callx"), stop={"schema_loader", "_normalize_arrow_schema"})
    bw = I.value(BW)
    ck.saw(BW + ".text_append", BW + ".commit", "mabel.data.writers.internals.base_inner_writer.BaseInnerWriter.__init__")
    for fmt in FORMATS:
        enc, pieces = set(), []
        kw = {"inner_writer": S("inner_writer"), "format": C(fmt), "blob_size": S("blob_size", "nat"), "schema": S("schema"), "**": S("kw", "dict")}
        for s0, ref in shapes(I, build(I, bw, (), kw), 1):
            for s, k, v in ck.took(I.method(I.clear(s0), ref, "append", (REC,))):
                b = s.get(ref[1]).d.get("buffer") if k == "ret" else None
                if b is not None:
                    fz = I.freeze(s, b)
                    pieces += [p[1] for p in fz[2] if p[0] in ("one", "star", "rep") and contains(p[1], REC)] if fz[0] == "list" else [fz]
            st, names = havoc(I, s0, ref)
            for s, k, v in ck.took(I.method(I.clear(st), ref, "commit", ())):
                for i, e in events(s):
                    if is_storage_commit(e):
                        enc |= codec_of([payload(e)])
                        if fmt == "parquet":
                            enc |= codec_of([x.recv or NONE for x in s.trace[:i]]) | {ENC[x.name.split(".")[0]] for x in s.trace[:i] if x.name.split(".")[0] in ENC}
        for q in concrete(I, prog):
            short = q.split(".")[-1]
            made = instances(I, prog, q, fmt, 4)
            if fmt in ("zstd", "parquet"):
                # an extension of the caller's own says nothing about the compression
                made = made + instances(I, prog, q, fmt, 4, extension=S("=extension", "str"))
            for s, r in made:
                d = s.get(r[1]).d
                names = [v for n, v in d.items() if any(x[0] == "c" and isinstance(x[2], str) and "{stem}" in x[2] for x in walk(I.freeze(s, v)))]
                if not names:
                    raise AnalysisError(f"{short} has no name template")
                for nm in names:
                    suffix = ext_of(I.freeze(s, nm))
                    ck.ob("extension-known", f"{short}.{fmt}", suffix in tab and "DATA" in repr(tab[suffix][2]), f"blobs written as {fmt} get an extension readers do not read as data", None, [show(nm), str(suffix)])
                    if suffix not in tab:
                        continue
                    dec, parser, _ = tab[suffix]
                    got, outs = set(), []
                    for s2, k2, v2 in J.call(J.fresh(), dec, (STREAM,)):
                        outs += ck.took(J.drain(s2, v2)) if k2 == "ret" else []
                    lines = False
                    for s3, k3, v3 in outs:
                        for e in s3.trace:
                            if e.kind == "out":
                                got |= codec_of([e.args[0]])
                                lines = lines or e.args[0][0] == "elem"
                    ck.ob("codec", f"{fmt}", got - {"zipfile"} == enc or fmt == "parquet" and "pyarrow" in got, f"blobs written as {fmt} are read with another compression than they were written with", None, [f"written {sorted(enc)}, read {sorted(got)}"])
                    if fmt in ("jsonl", "zstd", "flat"):
                        js = [v4 for _, k4, v4 in J.call(J.fresh(), parser, (LINE,)) if k4 == "ret"]
                        ck.ob("parser", f"{fmt}", js and all(x[0] == "call" and x[1][0] == "ext" and x[1][1] in ("orjson.loads", "json.loads", "ujson.loads", "simdjson.loads") and x[2][:1] == (LINE,) for x in js), f"records written as {fmt} are not parsed as JSON", None, [show(x) for x in js])
                        ck.ob("record-wise", f"{fmt}", lines, f"blobs written as {fmt} are not read record by record", None)
                    if fmt == "parquet":
                        js = [v4 for _, k4, v4 in J.call(J.fresh(), parser, (LINE,)) if k4 == "ret"]
                        ck.ob("parser", f"{fmt}", js and all(x == LINE for x in js), "rows of parquet files are parsed again", None)
        for p in pieces if fmt != "parquet" else ():
            ck.ob("own-line", fmt, ends_with_newline(p), f"a {fmt} record is written without a newline behind it", None, [show(p)])
            ck.ob("one-line", fmt, fmt == "text" or not multi_line(p), f"a {fmt} record may be written over several lines", None, [show(p)])
        if fmt != "parquet" and not pieces:
            raise AnalysisError(f"no record reaches the buffer in format {fmt}")
    # what BlobWriter accepts is what is covered here
    sup = I.value("mabel.data.writers.internals.blob_writer.SUPPORTED_FORMATS_ALGORITHMS")
    known = {x[2] for x in walk(I.freeze(I.fresh(), sup)) if x[0] == "c" and isinstance(x[2], str)}
    ck.ob("formats", "SUPPORTED_FORMATS_ALGORITHMS", known <= set(FORMATS), "the writer supports a format no reader is known for", None, [str(sorted(known - set(FORMATS)))])
    # a name has to be the extension of the stored format for every adapter
    ck.need("extension-known", 15)
    ck.need("codec", 5)
    ck.need("parser", 3)
    ck.need("own-line", 4)


def ext_of(t):
    tail = t[1][-1] if t[0] == "cat" else t
    if t[0] == "bin" and t[1] == "+":
        tail = t[3]
    if tail[0] != "c" or not isinstance(tail[2], str) or "." not in tail[2]:
        return None
    return "." + tail[2].split(".")[-1]


def ends_with_newline(t):
    if t[0] == "bin" and t[1] == "+":
        return ends_with_newline(t[3])
    if t[0] == "cat":
        return ends_with_newline(t[1][-1])
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] == "encode":
        return ends_with_newline(t[1][1])
    if t[0] == "call" and any(contains(v, ("ext", "orjson.OPT_APPEND_NEWLINE")) for _, v in t[3]):
        return True
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] == "join":
        return False
    return t[0] == "c" and t[2][-1:] in ("\n", b"\n")


def multi_line(t):
    for x in walk(t):
        if x[0] == "call" and x[1][0] == "ext" and x[1][1].split(".")[-1] in ("dumps", "dump"):
            if any(n == "indent" and v != NONE for n, v in x[3]) or any(contains(v, ("ext", "orjson.OPT_INDENT_2")) for v in tuple(x[2]) + tuple(v for _, v in x[3])):
                return True
        if x[0] == "call" and x[1] == ("ext", "pprint.pformat"):
            return True
    return False


# ---------------------------------------------------------------------- C38
def flattening(ck):
    """every leaf of a nested record is kept under a key made of the whole chain of keys leading to it"""
    Q = "mabel.data.internals.records.flatten"
    D, SEP, PK = S("record", "dict"), S("sep", "str"), S("parent", "str")
    for parent in (True, False):
        depth = [0]

        def oc(I, st, f, args, kw, fr, node):
            if f[0] == "fn" and f[1] == Q:
                depth[0] += 1
                if depth[0] > 1:
                    kw = dict(kw)
                    g = lambda i, n, d: I.freeze(st, args[i]) if i < len(args) else (I.freeze(st, kw[n]) if n in kw else d)
                    return [(st, "v", ("opq", "flattened", g(0, "dictionary", NONE), g(1, "separator", C(".")), g(2, "parent_key", FALSE)))]
            return None
        I = ck.interp(on_call=oc, ret_max=400, max_states=400, watch=lambda k, n: False)
        ck.saw(Q)
        kw = {"separator": SEP}
        if parent:
            kw["parent_key"] = PK
        some = False
        for s, k, v in ck.took(I.call(I.fresh(), I.value(Q), (D,), kw)):
            if k != "ret" or s.facts.get(("truth", D)) is False:
                continue
            o = s.get(v[1]) if v[0] == "ref" else None
            if o is None or o.kind != "dict":
                ck.ob("result", "flatten", False, "the result is not a dictionary of the leaves", None, [show(v)])
                continue
            if not o.x[2]:
                continue
            some = True
            # a parent that is absent (or empty) is not part of the names
            for given in ((True, False) if parent else (False,)):
                parts = [p for p in o.x[2] if dict(p[4]).get(("truth", PK)) in (given, None)]
                if parent and not any(("truth", PK) in dict(p[4]) for p in parts):
                    given = True
                leaves(ck, I, s, parts, D, SEP, PK, given)
        if not some:
            raise AnalysisError("flatten keeps nothing of a record")
    ck.need("leaf", 1)
    ck.need("nested", 1)
    ck.need("listed", 1)
    ck.need("nothing-lost", 2)


def leaves(ck, I, s, parts, D, SEP, PK, given):
    atoms = sorted({t for p in parts for t, _ in p[3]}, key=repr)
    els = {x for p in parts for x in walk_all(p[1], p[2], *[t for t, _ in p[3]]) if x[0] == "elem" and x[1] == D}
    if len(els) != 1 or len(atoms) > 10:
        raise AnalysisError("cannot tell which entries of the record flatten keeps")
    e = els.pop()
    val = ("item", D, e)
    for p in parts:
        key, v = p[1], I.freeze(s, p[2])
        rec = next((x for x in walk_all(key, v) if x[0] == "opq" and x[1] == "flattened"), None)
        chain = [key] + ([rec[4]] if rec is not None else [])
        named = any(contains(c, e) for c in chain)
        if given:
            named = named and any(in_order(c, PK, SEP, e) for c in chain)
        if rec is None:
            ck.ob("leaf", "flatten", v in (val, ("get", D, e)) or v[0] == "get" and v[1:3] == (D, e), "a leaf's value is changed", None, [show(v)])
            ck.ob("named", "flatten", named and (key == e or given), "a leaf is not kept under the chain of keys leading to it", None, [show(key)])
            continue
        src = rec[2]
        whole_val = v[0] in ("item", "elem", "get") and not any(x[0] == "slice" for x in walk(v))
        if src == val:
            ck.ob("nested", "flatten", whole_val and rec[3] == SEP and named, "what is nested is not kept under the chain of keys leading to it", None, [show(key), show(rec[4])])
            continue
        # an element of a list: its position is part of the name
        elt = [x for x in walk(src) if x[0] == "elem" and x[1] == val]
        place = lambda t: any(x[0] == "idx" and len(x) > 2 and x[2] in elt for x in walk(t))
        ok = bool(elt) and whole_val and named and rec[3] == SEP and (place(src) or any(place(c) for c in chain))
        ck.ob("listed", "flatten", ok, "an element of a list is not kept under the chain of keys and its position", None, [show(key), show(rec[4]), show(rec[3])])
    # every kind of value goes somewhere
    for bits in range(1 << len(atoms)):
        asg = {t: bool(bits >> i & 1) for i, t in enumerate(atoms)}
        if any(asg.get(t) is b for p in parts for t, b in p[3]) and any(all(asg[t] is b for t, b in p[3]) for p in parts):
            ck.ob("nothing-lost", "flatten", True, "")
            continue
        empty = [t for t in atoms if asg[t] is False and t == ("truth", val)]
        container = any(asg[t] for t in atoms if t[0] == "call" and t[1] in (("ext", "builtins.isinstance"), ("ext", "builtins.hasattr")))
        ck.ob("nothing-lost", "flatten", empty and container or not parts[0][3] and not atoms, "some values of a record are dropped", None, [f"{'' if b else 'not '}{show(t, 6)}"[:200] for t, b in asg.items()])


def walk_all(*ts):
    for t in ts:
        yield from walk(t)


def in_order(t, *subs):
    """the pieces appear in the text of t in this order"""
    flat = []

    def go(x):
        if x[0] == "cat":
            for y in x[1]:
                go(y)
        elif x[0] == "bin" and x[1] == "+":
            go(x[2])
            go(x[3])
        elif x[0] == "call" and x[1] == ("ext", "builtins.str") and len(x[2]) == 1:
            go(x[2][0])
        elif x[0] == "call" and x[1][0] == "attr" and x[1][2] == "join" and len(x[2]) == 1 and x[2][0][0] in ("list", "tuple"):
            ys = [p[1] for p in x[2][0][2]] if x[2][0][0] == "list" else list(x[2][0][1])
            for i, y in enumerate(ys):
                if i:
                    go(x[1][1])
                go(y)
        else:
            flat.append(x)
    go(t)
    i = 0
    for x in flat:
        if i < len(subs) and (x == subs[i] or contains(x, subs[i]) and subs[i][0] == "elem"):
            i += 1
    return i == len(subs)
