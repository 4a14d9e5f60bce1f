"""C16 reading resumes exactly where the cursor points, C17 unreadable blobs and control files."""
from ..rulelib import *

CURSOR = "mabel.data.readers.internals.cursor.Cursor"
LOWLEVEL = "mabel.data.readers.reader._LowLevelReader"
PARALLEL = "mabel.data.readers.internals.parallel_reader.ParallelReader"
BLOBS, PREV, IT, SAVED, SKIPPED = S("blobs", "list"), S("prev", "str"), S("it"), S("cursor", "dict"), S("skipped", "nat")
RC = S("rc")


def path_of(facts):
    return [f"{'' if b else 'not '}{show(t, 6)}"[:200] for t, b in facts.items()][:8]


def plus_one(t, base):
    return t == ("bin", "+", base, C(1)) or t == ("bin", "+", C(1), base)


# ---------------------------------------------------------------------- the cursor itself
def cursor(ck):
    prog = ck.prog

    def oc(I, st, f, args, kw, fr, node):
        got = next((a for a in args if piece(a)), None)
        if got is not None and f[0] in ("ext", "cls"):
            # a whole slice of the iterator goes into something that runs through it
            st = I.emit(st, "call", "taken", None, (got,), {}, NONE, fr, node)
            return [(st, "v", ("opq", "taken", I.site(node, fr)))]
        return None
    I = ck.interp(on_call=oc, keep_facts=True, ret_max=400, max_states=400, watch=lambda k, n: k in ("call", "callx", "set", "iter"))
    K = I.value(CURSOR)
    made = build(I, K, (BLOBS,))
    ck.saw(CURSOR + ".__init__", CURSOR + ".next_blob", CURSOR + ".skip_to_cursor", CURSOR + ".get", CURSOR + ".__getitem__", CURSOR + ".load_cursor")
    for s, r in made:
        o = s.get(r[1])
        rb = I.freeze(s, o.d["readable_blobs"]) if "readable_blobs" in o.d else NONE
        srt = rb[0] == "list" and any(m[0] == "sorted" and m[1] == NONE for m in rb[3])
        ck.ob("stable-order", "Cursor", srt, "the blobs a cursor's map refers to are not kept in a fixed order", None, [show(rb)])
        ck.ob("all-blobs", "Cursor", rb[0] == "list" and rb[2] == (("star", BLOBS),), "the cursor does not cover exactly the readable blobs", None, [show(rb)])
        ck.ob("fresh", "Cursor", o.d.get("location") == C(-1) and o.d.get("partition") in (C(""), NONE), "a new cursor does not start before the first record", None)
    st, ref = made[0]
    st, _ = havoc(I, st, ref, keep=("readable_blobs",))
    st = I.clear(st)
    o = st.get(ref[1])
    PART, LOC = o.d["partition"], o.d["location"]
    RB, RD = I.freeze(st, o.d["readable_blobs"]), I.freeze(st, o.d["read_blobs"])
    # moving on
    for prev in (False, True):
        for s, k, v in ck.took(I.method(st, ref, "next_blob", (PREV,) if prev else ())):
            if k != "ret":
                continue
            d = s.get(ref[1]).d
            after = I.freeze(s, d["read_blobs"])
            f = s.facts
            given = prev and f.get(("truth", PREV)) is True
            if given:
                ck.ob("marks-read", "next_blob", after[0] == "list" and ("one", PREV) in after[2] and ("star", S("self.read_blobs", "list")) in after[2], "the blob just read is not added to the blobs read", None, path_of(f))
            else:
                ck.ob("marks-read", "next_blob", after == RD, "blobs are marked as read although none was finished", None, path_of(f))
            midway = f.get(("truth", PART)) is True and any(t[0] == "cmp" and LOC in t[2:4] for t in f) and f.get(("cmp", "lt", LOC, C(0))) is False
            if v == NONE:
                if any(b is True and t[0] == "cmp" and t[1] in ("is", "eq") and NONE in t[2:4] and any(x[0] == "elem" and contains(x[1], BLOBS) for x in t[2:4]) for t, b in f.items()):
                    continue  # blobs have names
                done = [t for t, b in f.items() if t[0] == "exists" and b is False and contains(t[1], BLOBS) and unread_cond(t, after, RD)] or none_at_all(f)
                ck.ob("ends-when-all-read", "next_blob", done and not midway, "reading ends although a readable blob has not been read", None, path_of(f))
                continue
            if midway and not given:
                same = v == PART and f.get(("cmp", "in", PART, BLOBS)) is True or v == PART or hashed(f, v, PART)
                ck.ob("stays-in-blob", "next_blob", same, "a cursor part way through a blob goes on with another blob", None, path_of(f))
                ck.ob("keeps-place", "next_blob", d["location"] == LOC, "the place in the blob is lost when resuming", None, path_of(f))
                continue
            el = v
            ok = el[0] == "elem" and any(t[0] == "cmp" and t[1] == "in" and t[2] == el and b is False for t, b in f.items())
            ck.ob("unread-only", "next_blob", ok, "a blob that was already read is read again", None, path_of(f))
            ck.ob("own-blob", "next_blob", d["partition"] == v, "the cursor does not record the blob being read", None, path_of(f))
            ck.ob("from-start", "next_blob", d["location"] == C(-1), "the cursor of a new blob does not start before its first record", None, [show(d["location"])])
    # skipping what was read already
    for s, k, v in ck.took(I.method(st, ref, "skip_to_cursor", (IT,))):
        if k != "ret":
            continue
        n = taken(s)
        start = s.facts.get(("cmp", "lt", LOC, C(0)))
        if start is True:
            ck.ob("skips-none", "skip_to_cursor", v == C(0) and n in (0, None) or n is not None and n != 0 and plus_one(n, LOC) and plus_one(v, LOC), "records are skipped although none of the blob was read", None, steps(s))
            continue
        if n is None or n == 0 and any(t[0] == "truth" and b is False and t[1][0] == "call" for t, b in s.facts.items()):
            continue
        ck.ob("skips-read", "skip_to_cursor", n != 0 and plus_one(n, LOC), "the number of records skipped is not the number already read", None, [show(n, 4) if n else "none"] + steps(s))
        ck.ob("counts-on", "skip_to_cursor", plus_one(v, LOC), "positions after resuming do not continue from the records skipped", None, [show(v)])
    # saving and loading are inverse
    saved = {}
    for s, k, v in ck.took(I.method(st, ref, "get", ())):
        o = s.get(v[1]) if k == "ret" and v[0] == "ref" else None
        if o is None or o.kind != "dict":
            continue
        for key, x in o.d.items():
            saved.setdefault(key[2] if isinstance(key, tuple) else key, []).append((s, x))
    names = {}
    for key, xs in saved.items():
        for s, x in xs:
            fx = I.freeze(s, x)
            if fx == LOC:
                names["location"] = key
            elif contains(fx, PART):
                names["partition"] = (key, fx)
            elif contains(fx, S("self.read_blobs", "list")):
                names["map"] = (key, fx)
    for w in ("location", "partition", "map"):
        ck.ob("saved", "Cursor.get", w in names, f"the saved cursor does not hold the {w}", None, [f"{k}={show(x, 4)[:100]}" for k, xs in saved.items() for _, x in xs])
    if len(names) < 3:
        return
    mkey, mval = names["map"]
    bits = [p for x in walk(mval) if x[0] == "list" for p in x[2] if p[0] == "rep"]
    for p in bits:
        if p[1] in (C("1"), C("0"), TRUE, FALSE, C(1), C(0)):
            mem = [b for t, b in p[2] | p[3] if t[0] == "cmp" and t[1] == "in" and contains(t[3], S("self.read_blobs", "list"))]
            ck.ob("map", "Cursor.get", mem == [p[1] in (C("1"), TRUE, C(1))], "the map does not say which blobs were read", None, [show(p[1])])
        ck.ob("map-order", "Cursor.get", all(contains(b[1], BLOBS) and "'reversed'" not in repr(b) for b in p[4]) and not any("'reversed'" in repr(x[3]) for x in walk(mval) if x[0] == "list" and p in x[2]), "the map is not in the order of the readable blobs", None)
    loaded = 0
    st2 = st
    for s, k, v in ck.took(I.method(st2, ref, "load_cursor", (SAVED,))):
        if k != "ret":
            continue
        d = s.get(ref[1]).d
        loaded += 1
        ck.ob("restores-location", "load_cursor", from_key(d["location"], names["location"]), "the location loaded is not the one saved", None, [show(d["location"])])
        pk, pv = names["partition"]
        if d["partition"] != PART and d["partition"][0] != "c":
            good = [t for t, b in s.facts.items() if b is True and t[0] == "cmp" and t[1] == "eq" and {t[2], t[3]} == {subst(pv, {PART: d["partition"]}), ("item", SAVED, C(pk))}]
            ck.ob("restores-partition", "load_cursor", good or from_key(d["partition"], pk), "the blob the cursor was in is not found again from what is saved", None, path_of(s.facts))
        rd = I.freeze(s, d["read_blobs"])
        if rd[0] == "list" and not rd[2] and none_at_all(s.facts):
            continue
        if not (rd[0] == "list" and any(p[0] == "rep" for p in rd[2])):
            ck.ob("restores-map", "load_cursor", False, "the blobs already read are not restored from the map", None, [show(rd)])
            continue
        for p in rd[2]:
            if p[0] != "rep":
                continue
            pos = [t for t, b in p[2] | p[3] if b is True and same_place(t, p)]
            neg = [t for t, b in p[2] | p[3] if b is False and same_place(t, p)]
            ck.ob("restores-map", "load_cursor", pos and not neg and contains(p[1], BLOBS), "the blobs marked as read are not those the map has a bit for", None, [f"{b} {show(t, 6)}"[:200] for t, b in p[2] | p[3]])
    # the map is decoded the way it was encoded
    enc = {x for x in walk(mval) if x[0] == "call" and "bitarray" in repr(x[1])}
    for x in enc:
        kw = dict(x[3]) if len(x) > 3 else {}
        le = {show(v) for k, v in kw.items() if k == "endian"}
        for s, k, v in I.method(st2, ref, "load_cursor", (SAVED,)):
            rd = I.freeze(s, s.get(ref[1]).d["read_blobs"]) if k == "ret" else None
            for y in walk(rd) if rd else ():
                if y[0] == "call" and "bitarray" in repr(y[1]) and y[1][0] == "ext" and x[1][0] == "ext":
                    ck.ob("map-coding", "load_cursor", {show(v) for k, v in dict(y[3]).items() if k == "endian"} == le, "the map is decoded with another bit order than it was encoded with", None)
    ck.need("stable-order", 1)
    ck.need("marks-read", 2)
    ck.need("unread-only", 2)
    ck.need("stays-in-blob", 1)
    ck.need("skips-read", 1)
    ck.need("restores-location", 1)
    ck.need("restores-map", 1)
    reading_loop(ck)


def unread_cond(t, *reads):
    return any(c[0] == "cmp" and c[1] == "in" and b is False and c[2][0] == "elem" and "read_blobs" in repr(c[3]) for c, b in t[2])


def none_at_all(f):
    """the path is one on which there is no readable blob"""
    whole = lambda t: any_term(t, lambda x: x == BLOBS) and not any_term(t, lambda x: x[0] in ("bin", "slice"))
    for t, b in f.items():
        if b is False and (t[0] == "truth" and whole(t[1]) or t[0] == "exists" and not t[2] and whole(t[1])):
            return True
        if b is True and t[0] == "cmp" and t[1] == "eq" and C(0) in t[2:4] and any(x[0] == "call" and x[1] == ("ext", "builtins.len") and whole(x) for x in t[2:4]):
            return True
    return False


def hashed(f, v, part):
    return any(b is True and t[0] == "cmp" and t[1] == "eq" and part in t[2:4] and any(contains(x, v) for x in t[2:4]) for t, b in f.items())


def taken(s):
    """how many records of the iterator a path consumes: a term, 0, or None when not understood"""
    out = 0
    for _, e in events(s, "call"):
        if e.name == "builtins.next" and e.args[:1] == (IT,) or e.name == ".__next__" and e.recv == IT:
            if not e.loops:
                return None
            c = e.loops[-1][1]
            if out != 0 or len(e.loops) != 1:
                return None
            out = c[2][-1] if c[0] == "call" and c[1] == ("ext", "builtins.range") and (len(c[2]) == 1 or len(c[2]) == 2 and c[2][0] == C(0)) else None
            if out is None:
                return None
        elif e.name == "taken":
            if out != 0 or e.loops:
                return None
            a = e.args[0][2]
            out = a[1] if len(a) == 2 else a[2]
    for _, e in events(s, "iter"):
        c = e.args[0][1] if e.args[0][0] == "elem" else None
        if c is not None and piece(c):
            if out != 0 or e.loops[:-1]:
                return None
            out = c[2][1] if len(c[2]) == 2 else c[2][2]
    return out


def piece(t):
    """islice(IT, n) or islice(IT, n, n)"""
    return t[0] == "call" and t[1] == ("ext", "itertools.islice") and t[2][:1] == (IT,) and (len(t[2]) == 2 or len(t[2]) == 3 and t[2][1] in (t[2][2], C(0)))


def from_key(t, key):
    return t[0] == "item" and t[1] == SAVED and t[2] == C(key) or t[0] == "call" and t[1] == ("attr", SAVED, "get") and t[2][:1] == (C(key),)


def same_place(t, part):
    """a condition on the bit of the map at the position the blob has among the readable blobs"""
    if t[0] not in ("truth", "cmp"):
        return False
    x = part[1]
    picked = [q for q, b in part[2] | part[3] if b and q[0] == "opq" and q[1] == "picked" and q[2] == x]
    for z in walk(t[1] if t[0] == "truth" else t[2]):
        bits = z[0] in ("item", "elem", "xelem") and ("bitarray" in repr(z[1]) or contains(z[1], SAVED))
        if not bits:
            continue
        if z[0] == "item":
            if any(q[3] == z[2] and "'reversed'" not in repr(q[4]) for q in picked):
                return True
            if x[0] == "elem" and z[2][0] == "idx" and z[2][1] == x[2] and "'reversed'" not in repr(x[1]):
                return True
            if x[0] == "item" and x[2] == z[2]:
                return True
        if z[0] == "xelem" and x[0] == "xelem" and z[2] == x[2] and "'reversed'" not in repr(x[1]):
            return True
        if z[0] == "elem" and any(q[3][0] == "idx" and q[3][1] == z[2] and "'reversed'" not in repr(q[4]) for q in picked):
            return True
    return False


# ---------------------------------------------------------------------- the loop over blobs
def low_level(ck, note, cursors=None):
    """run _create_line_reader to its end; note(event name, ...) is told what happens"""
    prog = ck.prog

    def oc(I, st, f, args, kw, fr, node):
        n = I.callee_name(f).split(".")[-1]
        if n == "get_logger":
            return [(st, "v", S("=log"))]
        if n == "next_blob":
            st = I.emit(st, "call", n, None, args, kw, NONE, fr, node)
            note("next_blob", I, st, args, kw)
            return [(st, "v", ("opq", "blob", I.site(node, fr))), (st, "v", NONE)]
        if n == "skip_to_cursor":
            st = I.emit(st, "call", n, None, args, kw, NONE, fr, node)
            note("skip", I, st, args, kw)
            return [(st, "v", SKIPPED)]
        if n == "ParallelReader":
            st = I.emit(st, "call", n, None, args, kw, NONE, fr, node)
            note("parallel_made", I, st, args, kw)
            return [(st, "v", S("=parallel"))]
        if f == S("=parallel"):
            st = I.emit(st, "call", "parallel", None, args, kw, NONE, fr, node)
            note("parallel", I, st, args, kw)
            return [(st, "v", ("opq", "rows", args[0] if args else dict(kw).get("blob_name", NONE)))]
        if n == "processed_reader":
            st = I.emit(st, "call", n, None, args, kw, NONE, fr, node)
            note("processed", I, st, args, kw)
            return [(st, "v", S("=processed", "list"))]
        if f == ("cls", CURSOR):
            note("cursor", I, st, args, kw)
        return None
    I = ck.interp(on_call=oc, ret_max=400, max_states=400, watch=lambda k, n: k in ("call", "callx", "out"))
    L = I.value(LOWLEVEL)
    res = []
    ck.saw(LOWLEVEL + "._create_line_reader", LOWLEVEL + ".__next__")
    base = dict(reader_class=RC, freshness_limit=S("fresh"), select=C("*"), filters=NONE, override_format=NONE, multiprocess=S("multi", "bool"))
    for c in cursors or (NONE, SAVED):
        for s, r in shapes(I, build(I, L, (), dict(base, cursor=c)), 2):
            def onout(st, e):
                note("out", I, st, (e,), {"self": r})
                return [(st, "n", None)]
            for s2, k, v in I.method(I.clear(s), r, "_create_line_reader", ()):
                if k == "ret":
                    res += [(s3, k3, v3) for s3, k3, v3 in ck.took(I.drain(s2, v, onout))]
    return I, res


def reading_loop(ck):
    seen = {"out": 0}
    at = {}

    def counted(loc, e):
        """a counter that is the records skipped before the first record and grows by one a record"""
        return loc[0] == "phi" and e[0] == "elem" and loc[1] == e[2] and loc[3] == "nat" and len(loc) > 4 and loc[4] == SKIPPED

    def note(what, I, st, args, kw):
        tr = [e for e in st.trace if e.kind == "call" and e.name in ("parallel", "skip_to_cursor", "next_blob")]
        if what == "out":
            e = args[0]
            src = [x for x in walk(e) if x[0] == "opq" and x[1] == "rows"]
            if not src:
                return
            seen["out"] += 1
            ck.ob("record", "_create_line_reader", e[0] == "elem" and e[1] == src[0], "the records yielded are not the records read", None, [show(e)])
            o = st.get(kw["self"][1])
            cur = o.d.get("cursor")
            co = st.get(cur[1]) if cur is not None and cur[0] == "ref" else None
            loc = co.d.get("location") if co is not None else None
            at.setdefault(e[2] if e[0] == "elem" else e, []).append(loc)
            ok = loc is not None and loc != SKIPPED and counted(loc, e) or loc == SKIPPED or loc is not None and loc[0] == "bin" and loc[1] == "+" and SKIPPED in loc[2:4] and any(x[0] == "idx" and x[1] == e[2] for x in loc[2:4])
            ck.ob("location", "_create_line_reader", ok, "when a record is handed out the cursor's location is not that record's position in the blob", None, [show(loc, 4) if loc else "no location"])
            order = [x.name for x in tr]
            ck.ob("skipped-first", "_create_line_reader", "skip_to_cursor" in order and order[-1] == "skip_to_cursor" or order[-2:] == ["skip_to_cursor"], "records already read are not skipped before records are handed out", None, order)
        if what == "skip":
            ck.ob("skips-rows", "_create_line_reader", args and args[-1][0] == "opq" and args[-1][1] == "rows", "the cursor does not skip in the records of the blob", None, [show(a) for a in args])
        if what == "next_blob" and len(args) + len(kw) > 1 or what == "next_blob" and args and args[-1][0] != "ref":
            done = [x for x in tr[:-1] if x.name == "parallel"]
            a = args[-1] if args else list(kw.values())[-1]
            # (after the loop is widened the blob read last is a loop variable)
            ck.ob("finished-blob", "_create_line_reader", not done or done[-1].args[:1] == (a,) or dict(done[-1].kw).get("blob_name") == a, "the blob marked as read is not the blob just read", None, [show(a), show(done[-1].args[0]) if done and done[-1].args else ""])
        if what == "parallel":
            b = args[0] if args else kw.get("blob_name", NONE)
            ck.ob("cursor-blob", "_create_line_reader", any_term(b, lambda x: x[0] == "opq" and x[1] == "blob") or b[0] == "phi", "the blob read is not the one the cursor chose", None, [show(b)])
    I, res = low_level(ck, note)
    for locs in at.values():
        ck.ob("location-moves", "_create_line_reader", any(x is not None and x != SKIPPED for x in locs), "the cursor's location does not move with the records handed out", None)
    if not seen["out"]:
        raise AnalysisError("the reader yields no records from blobs")
    ck.need("location", 1)
    ck.need("finished-blob", 1)


# ---------------------------------------------------------------------- C17
CONTROL = (".complete", ".ignore", ".manifest", ".idx")


def data_conds(conds):
    """the conditions say the blob's type is DATA"""
    says = lambda w, v: any(b is v and t[0] == "cmp" and w in repr(t) for t, b in conds)
    return any(b is True and t[0] == "cmp" and t[1] in ("eq", "is", "in") and "DATA" in repr(t) for t, b in conds) or says("CONTROL", False) and says("INDEX", False)


def has_data(facts):
    for t, b in facts.items():
        if t[0] == "exists" and b and data_conds(t[2]):
            return True
        part = any(x[0] == "list" and any(p[0] == "rep" and data_conds(p[2] | p[3]) for p in x[2]) for x in walk(t))
        if part and (t[0] == "truth" and b or t[0] == "cmp" and t[1] == "eq" and C(0) in t[2:4] and not b or t[0] == "cmp" and t[1] == "lt" and b and t[2][0] == "c" and t[2][2] >= 0):
            return True
    return False


def isolation(ck):
    prog = ck.prog
    # one blob's failure stays with that blob
    logs = []

    def oc(I, st, f, args, kw, fr, node):
        n = I.callee_name(f).split(".")[-1]
        if n in ("get_logger",):
            return [(st, "v", S("=log"))]
        return None
    I = ck.interp(on_call=oc, keep_log=True, ret_max=400, max_states=400, raisers=lambda n, c: not n.startswith("=log") and n not in (".error", ".warning", ".format_exc", "traceback.format_exc"),
                  watch=lambda k, n: k in ("call", "callx", "out", "log"), factless=("set", "iter", "enditer", "mut"))
    P = I.value(PARALLEL)
    ck.saw(PARALLEL + ".__call__")
    B = S("blob", "str")
    n = 0
    for s, r in shapes(I, build(I, P, (), dict(reader=RC, filters=S("filters"), columns=S("columns"), reducer=S("reducer"), override_format=NONE)), 2):
        s = I.clear(s)
        for s2, k, v in I.method(s, r, "__call__", (B, S("idx", "list"))):
            outs = I.drain(s2, v) if k == "ret" else [(s2, k, v)]
            for s3, k3, v3 in ck.took(outs):
                failed = [e for _, e in events(s3, "callx")]
                n += 1
                ck.ob("failure-stays", "ParallelReader", k3 != "raise", "an error in one blob stops the reading of the others", failed[-1] if failed else None, steps(s3))
                if failed and k3 != "raise":
                    told = [e for _, e in events(s3) if e.kind in ("call", "log") and e.name.split(".")[-1] in ("error", "exception", "critical") and any(contains(a, B) for a in e.args + tuple(x for _, x in e.kw))]
                    ck.ob("failure-reported", "ParallelReader", told, "an error in a blob is not reported as an error naming the blob", failed[-1], steps(s3))
    ck.need("failure-reported", 3)
    # only data blobs are read, and having none is an error
    cur = []

    def note(what, J, st, args, kw):
        if what == "cursor":
            cur.append(("Cursor", J.freeze(st, kw.get("readable_blobs", args[0] if args else NONE)), dict(st.facts)))
        if what == "processed":
            a = kw.get("items_to_read", args[1] if len(args) > 1 else NONE)
            cur.append(("processed_reader", J.freeze(st, a), dict(st.facts)))
    J, res = low_level(ck, note)
    for who, v, facts in cur:
        parts = [p for p in v[2] if p[0] != "any"] if v[0] in ("list", "tuple") else [("one", v)]
        for p in parts:
            conds = p[2] | p[3] if p[0] == "rep" else frozenset()
            data = data_conds(conds)
            ck.ob("data-only", "_create_line_reader", data, f"{who} is given blobs that are not known to be data", None, [show(p[1], 5)[:200] if len(p) > 1 else ""])
            ck.ob("listed-blobs", "_create_line_reader", p[0] == "rep" and p[1][0] == "elem" and "get_list_of_blobs" in repr(p[1]), f"{who} is not given the blobs listed", None, [show(p[1], 5)[:200] if len(p) > 1 else ""])
        ck.ob("not-empty", "_create_line_reader", has_data(facts), f"{who} is started although there may be nothing to read", None, path_of(facts))
        ck.ob("some-data", "_create_line_reader", len(parts) <= 1, "blobs are read more than once", None)
    dnf = 0
    for s, k, v in res:
        calls = [e.name for _, e in events(s, "call")]
        if k == "raise" and "DataNotFound" in repr(v):
            dnf += 1
        elif k != "raise":
            ck.ob("none-is-an-error", "_create_line_reader", "ParallelReader" in calls, "reading ends quietly although there was nothing to read", None, path_of(s.facts))
    ck.ob("not-found", "_create_line_reader", dnf, "DataNotFoundError is never raised", None)
    # the table of extensions
    ext = J.value("mabel.data.readers.internals.parallel_reader.KNOWN_EXTENSIONS")
    o = J.fresh().get(ext[1]) if ext[0] == "ref" else None
    if o is None or o.kind != "dict":
        raise AnalysisError("KNOWN_EXTENSIONS is not a dictionary that can be read off the source")
    ck.saw("mabel.data.readers.internals.parallel_reader.KNOWN_EXTENSIONS")
    tab = {(k[2] if isinstance(k, tuple) else k): J.freeze(J.fresh(), v) for k, v in o.d.items()}
    for e in CONTROL:
        t = tab.get(e)
        ck.ob("control", "KNOWN_EXTENSIONS", t is None or "DATA" not in repr(t[-1] if t[0] != "tuple" else t[1][-1] if isinstance(t[1], tuple) and t[1] and isinstance(t[1][-1], tuple) else t), f"{e} files are read as data", None, [repr(t)[-200:]])
    ck.need("data-only", 2)
    ck.need("control", 4)


# ---------------------------------------------------------------------- C43
DAY = 86400
LIMITS = ((0, "none"), (6 * 3600, "6 hours"), (DAY, "1 day"), (2 * DAY + 43200, "2.5 days"), (3 * DAY, "3 days"))


def shifted(t, base):
    """how many days before base t is"""
    n = 0
    while t[0] == "bin" and t[1] in "+-" and t[3][0] == "c" and isinstance(t[3][2], (int, float)):
        n += t[3][2] if t[1] == "-" else -t[3][2]
        t = t[2]
    return n / DAY if t == base else None


def seconds(args, kw):
    """a timedelta of known parts, as seconds"""
    unit = dict(days=DAY, seconds=1, microseconds=1e-6, milliseconds=1e-3, minutes=60, hours=3600, weeks=7 * DAY)
    vals = dict(zip(("days", "seconds", "microseconds", "milliseconds", "minutes", "hours", "weeks"), args))
    vals.update(kw)
    n = 0
    for k, v in vals.items():
        if k not in unit or v[0] != "c" or isinstance(v[2], bool) or not isinstance(v[2], (int, float)):
            return None
        n += v[2] * unit[k]
    return n


def freshness(ck):
    look_back(ck)
    refused(ck)


def look_back(ck):
    from .reading import reader, readers
    prog = ck.prog
    START, END, cur = S("start"), S("end"), {}

    def oc(I, st, f, args, kw, fr, node):
        n = (I.callee_name(f) or "").split(".")[-1]
        if n == "get_logger":
            return [(st, "v", S("=log"))]
        if n == "timedelta":
            v = seconds(args, dict(kw))
            return None if v is None else [(st, "v", C(v))]
        if n == "total_seconds" and f[0] == "attr" and f[1][0] == "c":
            return [(st, "v", f[1])]
        if n == "get_list_of_blobs":
            if f[0] != "fn":
                return None
            o = st.get(args[0][1])
            a, b = shifted(I.freeze(st, o.d["start_date"]), START), shifted(I.freeze(st, o.d["end_date"]), END)
            ck.ob("whole-day", "step_back_a_day", a is not None and a == b and a == int(a), "the dates a listing is made for are not the dates asked for moved by whole days", None, [show(I.freeze(st, o.d["start_date"])), show(I.freeze(st, o.d["end_date"]))])
            st = I.emit(st, "call", "=listed", None, (C(a),), {}, NONE, fr, node)
            held = a is not None and cur["day"] is not None and a >= cur["day"]
            st, r = I.new_list(st, ("listing", len(st.trace)), "list", (("one", C(f"data/day{int(a)}/blob.jsonl")),) if held else ())
            return [(st, "v", r)]
        if f == ("cls", CURSOR) or n == "processed_reader":
            blobs = [I.freeze(st, x) for x in (*args, *dict(kw).values())]
            return [(I.emit(st, "call", "=read", None, tuple(blobs), {}, NONE, fr, node), "raise", ("exc", "=stop", ()))]
        return None
    I = ck.interp(on_call=oc, ret_max=400, max_states=400, watch=lambda k, n: k == "call" and n in ("=listed", "=read"))
    I.while_turns = 12
    L = I.value(LOWLEVEL)
    q = readers(I, prog)[0]
    ck.saw(LOWLEVEL + "._create_line_reader", q + ".step_back_a_day")
    for limit, word in LIMITS:
        for day in (0, 1, 2, 3, 4, None):
            cur["day"] = day
            st, rc = reader(I, prog, q, start_date=START, end_date=END)
            allowed = day is not None and (day == 0 or day * DAY <= limit)
            label = f"limit {word}, newest data {'nowhere' if day is None else f'{day} day(s) back'}"
            kw = dict(reader_class=rc, freshness_limit=C(limit), select=C("*"), filters=NONE, override_format=NONE, multiprocess=FALSE, cursor=NONE)
            for s, k, r in I.call(st, L, (), kw):
                if k == "raise":
                    ck.ob("made", label, False, "the reader cannot be made", None, [show(r)])
                    continue
                try:
                    outs = []
                    for s2, k2, v2 in I.method(I.clear(s), r, "_create_line_reader", ()):
                        outs += ck.took(I.drain(s2, v2)) if k2 == "ret" else [(s2, k2, v2)]
                except AnalysisError as e:
                    if "still turning" not in str(e):
                        raise
                    ck.ob("ends", label, False, "looking back does not come to an end", None, [str(e)])
                    continue
                for s3, k3, v3 in outs:
                    listed = [e.args[0][2] for e in s3.trace if e.name == "=listed"]
                    read = [e for e in s3.trace if e.name == "=read"]
                    path = [f"days listed: {listed}"] + path_of(s3.facts)
                    ck.ob("one-by-one", label, listed == list(range(len(listed))), "the days are not tried one after the other starting with the day asked for", None, path)
                    if allowed:
                        ok = bool(read) and any(names(a) == [f"data/day{day}/blob.jsonl"] for a in read[0].args)
                        ck.ob("newest-read", label, ok, "the newest day with data is within the limit, it is not what is read", None, path + [show(v3) if v3 else ""])
                    else:
                        ck.ob("nothing-older", label, not read, "data older than the limit is read", None, path)
                        ck.ob("said", label, k3 == "raise" and v3[0] == "exc" and v3[1].split(".")[-1] == "DataNotFoundError", "there is no data within the limit, DataNotFoundError is not raised", None, path + [show(v3) if v3 else ""])
    ck.need("newest-read", 8)
    ck.need("nothing-older", 8)


def names(t):
    if t[0] == "list" and all(p[0] == "one" and p[1][0] == "c" for p in t[2]):
        return [p[1][2] for p in t[2]]
    if t[0] == "tuple" and all(p[0] == "c" for p in t[1]):
        return [p[2] for p in t[1]]


def refused(ck):
    """a freshness limit over a range of days is refused"""
    from .readercall import plain_fn, READER
    LIMIT, INNER, RDR = S("limit"), S("inner"), S("reader_object")

    def oc(I, st, f, args, kw, fr, node):
        n = (I.callee_name(f) or "").split(".")[-1]
        if f == INNER:
            return [(st, "v", RDR)]
        if n == "parse_delta":
            ck.ob("limit-asked", "Reader", bool(args) and args[0] == S("freshness_limit", "str"), "the limit parsed is not the freshness_limit given", None, [show(a) for a in args])
            return [(st, "v", LIMIT)]
        if n == "_LowLevelReader":
            st = I.emit(st, "call", n, None, args, kw, NONE, fr, node)
            ck.ob("limit-kept", "Reader", dict(kw).get("freshness_limit") == LIMIT or LIMIT in args, "the reader is not told the limit", None)
            return [(st, "v", S("=low"))]
        if n in ("DictSet", "get_logger"):
            return [(st, "v", S("=" + n))]
        return None
    I = ck.interp(on_call=oc, ret_max=400, keep_facts=True, max_states=1000, watch=lambda k, n: k in ("call", "callx") and n == "_LowLevelReader")
    f = plain_fn(I, ck.prog, READER)
    ck.saw(READER)
    st = I.fresh()
    for t in (S("raw_path"), S("partitions", "list"), S("prefixes", "list")):
        st = st.assume(("truth", t), False)
    st = st.assume(("cmp", "is", INNER, NONE), False)
    kw = dict(select=C("*"), dataset=S("dataset", "str"), inner_reader=INNER, valid_dataset_prefixes=NONE, filters=NONE, raw_path=NONE, partitions=NONE, partition_filter=NONE, cursor=NONE, freshness_limit=S("freshness_limit", "str"))
    same = ("cmp", "eq", ("attr", RDR, "start_date"), ("attr", RDR, "end_date"))
    swap = ("cmp", "eq", same[3], same[2])
    for s, k, v in ck.took(I.call(st, f, (), kw)):
        off, eq = s.facts.get(("truth", LIMIT)), s.facts.get(same, s.facts.get(swap))
        if k == "ret":
            ck.ob("range-refused", "Reader", off is False or eq is True, "a freshness limit is accepted for a range of days", None, path_of(s.facts))
        elif v[0] == "exc" and v[1].split(".")[-1] == "InvalidCombinationError":
            ck.ob("day-accepted", "Reader", off is True and eq is False, "a freshness limit for a single day, or a read without one, is refused", None, path_of(s.facts))
    ck.need("range-refused", 2)
    ck.need("day-accepted", 1)
    ck.need("limit-kept", 1)
