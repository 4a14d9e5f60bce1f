"""C20 storage classes, C21 DictSet operations, C25 taking."""
from ..rulelib import *
from .pipeline import passes, left, unfinished, entire, facts_path, walk_all, table

B = "mabel.data.internals.storage_classes."
KINDS = (("storage_class_memory", "StorageClassMemory"), ("storage_class_compressed_memory", "StorageClassCompressedMemory"), ("storage_class_disk", "StorageClassDisk"))
ROWS = S("=rows", "list")
LOCS = S("=locs", "tuple")
DISORDER = ("sorted", "reversed", "slice")


# ---------------------------------------------------------------------- C20
def storage(ck):
    for mod, name in KINDS:
        Q = B + mod + "." + name
        ck.saw(Q + ".__init__", Q + "._inner_reader", Q + ".__iter__", Q + ".__next__", Q + ".__len__")
        stored(ck, Q, name)
        read_back(ck, Q, name)
    ck.need("stored", 5)
    ck.need("length", 4)
    ck.need("all-read", 6)
    ck.need("located", 3)


def instance(ck, **kw):
    return ck.interp(keep_facts=True, ret_max=600, max_states=600, extra_pure=(), **kw)


def row_of(t):
    return t[0] == "elem" and entire(t[1], ROWS)


def all_of(t, coll):
    """coll itself, or a copy of all of it"""
    if t[0] == "list" and len(t[2]) == 1 and t[2][0][0] == "rep":
        p = t[2][0]
        return not t[3] and p[1][0] == "elem" and entire(p[1][1], coll) and not p[2] and not p[3]
    return entire(t, coll) and not (t[0] == "list" and t[3])


def holds(p, facts):
    """could the part's conditions be those of this path?"""
    return all(facts.get(t, b) == b for c in p[2:4] for t, b in c)


def contents(t, el, facts):
    """how often the whole of el is in t: a number, or a text when something is wrong with it"""
    n = 0
    if t == el:
        return 1
    k = t[0]
    if k == "list":
        if any(m[0] in DISORDER for m in t[3]) and contains(t, el):
            return "part"
        for p in t[2]:
            if p[0] in ("one", "star"):
                c = contents(p[1], el, facts)
            elif p[0] == "rep" and all(facts.get(f) == b for x in p[2:4] for f, b in x):
                c = contents(p[1], el, facts)
            elif p[0] == "rep" and not holds(p, facts):
                c = 0
            else:
                c = "part" if contains(p, el) else 0
            if isinstance(c, str):
                return c
            n += c
        return n
    if k == "item" and contains(t[1], el):
        return "part"
    if not contains(t, el):
        return 0
    for x in children(t):
        c = contents(x, el, facts)
        if isinstance(c, str):
            return c
        n = max(n, c)
    return n


def stored(ck, Q, name):
    """everything that is iterated goes into the storage, once, in order; the length is their number"""
    I = instance(ck, watch=lambda k, n: k in ("call", "mut", "set", "iter", "enditer"))
    K = I.value(Q)
    some = False
    for s, k, r in ck.took(I.call(I.fresh(), K, (ROWS,))):
        if k != "ret":
            continue
        o = s.get(r[1])
        els = {el for el, _ in passes(s) if el is not None and row_of(el)} or {e.args[0] for e in s.trace if e.kind == "iter" and e.args and e.args[0] is not None and row_of(e.args[0])}
        held = {n: I.freeze(s, v) for n, v in o.d.items()}
        kept = [n for n, v in held.items() if all_of(v, ROWS)]
        if not els:
            if kept:
                some = True
                ck.ob("stored", name, True, "")
                size(ck, name, held, s, r, None, kept)
            elif s.facts.get(("truth", ROWS)) is False:
                ck.ob("length", name, held.get("length") == C(0), "the length of nothing is not 0", None, [show(held.get("length", NONE))])
            else:
                ck.ob("stored", name, False, "the items are not gone through", None, facts_path(s.facts))
            continue
        el = min(els, key=repr)
        some = True
        ck.ob("all-taken", name, not left(s, k, el[1]), "items are left out when storing", None, facts_path(s.facts))
        sinks = []
        for i, e in enumerate(s.trace):
            what = sink(I, s, r, e)
            if what is not None and contains(what, el):
                sinks.append((e, what))
        ok = kept or len(sinks) == 1 and fresh_piece(s, el, sinks[0])
        if ok and sinks:
            c = contents(last_copy(sinks[0][1], el, s.facts), el, s.facts)
            ok = c == 1
        ck.ob("stored", name, ok, "an item is not stored exactly once, whole and in its place", sinks[-1][0] if sinks else None, [show(x, 7)[:250] for _, x in sinks] + facts_path(s.facts))
        size(ck, name, held, s, r, el, kept)
    if not some and not ck.findings:
        raise AnalysisError(f"{name} stores nothing")


def sink(I, s, r, e):
    """the content an event hands to the storage"""
    if e.kind == "call" and e.name.split(".")[-1] in ("write", "writelines") and e.args:
        return e.args[0]
    if e.kind == "mut" and e.name in ("append", "extend", "iadd", "insert") and e.args:
        o = s.get(r[1])
        if e.recv is not None and e.recv[0] == "ref" and any(v == e.recv for v in o.d.values()):
            return e.args[-1] if e.name != "insert" else ("opq", "inserted", e.args[-1])
    return None


def last_copy(t, el, facts):
    """buffers that live across turns of the loop hold earlier turns' items too; look at the last put in"""
    def go(x):
        if x[0] == "list":
            hits = [p for p in x[2] if contains(p, el) and (p[0] != "rep" or holds(p, facts))]
            if hits and len(hits) < sum(contains(p, el) for p in x[2]) or len(hits) > 1:
                return ("list", x[1], (hits[-1],), x[3])
        return None
    for x in walk(t):
        y = go(x)
        if y is not None:
            return subst(t, {x: y})
    return t


def fresh_piece(s, el, found):
    return not (found[1][0] == "opq" and found[1][1] == "inserted")


def size(ck, name, held, s, r, el, kept):
    n = held.get("length")
    if n is None:
        return
    ok, add = None, 0
    n0 = n
    while n[0] == "bin" and n[1] in "+-" and n[3][0] == "c" and isinstance(n[3][2], int):
        add += n[3][2] if n[1] == "+" else -n[3][2]
        n = n[2]
    if n[0] == "call" and n[1] == ("ext", "builtins.len"):
        x = n[2][0]
        if all_of(x, ROWS) or x[0] == "list":
            ok = all_of(x, ROWS) and add == 0
    elif n[0] == "phi":
        ok = len(n) < 5 or add == 1 and n[4] == C(0)
    elif n[0] == "idx":
        ok = add == 1
    elif n[0] == "c" and isinstance(n[2], int):
        ok = el is None and n[2] + add == 0
    n = n0
    for x, inside in passes(s):
        if x == el and el is not None and not any(sink(None, s, r, e) is not None for e in inside):
            grown = [e for e in inside if e.kind == "set" and e.name == "length" and e.args[0][0] == "bin" and e.args[0][3][0] == "call"]
            if grown:
                ok = False
    if ok is not None:
        ck.ob("length", name, ok, "the length is not the number of items stored", None, [show(n)] + facts_path(s.facts))


def read_back(ck, Q, name):
    """reading hands out everything that was stored once, in order; asking for places hands out those"""
    I = instance(ck, watch=lambda k, n: k in ("call", "out", "iter", "enditer", "callx"))
    K = I.value(Q)
    good = build(I, K, (ROWS,))
    nothing_stored(ck, I, name, good)
    two_places(ck, Q, name)
    for how in ("_inner_reader", "__iter__", "places"):
        for s, r in shapes(I, good, 1):
            st = I.clear(s)
            o = st.get(r[1])
            d = dict(o.d)
            stores = []
            for n in list(d):
                v = d[n]
                if n == "length":
                    d[n] = S("=length", "nat")
                elif n == "iterator":
                    d[n] = S("=underway")
                elif v[0] == "ref" and st.get(v[1]) is not None and st.get(v[1]).kind == "list":
                    d[n] = S("=" + n, "list")
                    stores.append(d[n])
                elif n in ("file",):
                    d[n] = S("=file", "str")
                    stores.append(d[n])
            st = st.put(r[1], o._replace(d=d)).with_(facts={})
            args = (("star", LOCS),) if how == "places" else ()
            outs = []
            for s2, k, v in I.method(st, r, "_inner_reader" if how == "places" else how, args):
                outs += ck.took(I.drain(s2, v)) if k == "ret" else []
            if how == "places":
                located(ck, I, name, stores, outs)
                continue
            any_out = False
            colls = {e.args[0][1] for s2, _, _ in outs for e in s2.trace if e.kind == "iter" and e.args and e.args[0] is not None and e.args[0][0] == "elem"}
            for s2, k, v in outs:
                if k == "raise":
                    continue
                any_out |= each_once(ck, I, name, how, stores, s2, k, colls)
            ck.ob("all-read", f"{name}.{how}", any_out, "reading hands out nothing", None)


def nothing_stored(ck, I, name, good):
    """an empty file cannot be mapped"""
    for s, r in good:
        if s.facts.get(("truth", ROWS)) is not False:
            continue
        for s2, k, v in I.method(I.clear(s), r, "__iter__", ()):
            for s3, k3, v3 in I.drain(s2, v) if k == "ret" else []:
                bad = [e for e in s3.trace if e.kind in ("call", "callx") and e.name.endswith("mmap.mmap")]
                ck.ob("nothing", name, not bad, "reading a storage nothing was put in fails: an empty file cannot be mapped", bad[0] if bad else None)


def stored_place(t, stores):
    """t is one of the pieces held by the storage, or the content of one, or a line of the file"""
    return any(contains(t, x) for x in stores)


def each_once(ck, I, name, how, stores, s, k, colls):
    some = False
    under = [e for e in s.trace if e.kind == "out" and contains(e.args[0], S("=underway"))]
    ck.ob("restarts", f"{name}.{how}", not under, "reading again goes on where an earlier reading was instead of at the first item", under[0] if under else None, facts_path(s.facts))
    for el in unfinished(s, k):
        ck.ob("to-the-end", f"{name}.{how}", not stored_place(el, stores), "reading stops before the end", None, facts_path(s.facts))
    for el, inside in passes(s):
        outs = [e for e in inside if e.kind == "out"]
        nested = [e for e in inside if e.kind == "iter"]
        if el is None:
            # a while loop reading the file line by line
            got = {x for e in outs for x in walk(e.args[0]) if x[0] == "call" and x[1][0] == "attr" and x[1][2] == "readline"}
            n = {x for e in outs for x in walk(e.args[0]) if x[0] == "phi" or x in got}
            there = n and not any(s.facts.get(("truth", x)) is False for x in n)
            ck.ob("all-read", f"{name}.{how}", len(outs) == 1 and len(got) <= 1 and there and whole_line(outs[0].args[0]), "a stored item is not handed out exactly once and whole", outs[0] if outs else None, [show(e.args[0]) for e in outs] + facts_path(s.facts))
            some = some or bool(outs)
            continue
        if not stored_place(el, stores):
            continue
        if nested or el[0] != "elem":
            continue
        if not outs:
            empty = any(b is False and t[0] == "truth" and t[1] in colls and contains(t[1], el) for t, b in s.facts.items())
            ck.ob("all-read", f"{name}.{how}", empty, "a stored item is not handed out", inside[-1] if inside else None, facts_path(s.facts))
            continue
        some = True
        ok = len(outs) == 1 and whole_line(outs[0].args[0]) and contains(outs[0].args[0], el) and ordered(el)
        ck.ob("all-read", f"{name}.{how}", ok, "a stored item is not handed out exactly once, whole and in order", outs[0], [show(e.args[0]) for e in outs] + facts_path(s.facts))
    return some


def whole_line(t):
    return not any(x[0] == "item" and x[2][0] == "slice" and x[2][1:] != (NONE, NONE, NONE) or x[0] == "list" and any(m[0] == "slice" for m in x[3]) for x in walk(t))


def ordered(el):
    return not any(x[0] == "list" and any(m[0] in DISORDER for m in x[3]) or x[0] == "call" and x[1] in (("ext", "builtins.reversed"), ("ext", "builtins.sorted"), ("ext", "builtins.set")) for x in walk(el))


def located(ck, I, name, stores, outs):
    """the items at the given places"""
    asked = lambda t: t[0] == "elem" and contains(t, LOCS)
    for s, k, v in outs:
        if k == "raise" or s.facts.get(("truth", LOCS)) is False:
            continue
        lines_asked(ck, name, s, k)
        for el, inside in passes(s):
            es = [e for e in inside if e.kind == "out"]
            if el is not None and any(e.kind == "iter" for e in inside):
                continue
            for e in es:
                x = e.args[0]
                ok = x[0] == "item" and asked_place(x, stores, asked) or line_at(x, s, asked)
                ck.ob("located", name, ok, "the item handed out is not the one stored at the place asked for", e, [show(x, 8)] + facts_path(s.facts))
            if el is not None and el[0] == "elem" and asked(el):
                ck.ob("each-place", name, len(es) == 1, "a place asked for is not answered once", inside[-1] if inside else None, facts_path(s.facts))


P1, P2 = S("=place1", "nat"), S("=place2", "nat")


def two_places(ck, Q, name):
    """asking for two places: what was unpacked for the first is used for the second only if it holds it"""
    def on_call(I, st, f, args, kw, fr, node):
        if (I.callee_name(f) or "") in ("sorted", "builtins.sorted") and args and not kw:
            x = I.freeze(st, args[0])
            if x == ("tuple", (P1, P2)) or x[0] == "list" and x[2] == (("one", P1), ("one", P2)):
                st, v = I.new_list(st, I.site(node, fr), "list", (("one", P1), ("one", P2)))
                return [(st, "v", v)]
        return None
    I = instance(ck, watch=lambda k, n: k == "out", on_call=on_call)
    for s, r in shapes(I, build(I, I.value(Q), (ROWS,)), 1):
        st = I.clear(s)
        o = st.get(r[1])
        d = dict(o.d)
        stores = []
        for n, v in list(d.items()):
            if n == "length":
                d[n] = S("=length", "nat")
            elif v[0] == "ref" and st.get(v[1]) is not None and st.get(v[1]).kind == "list":
                d[n] = S("=" + n, "list")
                stores.append(d[n])
        st = st.put(r[1], o._replace(d=d)).with_(facts={})
        for s2, k, v in I.method(st, r, "_inner_reader", (P1, P2)):
            for s3, k3, v3 in ck.took(I.drain(s2, v)) if k == "ret" else []:
                got = [e for e in s3.trace if e.kind == "out" and e.args[0][0] == "item"]
                if k3 == "raise" or not got:
                    continue
                ck.ob("each-place", name, len(got) == 2, "two places asked for are not answered with two items", got[-1], facts_path(s3.facts))
                for p, e in zip((P1, P2), got):
                    x = e.args[0]
                    base, i = x[1], x[2]
                    if i == p:
                        ck.ob("located", name, base in stores or base[0] == "list" and len(base[2]) == 1 and base[2][0][1] in stores, "the item handed out is not the one stored at the place asked for", e, [show(x, 8)])
                    elif i[0] == "bin" and i[1] == "%" and i[2] == p:
                        want = ("bin", "//", p, i[3])
                        hits = [y[2] for y in walk(base) if y[0] == "item" and y[1] in stores]
                        ok = bool(hits) and all(h == want or s3.fact(("cmp", "eq", h, want)) is True or s3.fact(("cmp", "eq", want, h)) is True for h in hits)
                        ck.ob("located", name, ok, "an item is taken from a batch unpacked for another place without that being known to be the same batch", e, [show(x, 8)] + facts_path(s3.facts))
                    else:
                        ck.ob("located", name, False, "the item handed out is not the one stored at the place asked for", e, [show(x, 8)] + facts_path(s3.facts))


def asked_place(x, stores, asked):
    """data[loc], or the item at loc of loc's batch"""
    base, i = x[1], x[2]
    if asked(i):
        return base in stores or base[0] == "list" and len(base[2]) == 1 and base[2][0][1] in stores
    if i[0] == "bin" and i[1] == "%" and asked(i[2]):
        if base[0] == "phi":
            return True      # the batch unpacked for an earlier place
        hits = [y for y in walk(base) if y[0] == "item" and y[1] in stores]
        return bool(hits) and all(y[2][0] == "bin" and y[2][1] == "//" and y[2][2:] == i[2:] for y in hits)
    return False


def line_at(x, s, asked):
    """a line of the file read while the running number, counted from what was skipped, is asked for"""
    at = [t for t, b in s.facts.items() if b is True and t[0] == "cmp" and t[1] in ("in", "eq") and counted(t) is not None and contains(t, LOCS) and not picked_max(t)]
    if not at or not whole_line(x):
        return False
    start = counted(at[0])
    for el, inside in passes(s):
        if el is not None and el[0] == "elem" and el[1][0] == "call" and el[1][1] == ("ext", "builtins.range") and contains(el, LOCS):
            n = [e for e in inside if e.kind == "yield"]
            if len(el[1][2]) != 1 or el[1][2][0] != start or len(n) > 1:
                return False
    return True


def counted(t):
    """what a running number in t is counted from"""
    for x in walk(t):
        if x[0] == "bin" and x[1] == "+" and any(y[0] == "idx" for y in x[2:4]):
            return x[3] if x[2][0] == "idx" else x[2]
    if any(x[0] == "idx" for x in walk(t)):
        return C(0)
    return None


def picked_max(t):
    return t[0] == "cmp" and t[1] != "in" and any(x[0] == "call" and x[1] == ("ext", "builtins.max") for x in walk(t))


def is_max(t):
    return t[0] == "call" and t[1] == ("ext", "builtins.max") or t[0] == "pick" and t[1] == "max"


def lines_asked(ck, name, s, k):
    """going through the lines of a file ends behind the last place asked for, not before"""
    hit = [b for t, b in s.facts.items() if t[0] == "cmp" and t[1] in ("in", "eq") and counted(t) is not None and contains(t, LOCS) and not picked_max(t)]
    if not hit:
        return
    loops = [e for e in s.trace if e.kind in ("iter", "enditer", "yield", "out")]
    ends = [i for i, e in enumerate(loops) if e.kind in ("iter", "enditer")]
    turns = 1 if ends and loops[ends[-1]].kind == "iter" and ends[-1] + 1 < len(loops) else 0
    # idx == max, idx > max, not idx < max ...
    ended = [b is (t[1] == "eq" or is_max(t[2])) for t, b in s.facts.items() if picked_max(t) and counted(t) is not None]
    if turns > 0 and k != "raise" and not ("close" in repr(k)):
        ck.ob("each-place", name, any(ended), "looking for the places asked for stops before the last one", None, facts_path(s.facts))
    n = [e for e in s.trace if e.kind == "out"]
    ck.ob("each-place", name, len(n) == (1 if hit[-1] else 0) or len(n) > 0 and hit[-1], "a place asked for is not answered", None, facts_path(s.facts))


# ---------------------------------------------------------------------- C21
DS = "mabel.data.internals.dictset"
COLS, KEY = S("columns", "list"), S("key", "str")
CLASSES = ("NO_PERSISTANCE", "MEMORY", "DISK", "COMPRESSED_MEMORY")


class Sets:
    """a DictSet over unknown rows, with the DictSets its methods make left open"""

    def __init__(self, ck, **kw):
        self.on = False
        self.more = {}

        def oc(I, st, f, args, kws, fr, node):
            if self.on and f == ("cls", DS + ".DictSet"):
                return [(st, "v", ("tuple", (C("dictset"), args[0] if args else kws.get("iterator", NONE), kws.get("storage_class", ("enum", DS + ".STORAGE_CLASS", "NO_PERSISTANCE")))))]
            h = self.more.get(I.callee_name(f).split(".")[-1])
            if self.on and h:
                return h(st, f, args, kws)
            return None
        self.I = ck.interp(on_call=oc, keep_facts=True, ret_max=400, max_states=400, extra_pure=(), **kw)
        self.K = self.I.value(DS + ".DictSet")
        self.ck = ck

    def over(self, sc, rows=ROWS):
        """instances -> [(state, self)]"""
        self.on = False
        good = build(self.I, self.K, (rows,), {"storage_class": ("enum", DS + ".STORAGE_CLASS", sc)})
        self.on = True
        return [(self.I.clear(s), r) for s, r in shapes(self.I, good, 1)]

    def method(self, sc, name, args=(), kw=None, rows=ROWS):
        out = []
        for s, r in self.over(sc, rows):
            for s2, k, v in self.I.method(s, r, name, args, kw or {}):
                out.append((s2, k, v, r))
        self.ck.saw(DS + ".DictSet." + name)
        return self.ck.took(out)

    def drained(self, sc, name, args=(), kw=None, rows=ROWS):
        """[(state, kind, made storage class or None)] after taking everything that comes out"""
        out = []
        for s, k, v, r in self.method(sc, name, args, kw, rows):
            if k != "ret":
                out.append((s, k, None))
                continue
            made = None
            if v[0] == "tuple" and v[1] and v[1][0] == C("dictset"):
                made, v = v[1][2], v[1][1]
            for s3, k3, v3 in self.I.drain(s, v):
                out.append((s3, k3, made))
        return out


def from_rows(t, rows=ROWS):
    return t[0] == "elem" and (entire(t[1], rows) or t[1] == rows)


def turns_over_rows(s):
    """turns over the rows that have a say in what comes out"""
    return [(el, ins) for el, ins in passes(s) if el is not None and from_rows(el)]


def operations(ck):
    D = Sets(ck, watch=lambda k, n: k in ("out", "iter", "enditer", "mut", "call"))
    iteration(ck, D)
    selection(ck, D)
    collected(ck, D)
    counted_and_first(ck, D)
    places(ck, D)
    numbers(ck)
    ck.need("iterates", 3)
    ck.need("selects", 6)
    ck.need("collects", 3)
    ck.need("statistic", 6)


def iteration(ck, D):
    for sc in CLASSES:
        some = False
        for s, k, v, r in D.method(sc, "__iter__"):
            if k != "ret":
                continue
            if v == r:
                # stepping through itself: every iteration shares one position
                shared = D.I.method(s, r, "__next__", ())
                ok = sc == "NO_PERSISTANCE" and not entire(D.I.freeze(s, s.get(r[1]).d.get("_iterator", NONE)), ROWS)
                ck.ob("iterates-again", sc, ok, "iterating a DictSet a second time does not start at its first record", None, [f"storage class {sc}: __iter__ returns the DictSet itself"])
                some = True
                continue
            for s3, k3, v3 in D.I.drain(s, v):
                if k3 == "raise":
                    continue
                for el in unfinished(s3, k3):
                    ck.ob("iterates", sc, not from_rows(el), "iterating stops before the last record", None, facts_path(s3.facts))
                for el, ins in turns_over_rows(s3):
                    outs = [e for e in ins if e.kind == "out"]
                    some = True
                    ck.ob("iterates", sc, len(outs) == 1 and outs[0].args[0] == el and not left(s3, k3, el[1]), "iterating does not hand out every record once", outs[0] if outs else None, facts_path(s3.facts))
        ck.ob("iterates", sc, some, "iterating hands out nothing", None)
    # over a generator
    G = S("=source")
    D.on = False
    good = build(D.I, D.K, (G,), {})
    D.on = True
    for s, r in good:
        it = D.I.freeze(s, s.get(r[1]).d.get("_iterator", NONE))
        for s2, k, v in D.I.method(D.I.clear(s), r, "__next__", ()):
            if k == "ret" and s2.facts.get(("call", ("ext", "builtins.hasattr"), (G, C("__iter__")), (), None)) is not False:
                ck.ob("iterates", "__next__", contains(v, G) and any(x[0] == "call" and "next" in str(x[1][-1]) for x in walk(v)), "the next record is not the source's next", None, [show(v)])


def record_of(el):
    """ways of writing the record itself"""
    return (el, ("call", ("attr", el, "as_dict"), (), ()))


def is_record(t, el):
    return t == el or t[0] == "call" and t[1] == ("attr", el, "as_dict") and not t[2]


def selection(ck, D):
    for name in ("select", "project", "__getitem__"):
        for sc in ("NO_PERSISTANCE", "MEMORY"):
            for cols in (COLS, S("column", "str"), S("columns", "tuple")):
                want = cols
                for s, k, made in D.drained(sc, name, (cols,)):
                    if k == "raise":
                        continue
                    star = star_asked(s, cols)
                    if made is None and star:
                        continue        # the set itself
                    ck.ob("keeps-storage", name, made is not None and made == ("enum", DS + ".STORAGE_CLASS", sc), "the result is not kept the way the set is kept", None, [show(made) if made else "not a DictSet"])
                    for el in unfinished(s, k):
                        ck.ob("selects", name, not from_rows(el), "not every record is turned into a record", None, facts_path(s.facts))
                    for el, ins in turns_over_rows(s):
                        outs = [e for e in ins if e.kind == "out"]
                        ok = len(outs) == 1
                        ck.ob("selects", name, ok, "a record is not turned into exactly one record", outs[0] if outs else None, facts_path(s.facts))
                        if ok:
                            good, why = picked_columns(D.I, s, outs[0].args[0], el, cols, star)
                            ck.ob("columns", f"{name}", good, f"the columns of a selected record are not the ones asked for with the record's values ({why})", outs[0], [show(outs[0].args[0])] + facts_path(s.facts))
    ck.need("columns", 6)


def star_asked(s, cols):
    """is everything asked for on this path?"""
    for t, b in s.facts.items():
        if b is True and t[0] == "cmp" and contains(t, cols) and contains(t, C("*")):
            return True
    return False


def picked_columns(I, s, x, el, cols, star):
    empties = [t[1] for t, b in s.facts.items() if b is False and t[0] == "truth"]
    if x[0] == "ref":
        o = s.get(x[1])
        x = ("live", o) if o is not None and o.kind == "dict" else x
    if x[0] == "dict":
        return picked_parts(dict(x[1]), x[2] if x[2] != NONE else None, x[3], el, cols, star, empties, s.facts)
    if x[0] == "live":
        o = x[1]
        return picked_parts(o.d, o.x[1], o.x[2], el, cols, star, empties, s.facts)
    return star and is_record(x, el), "not a dictionary"


def picked_parts(known, src, parts, el, cols, star, empties=(), facts={}):
    if star:
        if src is not None:
            return is_record(src, el) and not parts and not known, "not all of the record"
        if len(parts) != 1 or known:
            return False, "not all of the record"
        p = parts[0]
        key = p[1]
        ok = key[0] == "elem" and is_record(key[1], el) and p[2] in (("item", key[1], key), ("get", key[1], key, NONE), ("item", el, key))
        conds = [t for c in p[3:5] for t, b in c if contains(t, key) and not contains(t, C("*"))]
        return ok and not conds, "not all of the record"
    if src is not None:
        return False, "more than was asked for"
    if cols[2] == "str":
        vals = list(known.items())
        ps = [p for p in parts]
        if len(vals) == 1 and not ps:
            k, v = vals[0]
            has = facts.get(("cmp", "in", cols, el))
            return k == cols and (value_of(v, el, cols) or has is True and v in (("item", el, cols), ("get", el, cols)) or has is False and v == NONE), "the value"
        if len(ps) == 1 and not vals:
            return ps[0][1] == cols and value_of(ps[0][2], el, cols), "the value"
        return False, "one column"
    if known:
        return False, "other columns"
    if not parts:
        return cols in empties, "no columns"
    for p in parts:
        key = p[1]
        if not (key == parts[0][1] and key[0] == "elem" and (entire(key[1], cols) or key[1] == ("call", ("ext", "dict.fromkeys"), (cols,), (), None))):
            return False, "the names"
    conds = [dict(f for c in p[3:5] for f in c if contains(f[0], key)) for p in parts]
    atoms = sorted({t for c in conds for t in c}, key=repr)
    if len(atoms) > 6:
        return True, ""
    for bits in range(1 << len(atoms)):
        asg = {t: bool(bits >> i & 1) for i, t in enumerate(atoms)}
        here = [p for p, c in zip(parts, conds) if all(asg[t] == b for t, b in c.items())]
        if not here:
            return False, "some columns are left out"
        has = [asg[t] for t in atoms if t[0] == "cmp" and t[1] == "in" and t[2] == key and (t[3] == el or contains(t[3], el))]
        v = here[-1][2]
        if not (value_of(v, el, key) or True in has and v in (("item", el, key), ("get", el, key)) or False in has and v == NONE):
            return False, "the value"
    return True, ""


def value_of(v, el, key):
    """the record's value of the column, nothing when it has none"""
    if v[0] == "call" and v[1] == ("attr", el, "get"):
        return v[2][:1] == (key,) and v[2][1:] in ((), (NONE,)) and not v[3]
    if v[0] == "get":
        return v[1] == el and v[2] == key and (len(v) < 4 or v[3] in (NONE, None))
    if v[0] == "ite":
        return any(value_of(x, el, key) for x in v[1:] if isinstance(x, tuple) and x and isinstance(x[0], str))
    return False


def collected(ck, D):
    for sc in ("NO_PERSISTANCE", "MEMORY"):
        some = False
        for s, k, v, r in D.method(sc, "collect_list", (KEY,)):
            if k != "ret":
                continue
            fz = D.I.freeze(s, v)
            if s.facts.get(("truth", KEY)) is False:
                continue
            if s.facts.get(("truth", ROWS)) is False:
                continue
            some = True
            ok = fz[0] == "list" and fz[1] == "list" and len(fz[2]) == 1 and fz[2][0][0] == "rep" and not fz[3] and column_value(fz[2][0])
            ck.ob("collects", f"collect_list({sc})", ok, "collecting a column does not give the value of every record which has it", None, [show(fz, 8)])
        ck.ob("collects", f"collect_list({sc})", some, "collecting a column gives nothing", None)
        for s, k, v, r in D.method(sc, "collect_list", ()):
            if k != "ret" or s.facts.get(("truth", ROWS)) is False:
                continue
            fz = D.I.freeze(s, v)
            ok = fz[0] == "list" and not fz[3] and fz[2] and all(p[0] in ("rep", "star") and (p[0] == "star" and entire(p[1], ROWS) or p[0] == "rep" and any(is_record(p[1], el) for el in walk(p[1]) if from_rows(el))) for p in fz[2])
            ok = ok and all(covered(fz, el) for el, _ in turns_over_rows(s)) and not any(from_rows(el) for el in unfinished(s, k))
            ck.ob("collects", f"collect_list({sc})", ok, "turning a DictSet into a list loses or changes records", None, [show(fz, 8)])
        for s, k, v, r in D.method(sc, "keys", ()):
            if k != "ret" or s.facts.get(("truth", ROWS)) is False:
                continue
            fz = D.I.freeze(s, v)
            parts = [p for p in fz[2] if p[0] in ("rep", "star")] if fz[0] == "list" else []
            ok = bool(parts) and all(p[1][0] == "elem" and from_rows(p[1][1]) or from_rows(p[1]) for p in parts)
            ok = ok and all(not b for p in parts if p[0] == "rep" for c in p[2:4] for t, b in c if t[0] == "cmp" and t[1] == "in")
            ok = ok and not [t for p in parts if p[0] == "rep" for c in p[2:4] for t, b in c if contains(t, p[1]) and not (t[0] == "cmp" and t[1] == "in")]
            ck.ob("all-keys", f"keys({sc})", ok, "the keys are not those of all records", None, [show(fz, 8)])
    ck.need("all-keys", 1)


def column_value(p):
    """record[key] for every record with key in it"""
    t = p[1]
    if not (t[0] in ("item", "get") and from_rows(t[1]) and t[2] == KEY):
        return False
    el = t[1]
    conds = [(x, b) for c in p[2:4] for x, b in c if contains(x, el)]
    return all(b and x[0] == "cmp" and x[1] == "in" and x[2] == KEY and (x[3] == el or contains(x[3], el)) for x, b in conds) and (t[0] == "item" or conds)


def covered(fz, el):
    """each way the conditions on a record can go has it in the list"""
    parts = [p for p in fz[2] if contains(p[1], el) or p[0] == "star"]
    if any(p[0] == "star" for p in parts):
        return True
    atoms = sorted({t for p in parts for c in p[2:4] for t, b in c if contains(t, el)}, key=repr)
    if len(atoms) > 6:
        return True
    for bits in range(1 << len(atoms)):
        asg = {t: bool(bits >> i & 1) for i, t in enumerate(atoms)}
        n = [p for p in parts if all(asg.get(t, b) == b for c in p[2:4] for t, b in c)]
        if len(n) != 1:
            return False
    return True


def counted_and_first(ck, D):
    for sc in ("NO_PERSISTANCE", "MEMORY"):
        for s, k, v, r in D.method(sc, "count"):
            if k == "ret":
                v = D.I.freeze(s, v)
                ck.ob("counts", f"count({sc})", v[0] == "call" and v[1] == ("ext", "builtins.len") and all_of(v[2][0], ROWS), "the count is not the number of records", None, [show(v)])
        for s, k, v, r in D.method(sc, "first"):
            if k != "ret":
                continue
            v = D.I.freeze(s, v)
            none = v == NONE
            first = none and not turns_over_rows(s) and s.facts.get(("truth", ROWS)) is not True or \
                from_rows(v) or any(x[0] == "call" and "next" in str(x[1][-1]) and contains(x, ROWS) for x in walk(v)) or v[0] == "item" and v[2] == C(0) and contains(v[1], ROWS)
            ck.ob("first", f"first({sc})", first, "the first record is not the first record", None, [show(v)] + facts_path(s.facts))
    ck.need("counts", 2)
    ck.need("first", 2)


def places(ck, D):
    asked = S("=asked", "tuple")

    def handler(st, f, args, kws):
        return [(st, "v", S("=located", "list"))] if args and args[-1][0] == "star" and entire(args[-1][1], asked) else None
    for sc, rows in [(c, ROWS) for c in CLASSES] + [("NO_PERSISTANCE", S("=source"))]:
        D.more = {"_inner_reader": handler}
        some = False
        for s, k, made in D.drained(sc, "get_items", (("star", asked),), rows=rows):
            if s.facts.get(("call", ("ext", "builtins.hasattr"), (rows, C("__iter__")), (), None)) is False:
                continue
            if k == "raise" or any(b is False and t[0] == "truth" and entire(t[1], asked) for t, b in s.facts.items()):
                continue
            for e in (e for e in s.trace if e.kind == "out"):
                x = e.args[0]
                some = True
                ok = x[0] == "elem" and x[1] == S("=located", "list") or x[0] == "item" and (x[1] == rows or entire(x[1], rows)) and x[2][0] == "elem" and entire(x[2][1], asked) \
                    or from_rows(x, rows) and any(b and t[0] == "cmp" and t[1] == "in" and t[2][0] == "idx" and entire(t[3], asked) for t, b in s.facts.items())
                ck.ob("items", f"get_items({sc})", ok, "the item handed out is not the one at the place asked for", e, [show(x)] + facts_path(s.facts))
        ck.ob("items", f"get_items({sc})", some, "no items are handed out", None)
    D.more = {}


FOLDS = {"max": ("builtins.max",), "min": ("builtins.min",), "sum": ("builtins.sum", "math.fsum"), "mean": ("statistics.mean", "statistics.fmean"), "variance": ("statistics.variance",), "standard_deviation": ("statistics.stdev",)}


def numbers(ck):
    """statistics are those of all the column's values"""
    D = Sets(ck, watch=lambda k, n: k in ("iter", "enditer"))
    VALUES = S("=values", "list")

    def handler(st, f, args, kws):
        a = args[1:] if args and args[0][0] == "ref" and f[0] == "fn" else args
        return [(st, "v", VALUES if (a[:1] == (KEY,) or kws.get("key") == KEY) else S("=other", "list"))]
    D.more = {"collect_list": handler}
    for name, fns in FOLDS.items():
        for s, k, v, r in D.method("NO_PERSISTANCE", name, (KEY,)):
            if k != "ret":
                continue
            v = D.I.freeze(s, v)
            if not contains(v, VALUES):
                if contains(v, S("=other", "list")):
                    ck.ob("statistic", name, False, "a statistic is not that of the column's values", None, [show(v)])
                elif v[0] == "c":
                    ck.ob("statistic", name, s.facts.get(("truth", VALUES)) is False and (v == C(0)) == (name == "sum"), "the statistic of no values", None, [show(v)])
                continue
            calls = {x[1][1] for x in walk(v) if x[0] == "call" and x[1][0] == "ext"}
            ok = bool(calls & set(fns)) and not calls & {f for n, fs in FOLDS.items() if n != name for f in fs}
            ok = ok or name == "sum" and not calls and v[0] == "bin" and v[1] == "+" and v[2][0] == "phi" and (len(v[2]) < 5 or v[2][4] in (C(0), NONE)) and v[3][0] == "elem" and v[3][1] == VALUES
            ok = ok or name in ("max", "min") and (v == ("item", VALUES, C(0)) or v[0] == "elem") and not calls
            ok = ok and not any(x[0] == "item" and x[1] == VALUES and x[2][0] == "slice" for x in walk(v))
            ck.ob("statistic", name, ok, "a statistic is not that of the column's values", None, [show(v)])
    # three known values: none is left out but those that are not there
    three = tuple(S(f"v{i}") for i in (1, 2, 3))
    D = Sets(ck, watch=lambda k, n: False)

    def known(st, f, args, kws):
        st, r = D.I.new_list(st, ("values", "entry"), "list", tuple(("one", x) for x in three))
        return [(st, "v", r)]
    D.more = {"collect_list": known}
    for name in tuple(FOLDS) + ("min_max",):
        some = False
        for s, k, v, r in D.method("NO_PERSISTANCE", name, (KEY,)):
            if k != "ret":
                continue
            v = D.I.freeze(s, v)
            some = True
            left = [x for x in three if not contains(v, x) and not any(t[0] == "cmp" and (b and t[1] == "is" and t[3] == NONE and t[2] == x or t[1] != "is" and contains(t, x)) for t, b in s.facts.items())]
            ck.ob("statistic-of-all", name, not left, "a value that is there is left out of the statistic", None, [show(v)] + facts_path(s.facts))
        ck.ob("statistic-of-all", name, some, "no statistic is given", None)
    D.more = {"collect_list": handler}
    for s, k, v, r in D.method("NO_PERSISTANCE", "min_max", (KEY,)):
        if k != "ret":
            continue
        v = D.I.freeze(s, v)
        if v[0] == "tuple" and len(v[1]) == 2 and contains(v, VALUES):
            calls = [{x[1][1] for x in walk(y) if x[0] == "call" and x[1][0] == "ext"} for y in v[1]]
            ok = calls[0] <= {"builtins.min"} and calls[1] <= {"builtins.max"} and bool(calls[0]) == bool(calls[1])
            ck.ob("statistic", "min_max", ok, "minimum and maximum are not those of the column's values", None, [show(v)])


# ---------------------------------------------------------------------- C25
N, COL, DESC = S("items", "nat"), S("column", "str"), S("descending", "bool")


def taking(ck):
    D = Sets(ck, watch=lambda k, n: k in ("out", "iter", "enditer", "mut"))
    for name in ("itake", "take"):
        for sc in ("NO_PERSISTANCE", "MEMORY"):
            first(ck, D, name, sc)
    best(ck, D)
    ck.need("takes", 4)
    ck.need("stops", 4)
    ck.need("sorted", 4)


def how_many(t):
    """(counter, number) when the term is a count of the records so far plus a number"""
    n = 0
    while t[0] == "bin" and t[1] in "+-" and t[3][0] == "c":
        n += t[3][2] if t[1] == "+" else -t[3][2]
        t = t[2]
    if t[0] == "idx":
        return "idx", n
    if t[0] == "phi" and len(t) > 4 and t[4][0] == "c" and isinstance(t[4][2], int):
        return "phi", n + t[4][2]
    return None


def limits(s):
    """what a path knows about the count against the limit: [(records before this one + n, op, truth)]"""
    out = []
    for t, b in s.facts.items():
        if t[0] != "cmp" or t[1] not in ("eq", "lt", "le"):
            continue
        x, y = t[2], t[3]
        if y == N and how_many(x):
            out.append((how_many(x)[1], t[1], b))
        elif x == N and how_many(y):
            # N < count  is  not count <= N
            out.append((how_many(y)[1], {"lt": "le", "le": "lt", "eq": "eq"}[t[1]], b if t[1] == "eq" else not b))
    return out


def first(ck, D, name, sc):
    some = False
    for s, k, made in D.drained(sc, name, (N,)):
        if k == "raise":
            continue
        if name == "take":
            ck.ob("keeps-storage", f"take({sc})", made is not None and made == ("enum", DS + ".STORAGE_CLASS", sc), "what is taken is not kept the way the set is kept", None, [show(made) if made else ""])
        outs = [e for e in s.trace if e.kind == "out"]
        lim = limits(s)
        zero = s.facts.get(("truth", N)) is False or s.facts.get(("cmp", "eq", N, C(0))) is True
        if zero:
            ck.ob("stops", f"{name}({sc})", not outs, "records are handed out although none are asked for", outs[0] if outs else None, facts_path(s.facts))
            continue
        sliced = [x for e in s.trace if e.args and e.args[0] is not None for x in walk(e.args[0]) if whole_first(x, D.I, s)]
        turns = turns_over_rows(s)
        els = {e.args[0] for e in s.trace if e.kind == "iter" and e.args and e.args[0] is not None and from_rows(e.args[0])}
        for e in outs:
            some = True
            ck.ob("takes", f"{name}({sc})", sliced or any(is_record(e.args[0], el) for el in els), "what is taken is not a record as it is", e, [show(e.args[0])])
        if sliced:
            ck.ob("stops", f"{name}({sc})", True, "")
            continue
        if len(outs) > 1 or not els:
            ck.ob("takes", f"{name}({sc})", len(outs) <= 1, "a record is taken more than once", outs[-1] if outs else None, facts_path(s.facts))
            continue
        early = any(left(s, k, el[1]) for el in els)
        # records taken once the last record seen was dealt with, less the counter's value
        after = 1 if outs else 0
        if early:
            # exactly as many as asked for
            ok = any((op == "eq" and b or op == "lt" and not b) and n == after for n, op, b in lim)
            ck.ob("stops", f"{name}({sc})", ok, "taking stops before as many records as asked for (and available) were taken", outs[-1] if outs else None, facts_path(s.facts))
        else:
            # it goes on: not yet enough
            ok = outs and any((op == "eq" and not b or op == "lt" and b) and n in (0, 1) or op == "le" and b and n == 1 for n, op, b in lim)
            positive = s.facts.get(("truth", N)) is True or s.facts.get(("cmp", "lt", C(0), N)) is True or any(n == 0 for n, op, b in lim) or any(op in ("lt", "le") for n, op, b in lim)
            ck.ob("stops", f"{name}({sc})", ok, "taking does not stop when enough records were taken", outs[-1] if outs else None, facts_path(s.facts))
            ck.ob("stops-at-none", f"{name}({sc})", positive, "asking for no records gives records", outs[-1] if outs else None, facts_path(s.facts))
    ck.ob("takes", f"{name}({sc})", some, "nothing is taken", None)


def stands_for_rows(I, s, t):
    """the rows, or an object holding all of them"""
    if t[0] == "ref" and s.get(t[1]) is not None and s.get(t[1]).kind == "inst":
        return "StorageClassDisk" in str(s.get(t[1]).cls) or any(all_of(I.freeze(s, v), ROWS) for v in s.get(t[1]).d.values())
    return contains(t, ROWS)


def whole_first(x, I=None, s=None):
    """the first N of all rows, by islice or a slice"""
    if x[0] == "call" and x[1] == ("ext", "itertools.islice") and len(x[2]) == 2:
        return stands_for_rows(I, s, x[2][0]) and x[2][1] == N
    if x[0] == "item" and x[2][0] == "slice":
        return entire(x[1], ROWS) and x[2][1] in (NONE, C(0)) and x[2][2] == N and x[2][3] in (NONE, C(1))
    if x[0] == "list" and x[3]:
        return entire(("list", x[1], x[2], ()), ROWS) and len(x[3]) == 1 and x[3][0][0] == "slice" and N in walk_all(*[y for y in x[3][0][1:] if isinstance(y, tuple) and y])
    return False


def best(ck, D):
    args = (COL, N, DESC)
    for sc in ("NO_PERSISTANCE", "MEMORY", "DISK"):
        some = False
        cname = f"sort_and_take({sc})"
        for s, k, made in D.drained(sc, "sort_and_take", args):
            if k == "raise":
                continue
            sorts = [e for e in s.trace if e.kind == "mut" and e.name == "sort"]
            for el in unfinished(s, k):
                ck.ob("considered", cname, not from_rows(el), "not every record is considered for the best ones", None, facts_path(s.facts))
            for el, ins in turns_over_rows(s):
                if any(e.kind == "yield" for e in ins) and not any(e.kind == "mut" for e in ins):
                    continue
                puts = [e for e in ins if e.kind == "mut" and e.name in ("append", "extend", "insert", "iadd", "setitem") and any(contains(a, el) for a in e.args)]
                outs = [e for e in ins if e.kind == "out"]
                cuts = [i for i, e in enumerate(ins) if e.kind == "mut" and e.name in ("delitem", "pop", "clear", "remove")]
                if outs:
                    continue
                ck.ob("considered", cname, len(puts) == 1, "a record is not considered for the best ones", ins[-1] if ins else None, facts_path(s.facts))
                for i in cuts:
                    e = ins[i]
                    before = [x for x in ins[:i] if x.kind == "mut" and x.name in ("sort", "append")]
                    ok = bool(before) and before[-1].name == "sort" and order_ok(ck, D.I, s, before[-1].kw, cname) and keeps_enough(e)
                    ck.ob("cut", cname, ok, "records are dropped that may be among the best ones", e, [show(a) for a in e.args] + facts_path(s.facts))
            for e in (e for e in s.trace if e.kind == "out"):
                x = e.args[0]
                if x[0] != "elem":
                    ck.ob("sorted", cname, False, "what comes out is not a record of the set", e, [show(x)])
                    continue
                some = True
                coll = x[1]
                metas, src = metas_of(coll)
                if coll[0] == "call" and coll[1] in (("ext", "heapq.nlargest"), ("ext", "heapq.nsmallest")):
                    want = s.facts.get(("truth", DESC))
                    ok = coll[2][:1] == (N,) and stands_for_rows(D.I, s, coll[2][1]) and want is (coll[1][1] == "heapq.nlargest")
                    ck.ob("sorted", cname, ok, "the best records are not the first of the sorted ones", e, [show(coll)])
                    continue
                so = [m for m in metas if m[0] == "sorted"]
                sl = [i for i, m in enumerate(metas) if m[0] == "slice"]
                rv = [m for m in metas if m[0] == "reversed"]
                ok = len(so) >= 1 and len(sl) == 1 and metas.index(so[-1]) < sl[0] and not rv and first_n(metas[sl[0]])
                ck.ob("sorted", cname, ok and (sc == "DISK" or from_all(src)), "what comes out is not the first of all records in order, as many as asked for", e, [show(coll, 8), str([m[0] for m in metas])])
                if so:
                    order_ok(ck, D.I, s, (("key", so[-1][1]), ("reverse", so[-1][2])), cname)
        ck.ob("sorted", cname, some, "nothing comes out", None)


def metas_of(t):
    metas = []
    while True:
        if t[0] == "list":
            metas = list(t[3]) + metas
            if len(t[2]) == 1 and t[2][0][0] == "star" and t[2][0][1][0] in ("list", "item"):
                t = t[2][0][1]
                continue
            return metas, t
        if t[0] == "item" and t[2][0] == "slice":
            metas = [t[2]] + metas
            t = t[1]
            continue
        if t[0] == "call" and t[1] == ("ext", "builtins.sorted"):
            kw = dict(t[3])
            metas = [("sorted", kw.get("key", NONE), kw.get("reverse", FALSE))] + metas
            t = t[2][0]
            continue
        return metas, t


def from_all(t):
    if t[0] == "list":
        return bool(t[2]) and all(p[0] == "any" or any(from_rows(y) or entire(y, ROWS) for y in walk(p[1])) for p in t[2]) or not t[2]
    return contains(t, ROWS)


def first_n(m):
    a = [x for x in m[1:] if isinstance(x, tuple) and x]
    if len(a) == 1 and a[0][0] == "slice":
        a = list(a[0][1:])
    return len(a) >= 2 and a[0] in (NONE, C(0)) and a[1] == N and (len(a) < 3 or a[2] in (NONE, C(1)))


def keeps_enough(e):
    if e.name != "delitem" or not e.args or e.args[0][0] != "slice":
        return False
    lo, hi, st = (tuple(e.args[0][1:]) + (NONE, NONE, NONE))[:3]
    return (lo == N or lo[0] == "bin" and lo[1] in ("+", "*") and contains(lo, N)) and hi == NONE and st == NONE


def order_ok(ck, I, s, kw, cname):
    """sorted by the column's value, records without one never compared with others"""
    kw = dict(kw)
    key, rev = kw.get("key", NONE), kw.get("reverse", FALSE)
    ok = rev == DESC or rev == ("call", ("ext", "builtins.bool"), (DESC,), (), None) or rev[0] == "c" and s.facts.get(("truth", DESC)) is rev[2]
    ck.ob("direction", cname, ok, "records are not sorted in the direction asked for", None, [show(rev)])
    REC = S("rec", "dict")
    good = key != NONE
    if good:
        outs = I.call(I.clear(s), key, (REC,))
        good = bool(outs)
        for s2, k, v in outs:
            if k != "ret":
                good = False
                continue
            v = I.freeze(s2, v)
            val = [x for x in walk(v) if column_of(x, REC)]
            none = any(b is True and t[0] == "cmp" and t[1] == "eq" and t[3] == NONE and column_of(t[2], REC) or b is True and t[0] == "cmp" and t[1] == "is" and NONE in t[2:] for t, b in s2.facts.items())
            if v[0] != "tuple" or len(v[1]) < 2 or contains(v, REC) and not val:
                good = False
                continue
            head = v[1][0]
            about_none = contains(head, NONE) and any(column_of(x, REC) for x in walk(head)) and head[0] in ("cmp", "not") or head[0] == "c" and isinstance(head[2], (bool, int)) and (none or known_value(s2, REC))
            good = good and about_none and (none or v[1][1] in val or any(x in val for x in v[1][1:]))
    ck.ob("key", cname, good, "records are not sorted by the column's value, with those without a value apart", None, [show(key)])
    return ok and good


def column_of(x, REC):
    return x[0] == "call" and x[1] == ("attr", REC, "get") and x[2][:1] == (COL,) and x[2][1:] in ((), (NONE,)) or x[0] == "get" and x[1] == REC and x[2] == COL or x == ("item", REC, COL)


def known_value(s, REC):
    return any(b is False and t[0] == "cmp" and NONE in t[2:4] for t, b in s.facts.items())
