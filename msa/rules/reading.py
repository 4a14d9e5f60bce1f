"""C11 frame choice, C13 dead letters are not data, C18 partition folders and days of the blob listing."""
from ..rulelib import *
from .dating import cycles

RBASE = "mabel.data.readers.internals.base_inner_reader.BaseInnerReader"
LISTING, DATES, PATH = S("listing", "list"), S("dates", "list"), S("path", "str")


def readers(I, prog):
    out = [q for q in sorted(prog.classes) if q != RBASE and RBASE in I.mro(None, q)]
    if not out:
        raise AnalysisError("no reader adapters found")
    return out


def kw_of(prog, I, q):
    kw = {}
    for c in I.mro(None, q):
        ci = prog.classes.get(c)
        for n in ci.node.body if ci else ():
            if isinstance(n, ast.FunctionDef) and n.name == "__init__":
                for a in n.args.args[1:] + n.args.kwonlyargs:
                    kw.setdefault(a.arg, S(a.arg))
    return kw


def reader(I, prog, q, **attrs):
    kw = kw_of(prog, I, q)
    kw.update(dataset=S("dataset", "str"), partitions=NONE)
    st, ref = build(I, I.value(q), (), kw)[0]
    st = I.clear(st)
    o = st.get(ref[1])
    d = dict(o.d)
    d.update(attrs)
    return st.put(ref[1], o._replace(d=d)), ref


def dissect(I, st, f, args, kw):
    """a helper that takes one blob name apart by searching it is a function of its arguments"""
    if f[0] != "fn" or not args:
        return None
    fi = I.prog.funcs[f[3]]
    if fi.is_gen or not any(isinstance(n, (ast.Try, ast.For, ast.While, ast.comprehension)) for n in ast.walk(fi.node)):
        return None
    src = ast.unparse(fi.node)
    if "BACKOUT" in src or "frame." in src:
        return None
    vals = list(args) + list(kw.values())
    for v in vals:
        if v[0] == "ref" and st.get(v[1]) is not None and st.get(v[1]).kind != "inst":
            return None
    fz = tuple(I.freeze(st, a) for a in args)
    if not any(any_term(a, lambda x: x[0] == "elem" and x[1] == LISTING) for a in fz):
        return None
    return [(st, "v", ("call", f, fz, tuple(sorted((k, I.freeze(st, v)) for k, v in kw.items())), None))]


def listing(ck, pf, heavy=True):
    """every path of get_list_of_blobs over an unknown listing -> (interp, [(state, value)])"""
    prog = ck.prog
    calls = []

    def oc(I, st, f, args, kw, fr, node):
        n = I.callee_name(f).split(".")[-1]
        if n == "get_blobs_at_path":
            st = I.emit(st, "call", ".get_blobs_at_path", None, args, kw, LISTING, fr, node)
            return [(st, "v", LISTING)]
        if n == "build_path":
            return [(st, "v", ("call", ("ext", "build_path"), tuple(I.freeze(st, a) for a in args), tuple(sorted((k, I.freeze(st, v)) for k, v in kw.items())), None))]
        if n == "date_range":
            st = I.emit(st, "call", "date_range", None, args, kw, DATES, fr, node)
            return [(st, "v", DATES)]
        return dissect(I, st, f, args, kw)
    I = ck.interp(stop={"build_path", "sanitize", "date_range", "get_blobs_at_path"}, ret_max=3000, max_states=6000,
                  watch=lambda k, n: k in ("call", "callx"), on_call=oc, factless=("iter", "enditer", "log", "set", "mut", "call", "callx"))
    seen = []

    def hook(ev, st):
        if ev.kind == "call" and ev.name == ".get_blobs_at_path":
            seen.append((ev, dict(st.facts), st.loops))
        if ev.kind == "call" and ev.name == "date_range":
            calls.append((ev, dict(st.facts)))
    I.hook = hook
    done = set()
    outs = []
    for q in readers(I, prog):
        owner = next((c for c in I.mro(None, q) if prog.classes.get(c) and any(isinstance(n, ast.FunctionDef) and n.name == "get_list_of_blobs" for n in prog.classes[c].node.body)), None)
        if owner is None:
            raise AnalysisError(f"{q} has no get_list_of_blobs")
        if owner in done:
            continue
        done.add(owner)
        ck.saw(owner + ".get_list_of_blobs")
        st, ref = reader(I, prog, q, partition_filter=pf, start_date=S("start"), end_date=S("end"), dataset=S("dataset", "str"))
        for s, k, v in ck.took(I.method(st, ref, "get_list_of_blobs", ())):
            if k == "ret":
                outs.append((owner, s, v))
    return I, outs, seen, calls


def parts_of(I, outs):
    """the distinct groups of blobs the listing returns, with what is known of each: (owner, part)"""
    out = {}
    for owner, s, v in outs:
        if v[0] == "ref" and s.get(v[1]) is not None and s.get(v[1]).kind in ("list", "set"):
            o = s.get(v[1])
            for p in o.d:
                out.setdefault((owner, p), s)
        elif v[0] == "c":
            continue
        else:
            f = I.freeze(s, v)
            if f[0] == "list":
                for p in f[2]:
                    out.setdefault((owner, p), s)
    return [(o, p) for o, p in out]


def blob_elem(p):
    """the listed blob a part is about"""
    if p[0] != "rep":
        return None
    for x in walk(p[1]):
        if x[0] == "elem" and x[1] == LISTING:
            return x
    return None


def conds_as(conds, frm, to):
    return frozenset((subst(t, {frm: to}), b) for t, b in conds)


def some(t):
    """conditions of an `exists` over the listing, on the placeholder element"""
    return t[2] if t[0] == "exists" and t[1] == LISTING else None


def vacuous(p, e):
    """the group is known to be empty: no blob satisfies what its members satisfy"""
    mine = conds_as(p[2], e, ("elem", LISTING, "_"))
    for t, b in p[2] | p[3]:
        c = some(t)
        if c is not None and b is False and c <= mine:
            return True
    return False


def with_word(t, word):
    return any_term(t, lambda x: x[0] == "c" and isinstance(x[2], str) and word in x[2])


def marker(t, word):
    """`exists a blob containing <frame>/<word>` -> the frame name"""
    c = some(t)
    for ct, b in c or ():
        if b is True and ct[0] == "cmp" and ct[1] == "in" and ct[2][0] == "cat" and ct[3][0] == "elem" and ct[2][1][-1][0] == "c" and str(ct[2][1][-1][2]).endswith(word):
            x = ct[2][1][:-1]
            x = tuple(y for y in x if y[0] != "c")
            if len(x) == 1:
                return x[0]
        elif b is True and ct[0] == "truth" and ct[1][0] == "call" and ct[1][1][0] == "attr" and ct[1][1][2] == "endswith" and ct[1][2] and ct[1][2][0][0] == "cat":
            y = ct[1][2][0][1]
            if y[-1][0] == "c" and str(y[-1][2]).endswith(word):
                x = tuple(z for z in y[:-1] if z[0] != "c")
                if len(x) == 1:
                    return x[0]
    return None


def frame_facts(p):
    comp, ign = {}, {}
    for t, b in p[2] | p[3]:
        for word, d in (("frame.complete", comp), ("frame.ignore", ign)):
            x = marker(t, word)
            if x is not None:
                d.setdefault(x, {})[t] = b
    return comp, ign


def pinned(p, e):
    """values the group's blobs are tied to: f(blob) == X, or X in blob"""
    out = []
    for t, b in p[2]:
        if t[0] == "cmp" and t[1] in ("eq", "in") and b is True:
            l, r = t[2], t[3]
            for x, y in ((l, r), (r, l)):
                if contains(x, e) and not contains(y, e):
                    out.append((t, y))
    return out


def frames(ck):
    I, outs, seen, _ = listing(ck, NONE)
    n = 0
    for owner, p in parts_of(I, outs):
        fn = owner.split(".")[-1] + ".get_list_of_blobs"
        e = blob_elem(p)
        if e is None or vacuous(p, e):
            continue
        noframes = any(some(t) is not None and b is False and any(with_word(ct, "as_at_") for ct, _ in some(t)) for t, b in p[2] | p[3])
        comp, ign = frame_facts(p)
        pins = pinned(p, e)
        chosen = [x for x in comp if any(contains(y, x) for _, y in pins)]
        if noframes and not comp:
            ck.ob("unframed", fn, True, "")
            continue
        if not ck.ob("one-frame", fn, chosen, "blobs of a folder that holds frames are returned without being limited to one frame whose frame.complete was looked for", None, cond_path(p)):
            continue
        n += 1
        for x in chosen:
            yes = [t for t, b in comp[x].items() if b is True]
            ck.ob("complete", fn, yes, "blobs of a frame are returned although its frame.complete marker was not found", None, cond_path(p))
            no = [t for t, b in ign.get(x, {}).items() if b is False]
            bad = [t for t, b in ign.get(x, {}).items() if b is True]
            ck.ob("ignored", fn, no and not bad, "blobs of a frame are returned although the absence of its frame.ignore marker was not established", None, cond_path(p))
            # the markers were looked for in the folder the blobs come from
            here = folder_conds(p, e, x)
            for t in yes + no:
                ck.ob("same-folder", fn, all(c in some(t) for c in here), "the frame markers are looked for outside the partition folder the blobs are taken from", None, cond_path(p))
            # newest first
            src = origin(p, x)
            if src is not None:
                kind, idx, box = src
                asc = newest(kind, idx, box, I)
                ck.ob("newest", fn, asc is not False, "the frame is not chosen newest first", None, cond_path(p))
                if box is not None and box[0] == "list":
                    for q in box[2]:
                        if q[0] == "rep" and blob_elem(q) is not None:
                            qc = conds_as(q[2], blob_elem(q), ("elem", LISTING, "_"))
                            ck.ob("candidates", fn, all(c in qc for c in here), "frames of other partition folders are candidates for this folder's frame", None, cond_path(p))
        # the blob belongs to the frame as a whole component
        for t, y in pins:
            if t[1] == "in" and any(contains(y, x) for x in chosen):
                ck.ob("whole-name", fn, y[0] == "cat" and y[1][-1][0] == "c" and str(y[1][-1][2]).startswith("/"), "blobs are matched to the frame by a prefix of its name", None, cond_path(p))
    ck.need("one-frame", 1)
    ck.need("newest", 1)
    ck.need("unframed", 1)


def cond_path(p):
    return [f"{'' if b else 'not '}{show(t, 6)}"[:160] for t, b in sorted(p[2], key=repr)][:8]


def folder_conds(p, e, x):
    """conditions on the group's blobs that depend on the folder or partition being visited"""
    out = set()
    for t, b in p[2]:
        if contains(t, x) or not contains(t, e) or with_word(t, "frame.") or b is not True:
            continue
        others = [y for y in walk(t) if y[0] == "elem" and y != e]
        if others:
            out.add((subst(t, {e: ("elem", LISTING, "_")}), b))
    return out


def origin(p, x):
    """(how, index, container) the frame name was taken from"""
    for t, b in p[2] | p[3]:
        if t[0] == "opq" and t[1] == "picked" and t[2] == x:
            return "pick", t[3], t[4]
    if x[0] == "call" and x[1][0] == "ext" and x[1][1] in ("builtins.max", "builtins.min"):
        return x[1][1], None, None
    if x[0] == "item":
        return "pick", x[2], x[1]
    return None


def newest(kind, idx, box, I=None):
    """True/False when the order of choice is known"""
    if kind == "builtins.max":
        return True
    if kind == "builtins.min":
        return False
    if idx is None or idx[0] != "c":
        return None
    if box[0] == "list":
        rev = None
        for m in box[3]:
            if m[0] == "sorted":
                if m[1] != NONE:
                    vals = [v for _, k, v in I.call(I.fresh(), m[1], (S("=name", "str"),), {}) if k == "ret"] if m[1][0] == "fn" else []
                    if any(y[0] == "item" and y[2][0] == "slice" and y[2][2] != NONE for v in vals for y in walk(v)):
                        return False  # names that differ further on are taken for the same
                    if vals != [S("=name", "str")]:
                        return None
                rev = bool(cval(m[2], None)) if m[2][0] == "c" else None
            if m[0] == "reversed" and rev is not None:
                rev = not rev
        if rev is None:
            return None if any(m[0] == "sorted" for m in box[3]) else False
        return (idx[2] == -1) != rev if idx[2] in (0, -1) else False
    return None


def dead_letters(ck):
    n = 0
    for pf in (NONE, FILTER):
        I, outs, seen, _ = listing(ck, pf)
        for owner, p in parts_of(I, outs):
            fn = owner.split(".")[-1] + ".get_list_of_blobs"
            e = blob_elem(p)
            if e is None or vacuous(p, e):
                continue
            hit = [(t, b) for t, b in p[2] if with_word(t, "BACKOUT") and contains(t, e) and not partly(t, e)]
            ok = any(not (t[0] == "cmp" and t[1] == "in" and b is True) for t, b in hit)
            ck.ob("no-backout", fn, ok, "blobs of the BACKOUT (dead letter) partition are listed as data", None, cond_path(p))
            comp, ign = frame_facts(p)
    ck.need("no-backout", 4)


def partly(t, e):
    """only a part of the name e is looked at"""
    for x in walk(t):
        if x[0] == "item" and contains(x[1], e):
            return True
        if x[0] == "call" and x[1][0] == "attr" and x[1][2] in ("startswith", "endswith") and contains(x[1][1], e):
            return True
        if x[0] == "call" and x[1][0] == "ext" and x[1][1].split(".")[-1] == "basename" and contains(x, e) or x[0] == "attr" and x[2] in ("name", "stem", "suffix") and contains(x[1], e):
            return True
        if x[0] == "list" and any(m[0] == "slice" for m in x[3]) and contains(x, e):
            return True
    return False


FIELD, VALUE = S("pf_field", "str"), S("pf_value")
FILTER = ("tuple", (FIELD, C("=="), VALUE))


SD, ED = S("start_date"), S("end_date")


def asked_range(ck):
    """the range read is from the earlier to the later of the dates given, today where none is given"""
    I = ck.interp(stop={"parse_iso"}, ret_max=400, max_states=400, keep_facts=True)
    for q in readers(I, ck.prog):
        kw = kw_of(ck.prog, I, q)
        kw.update(dataset=S("dataset", "str"), partitions=NONE, start_date=SD, end_date=ED)
        for s, k, r in ck.took(I.call(I.fresh(), I.value(q), (), kw)):
            if k != "ret" or r[0] != "ref":
                continue
            o = s.get(r[1]).d
            facts = {t: b for t, b in s.facts.items()}
            for name, fn in (("start_date", "min"), ("end_date", "max")):
                v = I.freeze(s, o.get(name, NONE))
                ck.ob("dates-asked", f"{q.split('.')[-1]}.{name}", bound(v, fn, facts), f"the {name} read is not the {'earlier' if fn == 'min' else 'later'} of the dates asked for", None, [show(v)] + [f"{'' if b else 'not '}{show(t, 6)}"[:160] for t, b in facts.items()][:6])
    ck.need("dates-asked", 2)


def bound(v, fn, facts):
    def side(t, d):
        """t is the date given as d, or today when none is given"""
        if t[0] == "bin":
            return False
        if t[0] == "call" and contains(t, d) and "parse_iso" in repr(t[1]):
            return t[2] == (d,) and facts.get(("truth", t)) is not False and facts.get(("cmp", "is", t, NONE)) is not True
        if t[0] == "or":
            return side(t[1], d)
        given = any(b is True and q[0] == "truth" and contains(q, d) or b is False and q[0] == "cmp" and q[1] == "is" and q[3] == NONE and contains(q, d) for q, b in facts.items())
        return not given and any(w in repr(t) for w in ("utcnow", "now", "today")) and not any(x[0] == "bin" for x in walk(t))
    two = None
    if v[0] == "call" and v[1] == ("ext", "builtins." + fn) and not v[3]:
        two = v[2]
        if len(two) == 1:
            two = two[0][1] if two[0][0] == "tuple" else tuple(p[1] for p in two[0][2]) if two[0][0] == "list" else ()
    elif v[0] == "item" and v[1][0] == "list" and [m[0] for m in v[1][3]] == ["sorted"] and v[2] in ((C(0),) if fn == "min" else (C(1), C(-1))):
        two = tuple(p[1] for p in v[1][2])
    if two is not None:
        return len(two) == 2 and (side(two[0], SD) and side(two[1], ED) or side(two[1], SD) and side(two[0], ED))
    # one of them, after they were compared
    for t, b in facts.items():
        if t[0] == "cmp" and t[1] == "lt" and (side(t[2], SD) and side(t[3], ED) or side(t[2], ED) and side(t[3], SD)):
            low, high = (t[2], t[3]) if b else (t[3], t[2])
            if v == (low if fn == "min" else high):
                return True
    return False


def folders(ck):
    asked_range(ck)
    cycles(ck)
    for pf in (NONE, FILTER):
        I, outs, seen, calls = listing(ck, pf)
        ck.saw("mabel.utils.dates.date_range")
        for ev, facts in calls:
            pos = [arg(ev, 0, "start_date"), arg(ev, 1, "end_date")]
            ck.ob("range", "get_list_of_blobs", pos == [S("start"), S("end")], "the days read are not those from start_date to end_date", ev)
        once = {}
        for ev, facts, loops in seen:
            p = arg(ev, 0, "path") or (ev.args[-1] if ev.args else None)
            built = [x for x in walk(p) if x[0] == "call" and x[1] == ("ext", "build_path")] if p else []
            day = [x for b in built for x in walk(b) if x[0] == "elem" and x[1] == DATES]
            ck.ob("day-path", "get_list_of_blobs", day and all(contains(b, S("dataset", "str")) for b in built), "the path listed for a day is not built from the dataset template and that day", ev)
            new = any(t[0] == "cmp" and t[1] == "in" and b is False and t[2] in (p, *built) for t, b in facts.items()) or \
                any(b is True and t[0] == "cmp" and t[1] == "is" and t[3] == NONE and any(contains(t[2], q) for q in built) for t, b in facts.items())
            new = new or any(x[0] == "elem" and x != y and x[1][0] in ("list", "dict", "call") for y in day for x in (p, *walk(p)))
            once.setdefault(ev.where, [ev, False])[1] |= new
            # nothing but that very path having been listed keeps a day from being listed
            gate = [t for t in facts if any(contains(t, q) for q in (*built, *day)) and not seen_before(t, (p, *built))]
            ck.ob("every-day", "get_list_of_blobs", not gate, "whether a day's path is listed depends on something else than that path having been listed already", ev, [f"{'' if facts[t] else 'not '}{show(t, 6)}"[:160] for t in gate[:4]])
        dedup = all(v[0] == "ref" and s.get(v[1]).kind == "set" or any(m[0] in ("set", "dedup") for m in I.freeze(s, v)[3]) if I.freeze(s, v)[0] == "list" else False for _, s, v in outs)
        for ev, new in once.values():
            ck.ob("each-once", "get_list_of_blobs", new or dedup, "the same path is listed again for every cycle it is built for, so its blobs are read more than once", ev)
        for owner, s, v in outs:
            f = I.freeze(s, v)
            cut = [m for m in f[3] if m[0] == "slice"] if f[0] == "list" else [x for x in walk(f) if x[0] == "item" and x[2][0] == "slice"]
            ck.ob("whole-listing", owner.split(".")[-1] + ".get_list_of_blobs", not cut, "the listing is cut before it is returned", None, [show(f, 3)[:160]])
        for owner, p in parts_of(I, outs):
            fn = owner.split(".")[-1] + ".get_list_of_blobs"
            e = blob_elem(p)
            if e is None or vacuous(p, e):
                continue
            # accumulated over every day
            ck.ob("all-days", fn, any(b[0] == "elem" and b[1] == DATES for b in p[4]), "only the blobs of the last day visited are returned", None, cond_path(p))
            # whole path components
            for t, b in p[2]:
                if t[0] == "cmp" and t[1] == "in" and t[3] == e and t[2][0] != "c" and b is True:
                    ck.ob("whole-component", fn, delimited(t[2]) or frameish(p, t[2]), "blobs are matched to a folder by part of a path component", None, cond_path(p))
            if pf == NONE:
                continue
            # a partition filter selects from the partitioning it names, and only from that
            pruned = any(contains(t, VALUE) and contains(t, e) and b is True for t, b in p[2])
            there = [b for t, b in p[2] | p[3] if some(t) is not None and any(names_field(ct) and cb is True for ct, cb in some(t)) and not any(contains(ct, VALUE) for ct, cb in some(t))]
            if pruned:
                bare = [x for t, b in p[2] for x in walk(t) if x[0] == "call" and contains(x, VALUE) and VALUE in x[2] and x[1][0] == "fn" and x[1][1].endswith(".sanitize")]
                ck.ob("filter-text", fn, not bare, "the writer puts the text of a value in the path, the filter takes the value to be text already", None, cond_path(p))
                ck.ob("filter-named", fn, True in there, "the partition filter is applied although the partitioning it names was not found as a whole name", None, cond_path(p))
            else:
                ck.ob("filter-applied", fn, True not in there, "the partition filter is not applied although the partitioning it names exists", None, cond_path(p))
    ck.need("all-days", 2)
    ck.need("day-path", 2)
    ck.need("range", 2)
    ck.need("filter-named", 1)
    ck.need("filter-applied", 1)


def seen_before(t, paths):
    """the test whether this very path is among those already listed"""
    if t[0] == "cmp" and t[1] in ("in", "eq") and (t[2] in paths or t[3] in paths):
        return True
    base = t[2] if t[0] == "cmp" and t[1] in ("is", "eq") and is_const(t[3]) else t[1] if t[0] == "truth" else t
    while base[0] == "call" and base[1] == ("ext", "builtins.len"):
        base = base[2][0]
    return base[0] == "call" and base[1][0] == "attr" and base[1][2] in ("get", "setdefault", "pop") and base[2][:1] and base[2][0] in paths or \
        base[0] == "item" and base[2] in paths or t[0] == "opq" or \
        t[0] == "exists" and all(seen_before(c, paths) for c, _ in t[2] if any(contains(c, q) for q in paths))


def delimited(y):
    """a substring test that can only match whole path components"""
    return y[0] == "cat" and y[1][-1][0] == "c" and str(y[1][-1][2]).startswith("/") and y[1][0][0] == "c" and str(y[1][0][2]).startswith("/")


def names_field(ct):
    """<partition of a blob> == by_<field>, or /by_<field>/ in blob"""
    if ct[0] != "cmp" or not contains(ct, FIELD):
        return False
    if ct[1] == "eq":
        return any(x[0] == "cat" and x[1][0][0] == "c" and x[1][0][2] in ("by_", "/by_") for x in ct[2:4])
    return ct[1] == "in" and delimited(ct[2])


def frameish(p, y):
    comp, ign = frame_facts(p)
    return any(contains(y, x) for x in list(comp) + list(ign))
