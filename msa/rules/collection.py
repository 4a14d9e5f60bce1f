"""C39 what is asked of collections is answered from the whole of each collection."""
from ..rulelib import *
from .grouping import CS, ROWS, COL
from .pipeline import passes, facts_path

CC, ONE, FIELD, METHOD = S("=collections", "dict"), S("=one"), S("=field", "str"), S("=method")
DS = "mabel.data.internals.dictset.DictSet"


def over(ck, I, **attrs):
    for s0, r in build(I, I.value(CS + ".CollectedSet"), (ROWS, COL), {})[:1]:
        o = s0.get(r[1])
        return I.clear(s0.put(r[1], o._replace(d={**o.d, "_collections": CC, **attrs}))).with_(facts={}), r
    raise AnalysisError("a CollectedSet cannot be made")


def is_items(t, key):
    """the items of the collection of that key"""
    return t in (("item", CC, key), ("get", CC, key)) or t[0] == "call" and t[1] == ("attr", CC, "get") and t[2][:1] == (key,) or \
        t[0] == "item" and t[2] == C(1) and t[1] == key


def each(v):
    """[(key, value, what is known of the collection)] of a dictionary with an entry for every collection; None when it is something else"""
    if v[0] != "dict" or v[1] or v[2] != NONE or not v[3] or any(p[0] != "kv" for p in v[3]):
        return None
    out = []
    for _, key, val, elemfacts, _, binders in v[3]:
        root = key[1] if key[0] == "item" and key[2] == C(0) and key[1][0] == "elem" else key
        if root[0] != "elem" or len(binders) != 1 or binders[0] != root:
            return None
        if root[1] != CC and not (root[1][0] == "call" and root[1][1][0] == "attr" and root[1][1][1] == CC and root[1][1][2] in ("items", "keys")):
            return None
        out.append((key, val, elemfacts))
    return out


def entries(s, v, I):
    """the entries made for a collection, () where there are no collections"""
    f = I.freeze(s, v)
    if f[0] == "dict" and not f[1] and not f[3] and f[2] == NONE:
        return () if s.facts.get(("truth", CC)) is False else None
    got = each(f)
    if got is None or not any(known for _, _, known in got):
        return got
    # in a loop that finds things out about the collection: every turn makes the entry
    keys = {k for k, _, _ in got}
    turns = [(el, ins) for el, ins in passes(s) if el is not None and el in keys]
    if turns and all(len([e for e in ins if e.kind == "mut" and e.name in ("setitem", "setdefault") and e.args[0] == el]) == 1 for el, ins in turns):
        return got
    return None


def run(ck):
    I = ck.interp(keep_facts="loops", ret_max=400, max_states=400, watch=lambda k, n: k in ("iter", "enditer", "mut", "call", "callx", "out"))
    ck.saw(*(CS + ".CollectedSet." + m for m in ("count", "aggregate", "apply", "items", "__len__", "__contains__", "__getitem__")))
    counts(ck, I)
    methods(ck, I)
    every_item(ck, I)
    parts(ck)
    fields(ck)
    kept(ck)


def length_of(t, key):
    if t[0] == "call" and t[1] == ("ext", "builtins.len") and len(t[2]) == 1:
        return is_items(t[2][0], key)
    # counted one by one
    return t[0] == "call" and t[1] == ("ext", "builtins.sum") and any(is_items(x, key) for x in walk(t)) and any(x == C(1) for x in walk(t))


def counts(ck, I):
    st, r = over(ck, I)
    lab = "CollectedSet.count"
    for args in ((), (ONE,)):
        for s, k, v in ck.took(I.method(st, r, "count", args)):
            if k != "ret":
                ck.ob("count-answers", lab, any(t[0] == "cmp" for t in s.facts) and v[0] == "exc" and v[1] is None, "count() fails", None, facts_path(s.facts))
                continue
            f = I.freeze(s, v)
            # facts about which collection was asked for
            off = args and s.facts.get(("cmp", "is", ONE, NONE))
            if f[0] == "dict":
                ck.ob("all-or-one", lab, not args or off is True, "the counts of all collections are given for one collection asked for", None, facts_path(s.facts))
                got = entries(s, v, I)
                ck.ob("count-all", lab, got == () or got is not None and all(length_of(val, key) for key, val, _ in got), "the count of a collection is not the number of its items", None, [show(f, 6)])
                continue
            ck.ob("all-or-one", lab, args and off is not True, "no counts of all the collections are given", None, facts_path(s.facts))
            if f == C(0):
                # nothing of that name
                there = [b for t, b in s.facts.items() if named(t)]
                ck.ob("count-none", lab, True not in there, "a collection that is there counts as empty", None, facts_path(s.facts))
                continue
            ks = [x for x in walk(f) if x[0] == "elem" and x[1] == CC]
            same = [x for x in ks if s.facts.get(("cmp", "eq", x, ONE)) is True or s.facts.get(("cmp", "eq", ONE, x)) is True]
            ok = length_of(f, ONE) or any(length_of(f, x) for x in same) or empty_default(f)
            ck.ob("count-one", lab, ok, "what is given for one collection is not the number of its items", None, [show(f, 6)] + facts_path(s.facts))
    ck.need("count-all", 2)
    ck.need("count-one", 1)


def empty_default(f):
    """len(collections.get(one, ()))"""
    if f[0] != "call" or f[1] != ("ext", "builtins.len"):
        return False
    x = f[2][0]
    return x[0] == "call" and x[1] == ("attr", CC, "get") and x[2][:1] == (ONE,) and len(x[2]) == 2 and (x[2][1] == ("tuple", ()) or x[2][1][0] == "list" and not x[2][1][2])


def named(t):
    return t[0] == "cmp" and t[1] == "in" and t[2:] == (ONE, CC) or t[0] == "cmp" and t[1] == "eq" and ONE in t[2:] and any(y[0] == "elem" and y[1] == CC for y in t[2:])


def methods(ck, I):
    st, r = over(ck, I)
    for name, args in (("apply", (METHOD,)), ("aggregate", (FIELD, METHOD))):
        lab = "CollectedSet." + name
        for s, k, v in ck.took(I.method(st, r, name, args)):
            if k != "ret":
                continue
            got = entries(s, v, I)
            if not ck.ob("every-collection", lab, got is not None, "there is not one answer for every collection", None, [show(I.freeze(s, v), 6)] + facts_path(s.facts)) or got == ():
                continue
            for key, val, known in got:
                if not ck.ob("method-called", lab, val[0] == "call" and val[1] == METHOD and len(val[2]) == 1 and not val[3], "the answer is not what the method gives for the collection", None, [show(val, 6)]):
                    continue
                x = val[2][0]
                if name == "apply":
                    ck.ob("whole-collection", lab, is_items(x, key) or copied(x, key), "the method is not given the whole collection", None, [show(x, 6)])
                    continue
                none = x[0] == "list" and x[1] == "list" and not x[2] and any(t[0] == "truth" and is_items(t[1], key) and b is False for t, b in known)
                ck.ob("field-values", lab, none or field_values(x, key), "the method is not given the field's value, where there is one, of every item of the collection", None, [show(x, 8)])
    ck.need("every-collection", 2)
    ck.need("whole-collection", 1)
    ck.need("field-values", 1)


def copied(x, key):
    return x[0] == "call" and x[1][0] == "ext" and x[1][1] in ("builtins.list", "builtins.tuple") and is_items(x[2][0], key) or \
        x[0] == "list" and x[1] == "list" and len(x[2]) == 1 and x[2][0][0] == "star" and is_items(x[2][0][1], key) and not any(m[0] == "slice" for m in x[3])


def field_values(x, key):
    if x[0] != "list" or x[1] != "list" or len(x[2]) != 1 or x[2][0][0] != "rep" or any(m[0] == "slice" for m in x[3]):
        return False
    val, conds = x[2][0][1], x[2][0][2]
    binders = x[2][0][-1]
    src = [b for b in binders if b[0] == "elem" and is_items(b[1], key)]
    if len(src) != 1:
        return False
    el = src[0]
    of = lambda t: t[0] == "call" and t[1] == ("attr", el, "get") and t[2] in ((FIELD,), (FIELD, NONE)) or t in (("item", el, FIELD), ("get", el, FIELD))
    if not of(val):
        return False
    seen = False
    for t, b in conds:
        if t[0] == "cmp" and t[1] in ("is", "eq") and NONE in t[2:] and any(of(y) for y in t[2:]) and b is False:
            seen = True
        elif not (t == ("cmp", "in", FIELD, el) and b is True):
            return False
    return seen


def every_item(ck, I):
    st, r = over(ck, I)
    lab = "CollectedSet.items"
    n = 0
    for s0, k0, v in I.method(st, r, "items", ()):
        for s, k, _ in (ck.took(I.drain(s0, v)) if k0 == "ret" else ()):
            for el, ins in passes(s):
                if el is None or el[0] != "elem" or el[1] == CC or not any(contains(el[1], kk) for kk in keys_of(el[1])):
                    continue
                outs = [e for e in ins if e.kind == "out"]
                n += 1
                ck.ob("each-item", lab, len(outs) == 1 and any(outs[0].args[0] == ("tuple", (kk, el)) and is_items(el[1], kk) for kk in keys_of(el[1])), "an item does not come out once with its collection", outs[0] if outs else None, [show(o.args[0], 6) for o in outs])
            ck.ob("all-items", lab, k == "ret" or k == "n", "going through the items fails", None, facts_path(s.facts))
    ck.ob("each-item", lab, n > 0, "no items come out", None)
    for name, args, want in (("__len__", (), lambda f: f[0] == "call" and f[1] == ("ext", "builtins.len") and f[2][0] in (CC, ("call", ("attr", CC, "keys"), (), (), None))),
                             ("__contains__", (ONE,), lambda f: f == ("cmp", "in", ONE, CC) or f[0] == "cmp" and f[1] == "in" and f[2] == ONE and contains(f[3], CC))):
        for s, k, v in ck.took(I.method(st, r, name, args)):
            f = I.freeze(s, v) if v else NONE
            told = s.facts.get(("cmp", "in", ONE, CC))
            ck.ob("names", "CollectedSet." + name, k == "ret" and (want(f) or told is not None and f == (TRUE if told else FALSE)), f"{name} does not tell the collections there are", None, [show(f, 6)])


def keys_of(t):
    return [x for x in walk(t) if x[0] == "elem" and x[1] == CC] + [("item", x, C(0)) for x in walk(t) if x[0] == "elem" and contains(x, CC)]


def parts(ck):
    """one collection chosen by its name"""
    made = []

    def oc(I, st, f, args, kw, fr, node):
        if f == ("cls", DS):
            kw = dict(kw)
            made.append((I.freeze(st, args[0] if args else kw.get("iterator", NONE)), dict(st.facts)))
            return [(st, "v", S("=dictset"))]
        return None
    I = ck.interp(keep_facts=True, ret_max=400, max_states=400, on_call=oc)
    st, r = over(ck, I)
    I.value(CS + ".SubCollection")
    for s, k, v in ck.took(I.method(st, r, "__getitem__", (ONE,))):
        pass
    for x, facts in made:
        if any(t[0] == "call" and t[1] == ("ext", "builtins.isinstance") and b is True or t[0] == "truth" and "isinstance" in repr(t) and b is True for t, b in facts.items()):
            continue
        nothing = x[0] == "list" and not x[2] or x == ("tuple", ())
        asked = [b for t, b in facts.items() if (t[0] == "truth" and contains(t, ONE) and contains(t, CC)) or t == ("cmp", "in", ONE, CC)]
        ok = is_items(x, ONE) or nothing and (False in asked or any(t[0] == "cmp" and t[1] == "is" and contains(t, CC) and b is True for t, b in facts.items())) or \
            x[0] == "call" and x[1] == ("attr", CC, "get") and x[2][:1] == (ONE,) or x[0] == "or" and is_items(x[1], ONE)
        ck.ob("chosen-one", "CollectedSet.__getitem__", ok, "the collection chosen by name is not that collection's items", None, [show(x, 6)] + facts_path(facts))
    ck.need("chosen-one", 2)


def fields(ck):
    """fields picked from a collection"""
    VALUES = S("=values")
    made = []

    def oc(I, st, f, args, kw, fr, node):
        if f[0] == "attr" and f[1] == VALUES and f[2] in ("select", "collect_list", "project"):
            made.append((f[2], tuple(I.freeze(st, a) for a in args), dict(kw)))
            return [(st, "v", ("opq", f[2], tuple(I.freeze(st, a) for a in args)))]
        if f == ("cls", DS):
            return [(st, "v", VALUES)]
        return None
    I = ck.interp(keep_facts=True, ret_max=400, max_states=400, on_call=oc)
    ck.saw(CS + ".SubCollection.__getitem__", CS + ".SubCollection.get")
    for s0, r in build(I, I.value(CS + ".SubCollection"), (S("=given"),), {})[:1]:
        s0 = I.clear(s0).with_(facts={})
        two = ("tuple", (FIELD, S("=field2", "str")))
        for s, k, v in ck.took(I.method(s0, r, "__getitem__", (two,))):
            f = I.freeze(s, v) if v else NONE
            got = [x for x in walk(f) if x[0] == "opq" and x[1] in ("select", "project")]
            ck.ob("several-fields", "SubCollection.__getitem__", k == "ret" and bool(got) and all(x[2] == (two,) or x[2][:1] and x[2][0][0] == "list" and [p[1] for p in x[2][0][2]] == list(two[1]) for x in got), "several fields asked for are not selected together", None, [show(f, 6)])
        for s, k, v in ck.took(I.method(s0, r, "__getitem__", (FIELD,))):
            f = I.freeze(s, v) if v else NONE
            if any(b is True and "isinstance" in repr(t) for t, b in s.facts.items()):
                continue
            ck.ob("one-field", "SubCollection.__getitem__", k == "ret" and f == ("opq", "collect_list", (FIELD,)), "the values of the field asked for are not what is given", None, [show(f, 6)])
        for s, k, v in ck.took(I.method(s0, r, "get", (FIELD,))):
            f = I.freeze(s, v) if v else NONE
            lst = ("opq", "collect_list", (FIELD,))
            if any(b is True and "isinstance" in repr(t) for t, b in s.facts.items()):
                continue
            n = ("call", ("ext", "builtins.len"), (lst,), (), None)
            full = s.facts.get(("truth", lst), s.facts.get(("truth", n)))
            if full is None:
                full = {True: False, False: True}.get(s.facts.get(("cmp", "eq", n, C(0))))
            ck.ob("get-field", "SubCollection.get", k == "ret" and (f == lst and full is not False or f == NONE and (full is False or s.facts.get(("cmp", "is", lst, NONE)) is True)), "get() does not give the values of the field, or None where there are none", None, [show(f, 6)] + facts_path(s.facts))
    ck.need("several-fields", 1)
    ck.need("one-field", 1)
    ck.need("get-field", 2)


def kept(ck):
    """what is kept for a collection is a list of its items, with and without duplicates"""
    I = ck.interp(keep_facts=True, ret_max=400, max_states=400, stop={"distinct"}, watch=lambda k, n: False)
    n = 0
    for dd in (FALSE, TRUE):
        for s, k, r in ck.took(I.call(I.fresh(), I.value(CS + ".CollectedSet"), (ROWS, COL, dd), {})):
            if k != "ret":
                continue
            v = s.get(r[1]).d.get("_collections")
            f = I.freeze(s, v) if v is not None else NONE
            for p in (f[3] if f[0] == "dict" else ()):
                if p[0] != "kv":
                    continue
                n += 1
                x = p[2]
                bad = x[0] == "call" and x[1][0] == "attr" and x[1][2] in ("values", "keys", "items") or x[0] == "lazy"
                bad = bad or x[0] == "list" and x[1] != "list" or x[0] == "ref" and isinstance(x[1], tuple) and any(w in x[1] for w in ("values", "keys", "items"))
                ck.ob("kept-as-list", "CollectedSet dedupe=" + ("True" if dd == TRUE else "False"), not bad, "what is kept for a collection is not a list: methods applied to it cannot pick from it", None, [show(x, 6)])
    ck.ob("kept-as-list", "some", n > 0, "nothing is kept", None)
