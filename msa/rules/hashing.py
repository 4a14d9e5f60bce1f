"""C24 - the hash of a dataset depends on its records, not on their order or the order of their fields."""
from ..rulelib import *

DS = "mabel.data.internals.dictset"
R = [("sym", "first", "dict"), ("sym", "second", "dict"), ("sym", "third", "dict")]
FREE = {"^", "+", "*", "&", "|"}


def plain(t):
    """call sites left out, chains of an operator that takes its operands in any order sorted"""
    if not isinstance(t, tuple) or not t or t[0] in ("c", "sym"):
        return t
    if t[0] == "call":
        t = ("call", plain(t[1]), tuple(plain(a) for a in t[2]), tuple(sorted((k, plain(v)) for k, v in t[3])), None)
        if t[1] == ("ext", "functools.reduce") and len(t[2]) in (2, 3):
            return t
        return t
    if t[0] == "bin" and t[1] in FREE:
        ops, todo = [], [t]
        while todo:
            x = todo.pop()
            if isinstance(x, tuple) and x and x[0] == "bin" and x[1] == t[1]:
                todo += [x[2], x[3]]
            else:
                ops.append(plain(x))
        return ("any order", t[1], tuple(sorted(ops, key=repr)))
    if t[0] == "obj" or t[0] == "ref":
        return t
    return tuple(plain(x) for x in t)


def in_order(t, r):
    """does the term use record r only with its fields in a fixed order?"""
    if t == r:
        return False
    if not isinstance(t, tuple) or not contains(t, r):
        return True
    k = t[0]
    if k == "dict" and t[3] and all(p[0] == "kv" and p[5] and any(contains(b, ("ext", "in field order")) for b in p[5]) for p in t[3]):
        return True
    if k == "set":
        return True
    if k == "call":
        f = t[1]
        name = f[1] if f[0] == "ext" else f[2] if f[0] == "attr" else None
        if name in ("in field order", "builtins.frozenset"):
            return True
        kw = dict(t[3])
        if name and name.endswith("dumps") and kw.get("sort_keys") == TRUE:
            return True
        if name and name.endswith("dumps") and any(contains(a, ("ext", "orjson.OPT_SORT_KEYS")) for a in list(t[2][1:]) + list(kw.values())):
            return True
    return all(in_order(x, r) for x in children(t))


def opaque_sort(I, st, f, args, kw, fr, node):
    """sorting the fields of a record, as a term of its own"""
    n = I.callee_name(f) if f[0] == "ext" else None
    if n == "builtins.sorted" and len(args) == 1:
        t = I.freeze(st, args[0])
        if any(contains(t, r) for r in R):
            key = kw.get("key", NONE)
            fixed = key == NONE
            if not fixed:
                field, value = S("a field"), S("its value")
                whole = any(t in (r, ("call", ("attr", r, "keys"), (), (), None)) or (t[0] == "call" and t[1] == ("attr", r, "keys")) for r in R)
                outs = I.call(st, key, (field if whole else ("tuple", (field, value)),), {})
                fixed = bool(outs) and all(k == "raise" or contains(I.freeze(s, v), field) for s, k, v in outs)
            return [(st, "v", ("call", ("ext", "in field order" if fixed else "in some order"), (t,), (), None))]
    if n == "builtins.dict" and len(args) == 1 and args[0][0] == "call" and args[0][1][1] in ("in field order", "in some order"):
        return [(st, "v", ("call", ("ext", "builtins.dict"), (args[0],), (), None))]
    return None


def run(ck):
    I = ck.interp(ret_max=200, max_states=200, keep_facts=True, on_call=opaque_sort)
    K = I.value(DS + ".DictSet")
    ck.saw(DS + ".DictSet.__hash__")

    def hashes(rows, sc):
        st, l = I.new_list(I.fresh(), "rows", "list", tuple(("one", r) for r in rows))
        out = {}
        for s, k, v in I.call(st, K, (l,), {"storage_class": ("enum", DS + ".STORAGE_CLASS", sc)}):
            if k != "ret":
                continue
            for s2, k2, v2 in ck.took(I.method(s, v, "__hash__", ())):
                if k2 == "ret":
                    t = I.freeze(s2, v2)
                    out.setdefault(plain(t), (t, s2))
        return out

    for sc in ("MEMORY", "NO_PERSISTANCE"):
        for n in (1, 2, 3):
            rows = R[:n]
            got = hashes(rows, sc)
            if not got:
                raise AnalysisError("DictSet.__hash__ gives nothing")
            for p, (t, s) in got.items():
                for r in rows:
                    ck.ob("every-record", f"DictSet.__hash__[{sc}]", contains(t, r), f"the hash of {n} records does not depend on all of them", None, steps(s))
                    ck.ob("fields-in-any-order", f"DictSet.__hash__[{sc}]", in_order(t, r), "the hash depends on the order of the fields of a record", None, steps(s))
            if n > 1:
                orders = [rows[::-1], rows[1:] + rows[:1]]
                for other in orders:
                    again = hashes(other, sc)
                    ck.ob("records-in-any-order", f"DictSet.__hash__[{sc}]", set(again) == set(got),
                          f"the hash of {n} records depends on their order", None, [])
    for r in ("every-record", "fields-in-any-order", "records-in-any-order"):
        ck.need(r)
