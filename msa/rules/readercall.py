"""C14 the dataset prefix whitelist, C15 the parameters of a reader call."""
from ..rulelib import *

READER = "mabel.data.readers.reader.Reader"
DATASET, PREFIXES, INNER = S("dataset", "str"), S("prefixes", "list"), S("inner")


def plain_fn(I, prog, qual):
    """the function itself, without the decorators around it"""
    I.value(qual)
    fi = [f for f in prog.funcs if f.qual == qual and not f.is_lambda]
    if not fi:
        raise AnalysisError("anchor vanished: " + qual)
    return ("fn", qual, "mod:" + fi[0].module.name, fi[0].fid)


def path_of(facts):
    return [f"{'' if b else 'not '}{show(t, 6)}"[:200] for t, b in facts.items()][:8]


def matches(t):
    """the dataset tested against the whitelist: term of the `startswith` of a fact"""
    for x in walk(t):
        if x[0] == "call" and x[1][0] == "attr" and x[1][2] == "startswith" and contains(x, PREFIXES):
            return x
        if x[0] == "exists" and x[1] == PREFIXES:
            for c, b in x[2]:
                for y in walk(c):
                    if y[0] == "call" and y[1][0] == "attr" and y[1][2] == "startswith" and any(contains(a, ("elem", PREFIXES, "_")) for a in y[2]):
                        return y
    return None


def whitelist(ck):
    prog = ck.prog
    uses = []

    def oc(I, st, f, args, kw, fr, node):
        n = I.callee_name(f).split(".")[-1]
        if f == INNER or n == "GoogleCloudStorageReader":
            uses.append((I.emit(st, "call", "inner_reader", None, args, kw, NONE, fr, node).trace[-1] if False else None, dict(st.facts), args, dict(kw), (fr, node)))
            return [(st, "v", S("reader_object"))]
        if n in ("DictSet", "_LowLevelReader", "parse_delta", "get_logger"):
            return [(st, "v", S("=" + n))]
        return None
    I = ck.interp(on_call=oc, ret_max=400, keep_facts=True, max_states=1000, watch=lambda k, n: k in ("call", "callx"))
    f = plain_fn(I, prog, READER)
    ck.saw(READER)
    st = I.fresh().assume(("cmp", "is", INNER, NONE), False)
    kw = dict(select=S("select", "str"), dataset=DATASET, inner_reader=INNER, valid_dataset_prefixes=PREFIXES, filters=S("filters"), raw_path=S("raw_path"),
              partitions=S("partitions", "list"), partition_filter=S("pf"), cursor=S("cursor"))
    outs = ck.took(I.call(st, f, (), kw))
    listed = ("truth", PREFIXES)
    for _, facts, args, kws, _ in uses:
        ds = kws.get("dataset", args[0] if args else None)
        off = facts.get(listed) is False or facts.get(("cmp", "is", PREFIXES, NONE)) is True
        yes = [(t, matches(t)) for t, b in facts.items() if b is True and matches(t) is not None]
        ck.ob("checked-before-read", "Reader", off or yes, "a dataset is opened without its name being found to start with one of the valid prefixes", None, path_of(facts))
        for t, m in yes:
            ck.ob("checked-name", "Reader", strip_str(m[1][1]) == ds, "the name compared with the valid prefixes is not the name of the dataset opened", None, [show(m, 4), show(ds, 4) if ds else ""])
            whole = t[0] == "exists" or m == t or t == ("truth", m)
            ck.ob("checked-prefix", "Reader", whole and prefix_ok(m), "the dataset is not compared with each valid prefix as given", None, [show(m, 5)])
    n = 0
    for s, k, v in outs:
        if k == "raise" and "AccessDenied" in repr(v):
            n += 1
            no = [t for t, b in s.facts.items() if b is False and matches(t) is not None]
            ck.ob("only-others-denied", "Reader", no and s.facts.get(listed) is True, "access is denied although the dataset starts with a valid prefix or no whitelist was given", None, path_of(s.facts))
    if not n:
        ck.ob("denied", "Reader", False, "no dataset is ever denied, whatever the whitelist", None)
    ck.need("checked-before-read", 2)


def strip_str(t):
    while t[0] == "call" and t[1] in (("cls", "builtins.str"), ("ext", "builtins.str")) and len(t[2]) == 1:
        t = t[2][0]
    return t[1][0] if t[0] == "cat" and len(t[1]) == 1 else t


def prefix_ok(m):
    a = m[2][0] if m[2] else NONE
    if len(m[2]) != 1:
        return False
    a = strip_str(a)
    if a == ("elem", PREFIXES, "_") or (a[0] == "elem" and a[1] == PREFIXES):
        return True
    if a[0] == "call" and a[1] in (("cls", "builtins.tuple"), ("ext", "builtins.tuple")):
        return a[2] == (PREFIXES,)
    return a[0] in ("tuple", "list") and len(a) > 2 and contains(a, PREFIXES) and not any_term(a, lambda x: x[0] == "call")


# ---------------------------------------------------------------------- C15
def build_in(I, st, cls, args):
    return [(s, v) for s, k, v in I.call(st, cls, args) if k == "ret"]


VALIDATE = "mabel.utils.parameter_validator.validate"
FUNC = S("func")


OWN = ({"name": "a", "required": True, "warning": None, "incompatible_with": []}, {"name": "b", "required": False, "warning": None, "incompatible_with": ["c"]},
       {"name": "c", "required": False, "warning": "careful", "incompatible_with": []}, {"name": "d", "required": False, "warning": ""}, {"name": "g", "incompatible_with": ["d", "c"]})
ITS = ({"name": "e", "required": True, "warning": None, "incompatible_with": []}, {"name": "f", "required": False, "warning": "careful", "incompatible_with": []})
AD = "adapter"
# rules, the values given (by name, some of them by position), whether they are valid
CASES = [(OWN, 0, {"a": 1}, True), (OWN, 1, {"a": 1}, True), (OWN, 0, {"a": 0}, True), (OWN, 1, {"a": None}, True), (OWN, 0, {}, False), (OWN, 0, {"b": 1}, False), (OWN, 0, {"a": 1, "b": 1}, True),
         (OWN, 2, {"a": 1, "b": 1}, True), (OWN, 0, {"a": 1, "b": 1, "c": 1}, False), (OWN, 0, {"a": 1, "c": 1, "b": 1}, False), (OWN, 3, {"a": 1, "b": 1, "c": 1}, False),
         (OWN, 2, {"a": 1, "b": 1, "c": 1}, False), (OWN, 0, {"a": 1, "b": 1, "c": 0}, False), (OWN, 0, {"a": 1, "b": 0, "c": 1}, True), (OWN, 2, {"a": 1, "b": None, "c": 1}, True),
         (OWN, 0, {"a": 1, "c": 1, "d": 1}, True), (OWN, 0, {"a": 1, "c": 1, "d": 1, "g": 1}, False), (OWN, 0, {"a": 1, "g": 1, "d": 1}, False), (OWN, 0, {"g": 1, "a": 1, "c": 1}, False), (OWN, 0, {"a": 1, "g": 1, "b": 1}, True),
         (OWN, 0, {"a": 1, "h": 1}, False), (OWN, 0, {"a": 1, "h": None}, False), (OWN, 0, {"h": 1, "a": 1}, False), (OWN, 1, {"a": 1, "e": 1}, False), (OWN, 0, {"a": 1, "A": 1}, False),
         (OWN, 0, {"a": AD}, False), (OWN, 0, {"a": AD, "e": 1}, True), (OWN, 1, {"a": AD, "e": 0}, True), (OWN, 0, {"a": AD, "f": 1}, False), (OWN, 0, {"a": AD, "e": 1, "f": 1, "c": 1}, True),
         (OWN, 0, {"e": 1, "a": AD}, True), (OWN, 0, {"a": AD, "e": 1, "h": 1}, False), (OWN, 0, {"a": 1, "d": AD}, False), (OWN, 0, {"a": 1, "d": AD, "e": 1}, True), (OWN, 0, {"d": AD, "e": 1}, False),
         (OWN, 0, {"a": AD, "e": 1, "b": 1, "c": 1}, False), ((), 0, {}, True), ((), 0, {"a": 1}, False), (OWN[1:], 0, {}, True), (OWN[1:], 0, {"a": 1}, False)]


def grid(ck):
    """known rules and parameters: called exactly when nothing is wrong, whatever was called before"""
    calls = []

    def oc(I, st, f, args, kw, fr, node):
        n = I.callee_name(f).split(".")[-1]
        if n == "get_logger":
            return [(st, "v", S("=log"))]
        if n == "get_levenshtein_distance":
            return [(st, "v", C(9))]
        if f[0] == "attr" and contains(f, S("=log")):
            return [(st, "v", NONE)]
        if f == ("ext", "inspect.signature"):
            st, ps = I.new_dict(st, ("signature",), {C(x): S("=p") for x in "abcdefgh"})
            return [(x, "v", r) for x, r in [st.new(("signature", "of"), Obj("inst", VALIDATE, {"parameters": ps}, None))]]
        if f == FUNC:
            calls.append((args, dict(kw)))
            return [(st, "v", S("=result"))]
        return None
    I = ck.interp(stop={"get_levenshtein_distance"}, on_call=oc, keep_facts=False, ret_max=400, max_states=400, watch=lambda k, n: False)
    I.ordered_sets = True
    V = I.value(VALIDATE)

    def listed(st, where, rules):
        rs = []
        for i, r in enumerate(rules):
            d = {}
            for k, v in r.items():
                if isinstance(v, list):
                    st, v = I.new_list(st, (where, i, k), "list", tuple(("one", C(x)) for x in v))
                d[C(k)] = v if isinstance(v, tuple) else C(v)
            st, ref = I.new_dict(st, (where, i), d)
            rs.append(("one", ref))
        return I.new_list(st, (where, "rules"), "list", tuple(rs))
    for after in (False, True):
        for rules, places, given, valid in CASES:
            st, its = listed(I.fresh(), "its", ITS)
            st, ad = st.new(("adapter",), Obj("inst", VALIDATE, {"RULES": its}, None))
            st, own = listed(st, "own", rules)
            vals = {k: ad if v == AD else C(v) for k, v in given.items()}
            given_args, given_kw = tuple(list(vals.values())[:places]), dict(list(vals.items())[places:])
            label = (f"{places} by place, " if places else "") + ", ".join(f"{k}={v}" for k, v in given.items()) + (" after other calls" if after else "") + ("" if rules is OWN else " (other rules)")
            for s, r in build_in(I, st, V, (own,)):
                for s2, k, w in I.call(s, r, (FUNC,)):
                    if k != "ret":
                        continue
                    ready = [s2]
                    if after:
                        ready = [s4 for s3, k3, _ in I.call(s2, w, (), {"a": ad, "e": C(1), "c": C(1)}) for s4, k4, _ in I.call(s3, w, (), {"h": C(1), "b": C(1), "c": C(1)})]
                    for s3 in ready:
                        calls.clear()
                        for s4, k4, v in ck.took(I.call(I.clear(s3), w, given_args, given_kw)):
                            kept = all(s4.get(x[1]).d == st.get(x[1]).d for x in (own, its))
                            ck.ob("rules-kept", "validate", kept, f"a call changes the rules the next call is checked against: {label}", None, [str(s4.get(own[1]).d)[:300]])
                            if calls and calls[-1] != (given_args, given_kw):
                                ck.ob("passed-on", "validate", False, f"the function is not called with the parameters given: {label}", None, [str(calls[-1])[:300]])
                            if valid:
                                ck.ob("valid-called", "validate", k4 == "ret" and v == S("=result") and bool(calls), f"a valid call is not made: {label}", None, [k4, show(v)] + path_of(s4.facts))
                            else:
                                ck.ob("invalid-rejected", "validate", k4 == "raise" and "InvalidReaderConfigError" in repr(v) and not calls, f"an invalid call is not rejected: {label}", None, [k4, show(v)] + path_of(s4.facts))
    ck.need("valid-called", 34)
    ck.need("invalid-rejected", 40)


def decorated(prog):
    for f in prog.funcs:
        if f.qual == READER and not f.is_lambda:
            return any("validate" in ast.unparse(d) for d in f.node.decorator_list)
    return False


def parameters(ck):
    ck.saw(VALIDATE + ".__call__", VALIDATE + ".__call__.wrapper")
    grid(ck)
    # every public reader goes through it
    ck.ob("reader-validated", "Reader", decorated(ck.prog), "Reader is not wrapped by validate(RULES)", None)
