"""C41 - the functions of the SQL dialect give the value their name says, for every kind of argument."""
from ..rulelib import *

TABLE = "mabel.data.readers.internals.inline_functions.FUNCTIONS"
B = lambda n: ("ext", "builtins." + n)


def call(f, *args):
    return ("call", f, tuple(args), (), None)


def meth(base, name, *args):
    return call(("attr", base, name), *args)


X, Y, Z = S("x"), S("y"), S("z")
STR, DATE, STAMP, OTHER = ("sym", "text", "str"), ("sym", "day", "date"), ("sym", "stamp", "datetime"), ("sym", "thing", "thing")
PARSED, MIDNIGHT = ("sym", "parsed", "datetime"), ("sym", "midnight of day", "datetime")
STAMP2, STR2, DATE2, PARSED2, MIDNIGHT2 = ("sym", "stamp2", "datetime"), ("sym", "text2", "str"), ("sym", "day2", "date"), ("sym", "parsed2", "datetime"), ("sym", "midnight of day2", "datetime")
TYPES = {"str": {"str"}, "date": {"date"}, "datetime": {"date", "datetime"}, "none": set(), "thing": set()}


def kind(t):
    if t == NONE:
        return "none"
    if t[0] == "c":
        return type(t[2]).__name__
    if t[0] == "sym" and t[2] in TYPES:
        return t[2]
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] == "date" and kind(t[1][1]) == "datetime":
        return "date"
    return None


def last(t):
    return t[1].split(".")[-1] if t[0] in ("ext", "cls", "fn") and isinstance(t[1], str) else None


HAS = {"date": {"year", "month", "day", "isoformat", "strftime", "isocalendar", "isoweekday", "weekday", "timetuple", "toordinal", "replace"},
       "str": set(dir(str)), "none": set(), "thing": set()}
HAS["datetime"] = HAS["date"] | {"hour", "minute", "second", "microsecond", "date", "time", "tzinfo", "timestamp", "timetz"}


def typed(I, st, f, args, kw, fr, node):
    n = last(f) or I.callee_name(f)
    n = n.split(".")[-1] if n else n
    if f[0] == "ext" and n == "isinstance" and len(args) == 2:
        k = kind(args[0])
        if k is None:
            return None
        want = args[1]
        if want[0] == "ref":
            want = I.freeze(st, want)
        names = {last(x) for x in (want[1] if want[0] == "tuple" else [want])}
        if None in names:
            return None
        return [(st, "v", C(bool(names & (TYPES.get(k, {k}) | {"object"}))))]
    if f[0] == "ext" and n == "type" and len(args) == 1:
        k = kind(args[0])
        if k in ("str", "date", "datetime"):
            return [(st, "v", B("str") if k == "str" else ("ext", "datetime." + k))]
        if k is not None:
            return [(st, "v", ("ext", "builtins.NoneType" if k == "none" else "something else"))]
    if f[0] == "ext" and n == "hasattr" and len(args) == 2 and args[1][0] == "c":
        k = kind(args[0])
        if k is not None:
            return [(st, "v", C(args[1][2] in HAS.get(k, set())))]
    if f[0] == "fn" and n == "parse_iso" and len(args) == 1:
        k = kind(args[0])
        if k == "datetime":
            return [(st, "v", args[0])]
        if k == "date":
            return [(st, "v", ("sym", "midnight of " + args[0][1] if args[0][0] == "sym" else "midnight of something", "datetime"))]
        if k == "str":
            return [(st, "v", PARSED if args[0] == STR else PARSED2), (st, "v", NONE)]
        if k == "none":
            return [(st, "v", NONE)]
        return [(st, "v", ("sym", "parsed thing", "datetime")), (st, "v", NONE)]
    return None


def strip(t):
    """sites do not matter; midnight of a day has that day's parts and date(); (d - 1) // 3 spelled otherwise"""
    if not isinstance(t, tuple):
        return t
    if t and t[0] == "call":
        t = ("call", strip(t[1]), tuple(strip(a) for a in t[2]), tuple(sorted((k, strip(v)) for k, v in t[3])), None)
    elif t and t[0] in ("c", "sym"):
        return t
    else:
        t = tuple(strip(x) for x in t)
    m = lambda v: v[0] == "sym" and v[1].startswith("midnight of ")
    day = lambda v: ("sym", v[1][len("midnight of "):], "date")
    if t and t[0] == "attr" and m(t[1]):
        if t[2] in ("year", "month", "day"):
            return ("attr", day(t[1]), t[2])
        if t[2] in ("hour", "minute", "second", "microsecond"):
            return C(0)
    if t and t[0] == "call" and t[1][0] == "attr" and m(t[1][1]):
        if t[1][2] == "date":
            return day(t[1][1])
        if t[1][2] in ("strftime", "isocalendar"):
            return ("call", ("attr", day(t[1][1]), t[1][2])) + t[2:]
    if t == call(("ext", "datetime.datetime.combine"), DATE, ("attr", ("ext", "datetime.time"), "min")) or t == call(("ext", "datetime.datetime.combine"), DATE, ("ext", "datetime.time.min")):
        return MIDNIGHT
    if t == ("attr", ("ext", "datetime.time"), "min") or t == ("ext", "datetime.time.min") or t == meth(MIDNIGHT, "time") or t == call(("ext", "datetime.time")):
        return ("midnight",)
    if t and t[0] == "call" and t[1][0] == "ext" and t[1][1] in ("builtins.int", "builtins.float") and len(t[2]) == 1:
        v = t[2][0]
        if v[0] == "call" and v[1] == t[1]:
            return v
    return t


def quarter(m):
    """fold a whole-number formula over the month"""
    def num(t, month):
        if t == m:
            return month
        if t[0] == "c" and type(t[2]) in (int, float):
            return t[2]
        if t[0] == "bin":
            a, b = num(t[2], month), num(t[3], month)
            if a is None or b is None:
                return None
            try:
                return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "//": lambda: a // b, "%": lambda: a % b, "/": lambda: a / b}[t[1]]()
            except (KeyError, ZeroDivisionError):
                return None
        if t[0] in ("neg", "un") and len(t) >= 2:
            a = num(t[-1], month)
            return None if a is None else -a
        if t[0] == "call" and t[1] in (B("int"), ("ext", "math.ceil"), ("ext", "math.trunc")) and len(t[2]) == 1:
            a = num(t[2][0], month)
            return None if a is None else (-(-a // 1) if t[1][1] == "math.ceil" else int(a))
        return None

    def ok(t):
        got = [num(t, month) for month in range(1, 13)]
        return all(type(g) in (int, float) and g == (i // 3) + 1 for i, g in enumerate(got))
    return ok


def part(name):
    return lambda d: {("attr", d, name)}


def clock(name):
    return lambda d: {("attr", d, name)} if kind(d) == "datetime" and d[0] == "sym" else {C(0)}


def week(d):
    w = meth(d, "isocalendar")
    return {call(B("int"), meth(d, "strftime", C("%V"))), ("attr", w, "week"), ("item", w, C(1))}


def the_date(d):
    return {meth(d, "date")} if d[0] == "sym" and kind(d) == "datetime" else {d, DATE}


def the_time(d):
    return {meth(d, "time")} if d[0] == "sym" and kind(d) == "datetime" else {("midnight",)}


DATES = {"YEAR": part("year"), "MONTH": part("month"), "DAY": part("day"), "DATE": the_date, "TIME": the_time, "HOUR": clock("hour"),
         "MINUTE": clock("minute"), "SECOND": clock("second"), "WEEK": week, "QUARTER": None}

text = call(B("str"), X)
up, low = meth(text, "upper"), meth(text, "lower")
# name -> (number of arguments, results, results allowed for a missing argument or None when not considered)
PLAIN = {
    "UCASE": {up}, "UPPER": {up}, "LCASE": {low}, "LOWER": {low}, "TRIM": {meth(text, "strip")}, "LEN": {call(B("len"), X)},
    "ISNONE": {("cmp", "is", X, NONE)},
    "MD5": {meth(call(("ext", "hashlib.md5"), meth(text, "encode", *a)), "hexdigest") for a in ((), (C("utf-8"),), (C("utf8"),), (C("UTF-8"),))},
    "ROUND": {call(B("round"), X)},
    "BOOLEAN": {("not", ("cmp", "eq", up, C("FALSE"))), ("not", ("cmp", "eq", low, C("false")))},
}
number = call(B("float"), X)
NUMBERS = {"TRUNC": {call(("ext", "math.trunc"), number), call(B("int"), number)}, "INTEGER": {call(B("int"), number), call(("ext", "math.trunc"), number)}, "DOUBLE": {number}}


def run(ck):
    I = ck.interp(ret_max=300, max_states=300, on_call=typed, keep_facts=True, budget=400000)
    tab = I.value(TABLE)
    ck.saw(TABLE)
    st = I.fresh()
    o = st.get(tab[1]) if tab[0] == "ref" else None
    if o is None or o.kind != "dict":
        raise AnalysisError("the table of functions is not a dictionary")
    fns = {k[2]: v for k, v in o.d.items() if k[0] == "c"}
    cached(ck, I, fns)

    def outs(name, *args):
        f = fns.get(name)
        if f is None:
            raise AnalysisError(f"function {name} is gone from the table")
        return [(s, k, strip(I.freeze(s, v)) if v is not None else None) for s, k, v in ck.took(I.call(st, f, args, {}))]

    def expect(rule, name, desc, res, allowed, raising=True):
        for s, k, v in res:
            if k == "raise":
                continue
            good = allowed(s, v) if callable(allowed) else v in allowed
            ck.ob(rule, f"{name}({desc})", good, f"{name} of {desc} can give {show(v)[:100]}" + ("" if v is not NONE else " (nothing)"), None, steps(s))
        ck.ob("gives-a-value", f"{name}({desc})", any(k == "ret" for _, k, _ in res), f"{name} of {desc} never gives a value", None, [])

    for name, want in DATES.items():
        for arg, desc in ((STAMP, "a timestamp"), (DATE, "a date"), (STR, "text"), (OTHER, "anything else"), (NONE, "nothing")):
            res = outs(name, arg)
            if arg in (OTHER, NONE):
                expect("no-date", name, desc, res, {NONE})
                continue
            src = {STAMP: STAMP, DATE: DATE, STR: PARSED}[arg]
            ok = quarter(("attr", src, "month")) if want is None else (lambda v, w=want(src): v in {strip(x) for x in w})
            for s, k, v in res:
                if k == "raise":
                    continue
                if arg == STR and v == NONE:
                    continue
                ck.ob("date-part", f"{name}({desc})", ok(v), f"{name} of {desc} is {show(v)[:100]}", None, steps(s))
            ck.ob("date-part-given", f"{name}({desc})", any(k == "ret" and v != NONE for _, k, v in res), f"{name} of {desc} is never known", None, [])
            if arg == STR:
                ck.ob("unreadable-date", f"{name}({desc})", any(k == "ret" and v == NONE for _, k, v in res), f"{name} of text that is no date does not give nothing", None, [])
    days = [call(("ext", "datetime.timedelta"), Y), ("call", ("ext", "datetime.timedelta"), (), (("days", Y),), None)]
    for arg, src, desc in ((STAMP, STAMP, "a timestamp"), (DATE, DATE, "a date"), (STR, PARSED, "text"), (OTHER, None, "anything else"), (NONE, None, "nothing")):
        res = outs("ADDDAYS", arg, Y)
        want = {("bin", "+", a, b) for d in days for a, b in ((src, d), (d, src))} if src is not None else {NONE}
        if arg == STR:
            want.add(NONE)
        if arg == DATE:
            want |= {("bin", "+", MIDNIGHT, d) for d in days}
        expect("days-added", "ADDDAYS", desc, res, {strip(w) for w in want})
    for a, pa, da in ((STAMP, STAMP, "a timestamp"), (DATE, MIDNIGHT, "a date"), (STR, PARSED, "text"), (OTHER, None, "anything else"), (NONE, None, "nothing")):
        for b, pb, db in ((STAMP2, STAMP2, "a timestamp"), (DATE2, MIDNIGHT2, "a date"), (STR2, PARSED2, "text"), (OTHER, None, "anything else"), (NONE, None, "nothing")):
            res = outs("DAYSDIFF", a, b)
            want = {("attr", ("bin", "-", pb, pa), "days")} if pa is not None and pb is not None else {NONE}
            if a == DATE and b == DATE2:
                want.add(("attr", ("bin", "-", DATE2, DATE), "days"))
            if STR in (a, b) or b == STR2:
                want.add(NONE)
            expect("days-between", "DAYSDIFF", f"{da} and {db}", res, {strip(w) for w in want})
            ck.ob("days-known", f"DAYSDIFF({da} and {db})", pa is None or pb is None or any(k == "ret" and v != NONE for _, k, v in res), f"DAYSDIFF of {da} and {db} is never known", None, [])
    for name, want in PLAIN.items():
        expect("value", name, "a value", outs(name, X), {strip(w) for w in want} | ({TRUE, FALSE} if False else set()))
    for name, want in NUMBERS.items():
        expect("number", name, "nothing", outs(name, NONE), {NONE})
        expect("number", name, "a value", outs(name, X), lambda s, v, want=want: v in {strip(w) for w in want} if s.fact(("cmp", "is", X, NONE)) is not True else v == NONE)
    n, m, z = call(B("int"), Y), None, call(B("int"), Z)
    zero = lambda s: s.fact(("truth", n)) is False or s.fact(("cmp", "eq", n, C(0))) is True or s.fact(("truth", ("call", B("int"), (Y,), (), None))) is False

    def known_zero(s):
        for t, b in s.facts.items():
            t = strip(t)
            if (t == ("truth", n) and not b) or (t in (("cmp", "eq", n, C(0)), ("cmp", "eq", C(0), n)) and b):
                return True
        return False

    def not_zero(s):
        for t, b in s.facts.items():
            t = strip(t)
            if (t == ("truth", n) and b) or (t in (("cmp", "eq", n, C(0)), ("cmp", "eq", C(0), n)) and not b) or (t == ("cmp", "lt", C(0), n) and b):
                return True
        return False
    expect("left", "LEFT", "text and a count", outs("LEFT", X, Y), {("item", text, ("slice", a, n, b)) for a in (NONE, C(0)) for b in (NONE, C(1))} | {strip(w) for w in ()})
    neg = {("neg", n), ("un", "-", n), ("bin", "-", C(0), n), ("bin", "*", C(-1), n), ("bin", "*", n, C(-1))}
    tail = {("item", text, ("slice", a, NONE, b)) for a in neg for b in (NONE, C(1))}
    expect("right", "RIGHT", "text and a count", outs("RIGHT", X, Y), lambda s, v: (v == C("") and known_zero(s)) or (v in tail and not_zero(s)))
    cut = {("item", ("item", text, ("slice", n, NONE, NONE)), ("slice", a, z, NONE)) for a in (NONE, C(0))} | {("item", text, ("slice", n, ("bin", "+", p, q), NONE)) for p, q in ((n, z), (z, n))}
    expect("mid", "MID", "text, a start and a count", outs("MID", X, Y, Z), cut)
    for s, k, v in outs("BETWEEN", X, Y, Z):
        if k == "raise":
            continue
        lo, hi = s.fact(("cmp", "lt", Y, X)), s.fact(("cmp", "lt", X, Z))
        both = ("and", ("cmp", "lt", Y, X), ("cmp", "lt", X, Z))
        ok = v == both or (v == TRUE and lo and hi) or (v in (FALSE, ("cmp", "lt", Y, X)) and (lo is False or hi is False)) or (v == ("cmp", "lt", X, Z) and lo) or (v == ("cmp", "lt", Y, X) and hi)
        ck.ob("between", "BETWEEN", ok, f"BETWEEN gives {show(v)[:60]} with low < value {lo}, value < high {hi}", None, steps(s))
    for r in ("date-part", "no-date", "days-added", "days-between", "value", "number", "left", "right", "mid", "between"):
        ck.need(r)


def cached(ck, I, fns):
    """a remembered answer is given for every equal argument: 1, 1.0 and True have different texts"""
    for name, f in sorted(fns.items()):
        fi = ck.prog.funcs[f[3]] if f[0] == "fn" else None
        bad = [d for d in (ast.unparse(d) for d in (fi.decorators if fi else ())) if "cache" in d]
        if f[0] != "fn":
            bad += [show(x) for x in walk(f) if x[0] == "ext" and "cache" in str(x[1])]
        ck.ob("not-remembered", name, not bad, f"{name} is remembered by argument equality ({bad[0] if bad else ''}): equal values that print differently share one answer, and unhashable values fail", None, [])
