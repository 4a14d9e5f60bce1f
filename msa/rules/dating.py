"""known dates: what the datetime module makes of constants"""
import datetime as dt
import re
from ..rulelib import *

MAKERS = {"datetime.datetime": dt.datetime, "datetime.date": dt.date, "datetime.time": dt.time, "datetime.timedelta": dt.timedelta,
          "datetime.datetime.combine": dt.datetime.combine, "datetime.datetime.strptime": dt.datetime.strptime, "datetime.datetime.fromisoformat": dt.datetime.fromisoformat,
          "datetime.date.fromisoformat": dt.date.fromisoformat, "re.match": re.match, "re.fullmatch": re.fullmatch, "re.search": re.search, "re.split": re.split}
METHODS = {"replace", "date", "time", "total_seconds", "timetuple", "strftime", "isoformat", "weekday", "isoweekday", "toordinal"}


def const(I, st, a):
    """the value of a constant, tuples included"""
    if a[0] == "ref":
        a = I.freeze(st, a)
    if a[0] == "c":
        return True, a[2]
    if a[0] == "tuple":
        vs = [const(I, st, x) for x in a[1]]
        return all(k for k, _ in vs), tuple(v for _, v in vs)
    if a in (("ext", "datetime.time.min"), ("attr", ("ext", "datetime.time"), "min")):
        return True, dt.time.min
    if a in (("ext", "datetime.time.max"), ("attr", ("ext", "datetime.time"), "max")):
        return True, dt.time.max
    return False, None


def fold(I, st, f, args, kw, fr=None, node=None):
    """the result of a call of the datetime module (or of a date's method) on constants, as on_call gives it"""
    fn = None
    if f[0] == "ext" and f[1] in MAKERS:
        fn = MAKERS[f[1]]
    elif f[0] == "attr" and f[2] in METHODS and f[1][0] == "c" and isinstance(f[1][2], (dt.date, dt.time, dt.timedelta)):
        fn = getattr(f[1][2], f[2], None)
    elif f[0] == "attr" and f[1][0] == "c" and isinstance(f[1][2], re.Match) and f[2] in ("group", "groups"):
        fn = getattr(f[1][2], f[2])
    elif f[0] == "attr" and f[1][0] == "call" and f[1][1] == ("ext", "re.compile") and f[2] in ("match", "fullmatch", "search", "split") and all(a[0] == "c" for a in f[1][2]) and not f[1][3]:
        fn = getattr(re.compile(*[a[2] for a in f[1][2]]), f[2])
    if fn is None:
        return None
    vals = []
    for a in args:
        if a[0] == "star":
            x = I.freeze(st, a[1])
            ps = x[2] if x[0] == "list" else [("one", y) for y in x[1]] if x[0] == "tuple" else None
            if ps is None or any(p[0] != "one" for p in ps):
                return None
            vals += [p[1] for p in ps]
        else:
            vals.append(a)
    vs = [const(I, st, a) for a in vals]
    ks = {k: const(I, st, v) for k, v in kw.items()}
    if not all(k for k, _ in vs) or not all(k for k, _ in ks.values()):
        return None
    try:
        r = fn(*[v for _, v in vs], **{k: v for k, (_, v) in ks.items()})
    except (ValueError, TypeError, OverflowError) as e:
        return [(st, "raise", ("exc", "builtins." + type(e).__name__, ()))]
    if isinstance(r, tuple):
        return [(st, "v", ("tuple", tuple(C(x) for x in tuple(r))))]
    if isinstance(r, list):
        st, ref = I.new_list(st, ("folded", repr(r)), "list", tuple(("one", C(x)) for x in r))
        return [(st, "v", ref)]
    return [(st, "v", C(r))]


RANGE = "mabel.utils.dates.date_range"
H = dt.timedelta(hours=1)
SPANS = [(dt.datetime(2021, 2, 27, 5), dt.datetime(2021, 2, 27, 5)), (dt.datetime(2021, 2, 27, 5), dt.datetime(2021, 2, 27, 9)),
         (dt.datetime(2020, 12, 31, 22), dt.datetime(2021, 1, 1, 1)), (dt.datetime(2021, 2, 27, 23), dt.datetime(2021, 3, 2, 1)),
         (dt.datetime(2021, 2, 27), dt.datetime(2021, 2, 27, 23)), (dt.datetime(2024, 2, 28, 3), dt.datetime(2024, 3, 1, 3))]


def oc(I, st, f, args, kw, fr, node):
    if f[0] == "fn" and I.callee_name(f).split(".")[-1] == "parse_iso" and len(args) == 1 and args[0][0] == "c" and isinstance(args[0][2], (dt.date, type(None))):
        v = args[0][2]
        return [(st, "v", C(v if v is None or isinstance(v, dt.datetime) else dt.datetime.combine(v, dt.time.min)))]
    return fold(I, st, f, args, kw)


def cycles(ck):
    """date_range goes through every hour from the first to the last"""
    I = ck.interp(keep_facts=True, ret_max=200, max_states=200, on_call=oc, watch=lambda k, n: k == "out")
    I.while_turns = 120
    ck.saw(RANGE)
    f = I.value(RANGE)
    for a, b in SPANS:
        want = [a + i * H for i in range(int((b - a) / H) + 1)]
        label = f"{a} to {b}"
        n = 0
        for s, k, v in ck.took(I.call(I.fresh(), f, (C(a), C(b)))):
            for s2, k2, v2 in (I.drain(s, v) if k == "ret" else [(s, k, v)]):
                n += 1
                got = [e.args[0] for e in s2.trace if e.kind == "out"]
                plain = [t[2] if t[0] == "c" else None for t in got]
                ck.ob("every-cycle", "date_range", k2 in ("n", "ret") and plain == want, f"from {label} not every hour is gone through once, from the first to the last", None,
                      [k2, f"{len(got)} of {len(want)}"] + [show(t)[:80] for t in got[:3]])
        ck.ob("every-cycle", "date_range", n > 0, "no range of days is gone through", None)
    ck.need("every-cycle", 6)


# ---------------------------------------------------------------------- C47
ISO = "mabel.utils.dates.parse_iso"
D = dt.datetime
GIVEN = [("2021-01-02", D(2021, 1, 2)), ("1999-12-31", D(1999, 12, 31)), ("2024-02-29", D(2024, 2, 29)), ("2021-01-02 10:11", D(2021, 1, 2, 10, 11)), ("2021-01-02T10:11", D(2021, 1, 2, 10, 11)),
         ("2021-01-02T10:11:12", D(2021, 1, 2, 10, 11, 12)), ("2021-01-02 10:11:12", D(2021, 1, 2, 10, 11, 12)), ("2021-01-02 10:11:12.345", D(2021, 1, 2, 10, 11, 12)), ("2021-11-12T23:59:58.123456", D(2021, 11, 12, 23, 59, 58)),
         ("2021-01-02T10:11:12Z", D(2021, 1, 2, 10, 11, 12)), ("2021-01-02T10:11Z", D(2021, 1, 2, 10, 11)), ("2021-01-02Z", D(2021, 1, 2)), ("2021-01-02T10:11:12.345Z", D(2021, 1, 2, 10, 11, 12)),
         ("2021-01-02T10:11:12+00:00", D(2021, 1, 2, 10, 11, 12)), ("2021-01-02T10:11:12+0000", D(2021, 1, 2, 10, 11, 12)), ("2021-01-02T10:11+00:00", D(2021, 1, 2, 10, 11)), ("2021-01-02T10:11:12.123456+00:00", D(2021, 1, 2, 10, 11, 12)),
         ("2020-06-07T08:09:10", D(2020, 6, 7, 8, 9, 10)), ("0001-01-01", D(1, 1, 1)), ("9999-12-31T23:59:59", D(9999, 12, 31, 23, 59, 59)),
         ("2021-13-01", None), ("2021-02-30", None), ("2023-02-29", None), ("2021-00-01", None), ("2021-01-02T24:00", None), ("2021-01-02T10:60", None), ("2021-01-02T10:11:60", None), ("0000-01-01", None), ("2021-01-02 10:11:xx", None),
         ("", None), ("hello", None), ("hello world", None), ("abcd-ef-gh", None), ("2021-1-2", None), ("2021/01/02", None), ("20210102", None), ("2021-01-02x10:11", None), ("12345678901234567890", None), ("+000000000000", None), ("2021-01-02T", None), ("2021-01-02T10", None),
         ("2021-01-02T10:11:12.345678901234567890", None), ("2021-01-+02", None), ("2021-01x02", None), ("2021x01-02", None), ("2021-01-02+00:00", D(2021, 1, 2)), ("2021-01-02x10:11:12", None), ("2021-01-02T10x11:12", None), ("2021-01-02 1:11:12", None), ("ZZZZZZZZZZZ", None), ("2021x01x02 and more", None), ("          ", None), ("2021-01-02T10x11", None), ("::::::::::::::::", None), ("----------", None),
         (None, None), (True, None), (False, None), (b"2021-01-02", None), (2j, None), (float("inf"), None), (float("-inf"), None), (float("nan"), None), (1e20, None), (10**18, None), (-10**18, None), (10**30, None), (10**400, None),
         (D(2021, 1, 2, 3, 4, 5, 6), D(2021, 1, 2, 3, 4, 5, 6)), (dt.date(2021, 1, 2), D(2021, 1, 2)), (0, D.fromtimestamp(0)), (1.5, D.fromtimestamp(1.5)), (1610000000, D.fromtimestamp(1610000000))]


def iso(ck):
    """what a text, a number or a date is as a date, for known values; never an error"""
    failed = []

    def oc(I, st, f, args, kw, fr, node):
        if f == ("ext", "datetime.datetime.fromtimestamp") and args and args[0][0] == "c" and len(args) == 1 and not kw:
            try:
                return [(st, "v", C(D.fromtimestamp(args[0][2])))]
            except (ValueError, TypeError, OverflowError, OSError) as e:
                return [(st, "raise", ("exc", "builtins." + type(e).__name__, ()))]
        return fold(I, st, f, args, kw)
    I = ck.interp(keep_facts=True, ret_max=200, max_states=200, on_call=oc, watch=lambda k, n: False)
    I.while_turns = 40
    ck.saw(ISO)
    f = I.value(ISO)
    for x, want in GIVEN:
        n = 0
        for s, k, v in ck.took(I.call(I.fresh(), f, (C(x),))):
            if k == "ret" and any(contains(t, ("ext", "numpy.datetime64")) for t in s.facts):
                continue
            n += 1
            short = repr(x)[:40]
            ck.ob("never-raises", "parse_iso", k == "ret", f"{short} is not a date: an error is raised", None, [show(v)])
            if k == "ret":
                ck.ob("right-date", "parse_iso", v == C(want), f"{short} is not taken for {want}", None, [show(v)[:300]] + [show(t)[:100] for t in s.facts][:5])
        ck.ob("right-date", "parse_iso", n, f"nothing is made of {x!r}", None)
    ck.need("right-date", len(GIVEN))
