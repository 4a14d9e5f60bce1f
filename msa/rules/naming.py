"""C48 path templates, C49 LIKE: known templates, dates, texts and patterns"""
import datetime as dt
import os.path
import pathlib
from ..rulelib import *
from .dating import fold, const
from .tokens import regexes, pattern_of

PATHS = "mabel.utils.paths."
PURE = ("pathlib.PurePosixPath", "pathlib.PurePath", "pathlib.Path", "pathlib.PosixPath")


def paths_of(I, st, f, args, kw, fr, node):
    """the parts of known paths, and joining them"""
    if f[0] == "ext" and f[1] in PURE and args and all(a[0] == "c" for a in args) and not kw:
        return [(st, "v", C(pathlib.PurePosixPath(*[a[2] for a in args])))]
    if f == ("ext", "builtins.str") and len(args) == 1 and args[0][0] == "c" and isinstance(args[0][2], pathlib.PurePath):
        return [(st, "v", C(str(args[0][2])))]
    if f[0] == "attr" and f[2] == "replace" and f[1][0] == "c" and isinstance(f[1][2], str) and args and args[0][0] == "c" and isinstance(args[0][2], str) and args[0][2] not in f[1][2]:
        return [(st, "v", f[1])]
    return fold(I, st, f, args, kw)


TEMPLATES = ["bucket/data/{yyyy}/{mm}/{dd}", "bucket/{yyyy}-{mm}-{dd}/x/{yyyy}", "b/{HH}{MM}{SS}/{mm}{dd}", "b/a/year_{yyyy}/month_{mm}/day_{dd}/by_hour/hour={HH}", "bucket/set", "b/{date}/{yyyy}", "b/mm/dd/{DD}/{yy}", "b/{mm}/{MM}/{mm}/{MM}", "{yyyy}/{dd}{dd}", "b/{HH}/x-{HH}/{SS}{SS}/{yyyy}{yyyy}", "b/{SS}/{MM}/{HH}/{dd}/{mm}/{yyyy}"]
WHEN = [dt.datetime(2021, 2, 3, 4, 5, 6), dt.datetime(1999, 12, 31, 23, 59, 58, 999999), dt.datetime(2024, 10, 11, 0, 0, 0), dt.date(2020, 2, 29), dt.date(2022, 1, 9)]


def filled(t, d):
    h, m, s = (d.hour, d.minute, d.second) if isinstance(d, dt.datetime) else (0, 0, 0)
    for k, v in (("{yyyy}", f"{d.year}"), ("{mm}", f"{d.month:02d}"), ("{dd}", f"{d.day:02d}"), ("{HH}", f"{h:02d}"), ("{MM}", f"{m:02d}"), ("{SS}", f"{s:02d}")):
        t = t.replace(k, v)
    return t


def templates(ck):
    """the placeholders of a path are filled with the parts of the date, everything else of it is kept"""
    I = ck.interp(keep_facts=True, ret_max=50, max_states=50, on_call=fold, watch=lambda k, n: False)
    I.while_turns, I.recursion = 40, 2
    ck.saw(PATHS + "date_format")
    f = I.value(PATHS + "date_format")
    for t in TEMPLATES + ["", "/", "{", "no placeholders"]:
        for d in WHEN:
            got = list(ck.took(I.call(I.fresh(), f, (C(t), C(d)))))
            ck.ob("filled-with-its-date", "date_format", got and all(k == "ret" and v == C(filled(t, d)) for s, k, v in got), f"{t!r} for {d} is not {filled(t, d)!r}", None, [show(v)[:200] for s, k, v in got][:3])
    ck.need("filled-with-its-date", len(TEMPLATES) * len(WHEN))


# dataset paths and the folder each is; a path that ends in a file name is its folder
FOLDERS = [("bucket/set", "bucket/set/"), ("bucket/set/", "bucket/set/"), ("a/b/c/d", "a/b/c/d/"), ("a/b/c/d/", "a/b/c/d/"), ("tests/{yyyy}/data", "tests/{yyyy}/data/"), ("b/data/year_{yyyy}/month_{mm}", "b/data/year_{yyyy}/month_{mm}/"), ("b/{yyyy}-{mm}-{dd}", "b/{yyyy}-{mm}-{dd}/"),
           ("b/x/{HH}{MM}/{SS}", "b/x/{HH}{MM}/{SS}/"), ("b.c/d.e/f", "b.c/d.e/f/"), ("a/b.c/", "a/b.c/"), ("a/b/file.jsonl", "a/b/"), ("a/{yyyy}/{mm}.parquet", "a/{yyyy}/"), ("A/B C/d-e_f", "A/B C/d-e_f/"), ("a/b/c.d/e/f", "a/b/c.d/e/f/"), ("a/.hidden", "a/.hidden/"), ("a/{date}/{DD}", "a/{date}/{DD}/")]


def folders(ck):
    """build_path gives the folder a dataset's path is, filled with the date"""
    I = ck.interp(keep_facts=True, ret_max=50, max_states=50, on_call=paths_of, watch=lambda k, n: False)
    I.while_turns, I.recursion = 40, 2
    ck.saw(PATHS + "build_path")
    f = I.value(PATHS + "build_path")
    for t, want in FOLDERS:
        for d in WHEN:
            w = filled(want, d)
            got = list(ck.took(I.call(I.fresh(), f, (C(t), C(d)))))
            ck.ob("its-folder", "build_path", got and all(k == "ret" and v == C(w) for s, k, v in got), f"{t!r} for {d} is not {w!r}", None, [show(v)[:200] for s, k, v in got][:3])
    for s, k, v in ck.took(I.call(I.fresh(), f, (C(""), C(WHEN[0])))):
        ck.ob("its-folder", "build_path", k == "raise", "no path at all is taken for a folder", None, [show(v)[:100]])
    ck.need("its-folder", len(FOLDERS) * len(WHEN))


def paths(ck):
    templates(ck)
    folders(ck)


# ---------------------------------------------------------------------- C49
LIKES = [("abc", "abc", True), ("abc", "ab", False), ("abc", "bc", False), ("abc", "a%", True), ("abc", "%c", True), ("abc", "%b%", True), ("abc", "b%", False), ("abc", "%b", False), ("abc", "a_c", True), ("abc", "a_", False), ("abc", "___", True), ("abc", "____", False), ("abc", "%", True), ("", "%", True), ("", "", True), ("", "_", False), ("a", "", False),
         ("abc", "A%", True), ("ABC", "a_c", True), ("Abc", "aBC", True), ("a\nb", "a%b", True), ("a\nb", "a_b", True), ("abc\n", "abc", False), ("abc\nx", "abc", False), ("x\nabc", "abc", False), ("\nabc", "%abc", True),
         ("a.c", "a.c", True), ("abc", "a.c", False), ("a*", "a*", True), ("aaa", "a*", False), ("a+", "a+", True), ("aa", "a+", False), ("a?", "a?", True), ("a", "a?", False), ("(a)", "(a)", True), ("a", "(a)", False), ("[a]", "[a]", True), ("a", "[a]", False), ("a{2}", "a{2}", True), ("aa", "a{2}", False), ("^a", "^a", True), ("a", "^a", False), ("a$", "a$", True), ("a", "a$", False), ("a|b", "a|b", True), ("a", "a|b", False),
         ("a\\b", "a\\b", True), ("\\d", "\\d", True), ("5", "\\d", False), ("a-b", "a-b", True), ("a b", "a b", True), ("ab", "a b", False), ("a#b", "a#b", True), ("50%", "50%", True), ("a_b", "a_b", True), ("axb", "a_b", True), ("a.b.c", "a.%.c", True), ("aXbXc", "a.%.c", False),
         ("mississippi", "m%ss%p_", True), ("mississippi", "m%ss%x_", False), ("mississippi", "%iss%iss%", True), ("mississippi", "%iss%iss%iss%", False), (10, "1%", True), (10, "2%", False), (1.5, "1.5", True), (True, "t%", True), (None, "%", False), (None, "", False)]


def likes(ck):
    """what known texts are like known patterns"""
    I = ck.interp(keep_facts=True, ret_max=50, max_states=50, on_call=regexes, watch=lambda k, n: False)
    I.while_turns, I.recursion = 40, 2
    TEXT = "mabel.utils.text."
    ck.saw(TEXT + "like")
    for name, neg in (("like", False), ("not_like", True)):
        f = I.value(TEXT + name)
        for x, y, want in LIKES:
            got = list(ck.took(I.call(I.fresh(), f, (C(x), C(y)))))
            ck.ob("like-its-pattern", name, got and all(k == "ret" and v[0] == "c" and bool(v[2]) == (want != neg) for s, k, v in got), f"{x!r} {name} {y!r} is not {want != neg}", None, [k + " " + show(v)[:150] for s, k, v in got][:3])
    ck.need("like-its-pattern", len(LIKES) * 2)
