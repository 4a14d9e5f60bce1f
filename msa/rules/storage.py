"""C36 what the storage adapters list and read."""
from ..rulelib import *
from .reading import readers, reader

PATHARG, BLOB = S("path"), S("blob", "str")
LISTERS = {".rglob", ".glob", ".iterdir", ".list_blobs", ".list_objects", ".walk", "os.walk", "os.listdir", "os.scandir", "glob.glob", "glob.iglob"}
READS = {"read", "download_as_bytes", "download_as_string", "read_bytes", "readall"}


def is_part(t, of, i):
    """the i-th part get_parts takes `of` into"""
    return t[0] == "item" and t[2] == C(i) and t[1][0] == "call" and t[1][1][0] == "fn" and t[1][1][1].split(".")[-1] == "get_parts" and t[1][2][:1] == (of,)


def flat(t):
    if t[0] == "cat":
        return [y for x in t[1] for y in flat(x)]
    if t[0] == "bin" and t[1] in ("+", "add", "Add"):
        return flat(t[2]) + flat(t[3])
    return [t]


def recursive(e):
    kw = dict(e.kw)
    n = e.name
    if n == ".rglob":
        return e.args[:1] == (C("*"),)
    if n in (".glob", "glob.glob", "glob.iglob"):
        a = e.args[0] if e.args else NONE
        last = flat(a)[-1]
        return last[0] == "c" and str(last[2]).endswith("**/*") and (n == ".glob" or kw.get("recursive") == TRUE)
    if n in (".iterdir", "os.listdir", "os.scandir"):
        return False
    if n == ".list_blobs":
        return not set(kw) & {"delimiter", "max_results", "page_token", "start_offset", "end_offset"} and kw.get("include_trailing_delimiter") is None and len(e.args) < 2
    if n == ".list_objects":
        return kw.get("recursive", e.args[2] if len(e.args) > 2 else FALSE) == TRUE and not set(kw) & {"start_after"}
    return True


def storage(ck):
    prog = ck.prog
    I = ck.interp(stop={"build_path", "get_parts", "date_range"}, ret_max=200, watch=lambda k, n: k in ("call", "callx"))
    for q in readers(I, prog):
        cls = q.split(".")[-1]
        st, ref = reader(I, prog, q, start_date=S("start"), end_date=S("end"))
        outs = []
        for s, k, v in ck.took(I.method(st, ref, "get_blobs_at_path", (PATHARG,))):
            if k != "ret":
                continue
            if v[0] == "ref" and s.get(v[1]).kind == "list":
                outs.append((s, I.freeze(s, v)))
            else:
                outs += [(s2, I.freeze(s2, v2)) for s2, k2, v2 in I.call(s, ("ext", "builtins.list"), (v,), {}) if k2 == "ret"]
        ck.saw(q + ".get_blobs_at_path", q + ".get_blob_bytes")
        fn = cls + ".get_blobs_at_path"
        remote = False
        n = 0
        for s, v in outs:
            calls = [e for _, e in events(s, "call") if e.name in LISTERS]
            for e in calls:
                n += 1
                remote |= e.name in (".list_blobs", ".list_objects")
                ck.ob("recursive", fn, recursive(e), "the storage is not asked for every object below the path", e)
                ck.ob("this-path", fn, from_path(e), "the objects listed are not those below the path asked for", e)
            if v[0] != "list":
                ck.ob("listed", fn, False, "what is returned is not the listing of the path", calls[-1] if calls else None, steps(s))
                continue
            if not calls:
                if not v[2]:
                    ck.ob("nothing-there", fn, absent(s.facts), "no blobs are listed although the path exists", None, fact_path(s))
                continue
            groups = [p for p in v[2] if p[0] != "any"]
            if not groups:
                ck.ob("nothing-there", fn, absent(s.facts) or any(b is False and any(contains(t, e.res) for e in calls) for t, b in s.facts.items()), "no blobs are listed although the path has some", None, fact_path(s))
            for p in groups:
                if not ck.ob("one-name-per-object", fn, p[0] == "rep", "the names returned are not one per object listed", calls[-1], fact_path(s)):
                    continue
                binders = p[4] if len(p) > 4 else ()
                els = [x for x in walk(p[1]) if x[0] == "elem" and any(contains(x[1], e.res) for e in calls)]
                if not ck.ob("one-name-per-object", fn, els, "the names returned are not the names of the objects listed", calls[-1], fact_path(s)):
                    continue
                el = els[0]
                while el[1][0] == "elem":
                    el = el[1]
                others = [b for b in binders if b != el and not any(contains(b, e.res) for e in calls)]
                ck.ob("each-once", fn, not others, f"every object is listed once for each {show(others[0], 2) if others else ''}, so its data is read more than once", calls[-1], fact_path(s))
                for t, b in p[2]:
                    if contains(t, el):
                        ck.ob("no-object-skipped", fn, harmless(t, b, el), "objects other than folders are left out of the listing", calls[-1], [f"{'' if b else 'not '}{show(t)}"])
                ck.ob("name", fn, good_name(p[1], el, remote), "the name returned does not identify the object listed", calls[-1], [show(p[1], 5)])
            ck.ob("each-once", fn, len(groups) <= len({(e.name, e.recv, e.args, e.kw) for e in calls}), "the objects are returned more than once", calls[-1], fact_path(s))
        if not n:
            continue        # not backed by storage (the null reader)
        fn = cls + ".get_blob_bytes"
        for s, k, v in ck.took(I.method(st, ref, "get_blob_bytes", (BLOB,))):
            if k == "raise":
                ck.ob("own-error", fn, not unbound(v), "a failing read is reported as an unbound variable, not as the storage's error", None, steps(s))
                continue
            t = I.freeze(s, v)
            ck.ob("whole-read", fn, whole(t), "the content returned is not all of the blob's bytes", None, [show(t, 6)[:200]])
            ck.ob("this-blob", fn, this_blob(t, remote), "the content returned is not that of the blob asked for", None, [show(t, 8)[:300]])
    # the bytes reach the decompressor whole
    seen = set()
    for q in readers(I, prog):
        owner = next((c for c in I.mro(None, q) if c in prog.classes and any(isinstance(x, ast.FunctionDef) and x.name == "read_blob" for x in prog.classes[c].node.body)), None)
        if owner is None or owner in seen:
            continue
        seen.add(owner)
        ck.saw(owner + ".read_blob")
        J = ck.interp(stop={"get_blob_bytes"}, watch=lambda k, n: k in ("call", "callx"))
        st, ref = reader(J, prog, q, start_date=S("start"), end_date=S("end"))
        for s, k, v in ck.took(J.method(st, ref, "read_blob", (BLOB,))):
            if k != "ret":
                continue
            t = J.freeze(s, v)
            ok = t[0] == "call" and t[1] == ("ext", "io.BytesIO") and len(t[2]) == 1 and bytes_of(t[2][0])
            ok = ok or (v[0] == "ref" and len([1 for _, e in events(s, "call") if e.name == "io.BytesIO" and len(e.args) == 1 and bytes_of(e.args[0])]) == 1)
            ck.ob("stream", owner.split(".")[-1] + ".read_blob", ok, "the stream handed to the reader is not the blob's bytes from their start", None, [show(t, 5)[:200]])
    ck.need("recursive", 3)
    ck.need("name", 3)
    ck.need("whole-read", 3)
    ck.need("this-blob", 3)
    ck.need("stream", 1)


def bytes_of(t):
    return t[0] == "call" and t[1][0] in ("fn", "bm", "attr", "ext") and "get_blob_bytes" in repr(t[1]) and BLOB in t[2] + tuple(v for _, v in t[3])


def unbound(v):
    return "UnboundLocalError" in repr(v) or "NameError" in repr(v)


def fact_path(s):
    return [f"{'' if b else 'not '}{show(t)}"[:160] for t, b in s.facts.items()][:8]


def absent(facts):
    for t, b in facts.items():
        if t[0] == "truth" and b is False and any_term(t[1], lambda x: x[0] == "call" and (x[1][0] == "attr" and x[1][2] in ("exists", "is_dir") or x[1] in (("ext", "os.path.exists"), ("ext", "os.path.isdir"))) and contains(x, PATHARG)):
            return True
    return False


def from_path(e):
    if e.name in (".rglob", ".glob", ".walk"):
        r = e.recv
        while r is not None and r[0] == "call" and len(r[2]) == 1 and r[1][0] in ("ext", "cls"):
            r = r[2][0]
        return r == PATHARG
    if e.name in (".list_blobs", ".list_objects"):
        kw = dict(e.kw)
        prefix = kw.get("prefix", e.args[1] if len(e.args) > 1 else NONE)
        bucket = kw.get("bucket_or_name", kw.get("bucket_name", e.args[0] if e.args else e.recv or NONE))
        if not contains(prefix, PATHARG) or not contains(bucket, PATHARG):
            return False
        for x in walk(prefix):
            if x[0] == "item" and x[1][0] == "call" and x[1][1][0] == "fn" and x[1][1][1].endswith("get_parts"):
                return is_part(x, PATHARG, 1) and (prefix == x or prefix[0] == "call") and any_term(bucket, lambda y: is_part(y, PATHARG, 0)) and not any_term(bucket, lambda y: is_part(y, PATHARG, 1))
        return True
    return any(contains(a, PATHARG) for a in e.args)


def harmless(t, b, el):
    if t[0] == "truth" and t[1][0] == "call" and t[1][1][0] == "attr":
        m, a = t[1][1][2], t[1][2]
        if m in ("is_file",) and t[1][1][1] == el:
            return b is True
        if m == "is_dir":
            return b is False
        if m == "endswith" and a == (C("/"),):
            return b is False
    if t[0] == "cmp" and t[1] in ("eq", "is") and b is False:
        l, r = t[2], t[3]
        return C("/") in (l, r) and any(x[0] in ("item", "slice", "sub") for x in (l, r))
    return t[0] == "truth" and t[1][0] == "attr" and t[1][2] == "is_dir" and b is False


def good_name(t, el, remote):
    if not remote:
        if t[0] == "call" and t[1][0] == "attr" and t[1][2] in ("as_posix", "__str__", "__fspath__"):
            return t[1][1] == el
        if t[0] == "call" and t[1] in (("ext", "builtins.str"), ("cls", "builtins.str"), ("ext", "os.fspath")):
            return t[2] == (el,)
        if t[0] in ("str", "cat"):
            return t == ("cat", (el,))
        return t == el or t[0] == "call" and t[1] in (("ext", "os.path.join"), ("ext", "posixpath.join"))
    parts = flat(t)
    if len(parts) == 3 and parts[1] == C("/"):
        return is_part(parts[0], PATHARG, 0) and parts[2][0] == "attr" and parts[2][1] == el and parts[2][2] in ("name", "object_name")
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] == "join" and t[1][1] == C("/"):
        return True
    return False


def whole(t):
    if t[0] == "call" and t[1][0] == "attr" and t[1][2] in READS:
        if t[1][2] == "read" and (t[2] and t[2][0] not in (C(-1), NONE) or t[3]):
            return False
        if t[1][2].startswith("download") and (t[2] or any(k in ("start", "end") for k, _ in t[3])):
            return False
        o = t[1][1]
        if o[0] == "call" and o[1] == ("ext", "builtins.open"):
            mode = o[2][1] if len(o[2]) > 1 else dict(o[3]).get("mode", C("r"))
            return mode[0] == "c" and "b" in mode[2]
        if o[0] == "call" and o[1][0] == "attr" and o[1][2] == "open":
            mode = o[2][0] if o[2] else dict(o[3]).get("mode", C("r"))
            return mode[0] == "c" and "b" in mode[2]
        if o[0] == "call" and o[1][0] == "attr" and o[1][2] in ("get_object", "get_partial_object"):
            return len(o[2]) < 3 and not any(k in ("offset", "length") for k, _ in o[3])
        return True
    if t[0] == "call" and t[1] in (("ext", "builtins.bytes"), ("cls", "builtins.bytes")) and len(t[2]) == 1:
        return whole(t[2][0])
    if t[0] == "attr" and t[2] == "data":
        return True
    return t[0] not in ("c", "slice", "sub")


def this_blob(t, remote):
    if not contains(t, BLOB):
        return False
    if not remote:
        for x in walk(t):
            if x[0] == "call" and x[1] in (("ext", "builtins.open"), ("ext", "pathlib.Path")):
                a = x[2][0] if x[2] else dict(x[3]).get("file", NONE)
                while a[0] == "call" and len(a[2]) == 1:
                    a = a[2][0]
                return a == BLOB
        return True
    for x in walk(t):
        if x[0] != "call" or x[1][0] != "attr":
            continue
        m, kw = x[1][2], dict(x[3])
        if m in ("get_blob", "blob"):
            o = kw.get("blob_name", x[2][0] if x[2] else NONE)
            return object_of(o) and bucket_of(x[1][1])
        if m == "get_object":
            o = kw.get("object_name", x[2][1] if len(x[2]) > 1 else NONE)
            b = kw.get("bucket_name", x[2][0] if x[2] else NONE)
            return object_of(o) and bucket_of(b)
    return True


def object_of(o):
    if any_term(o, lambda x: x[0] == "call" and x[1][0] == "fn" and x[1][1].endswith("get_parts")):
        p = flat(o)
        return len(p) == 3 and all(is_part(x, BLOB, i + 1) for i, x in enumerate(p))
    return contains(o, BLOB) and o != BLOB


def bucket_of(b):
    ps = [x for x in walk(b) if x[0] == "item" and x[1][0] == "call" and x[1][1][0] == "fn" and x[1][1][1].endswith("get_parts")]
    return all(is_part(x, BLOB, 0) for x in ps) if ps else contains(b, BLOB)
