"""C08/C09 - what the storage adapters do with the bytes and the names they are given."""
from .wlib import *

BASE = "mabel.data.writers.internals.base_inner_writer.BaseInnerWriter"
DATA = S("bytes", "bytes")
NAME = S("name", "str")
IMPOTENT = ("mabel.adapters.null.",)     # documented as storing nothing
WRAP = ("io.BytesIO", "builtins.memoryview", "builtins.bytes", "builtins.bytearray")


def params(I, prog, cls, st=None):
    """a symbolic argument for every named parameter of the constructor"""
    kw = {}
    for q in I.mro(None, cls):
        ci = prog.classes.get(q)
        if ci is None:
            continue
        for n in ci.node.body:
            if isinstance(n, ast.FunctionDef) and n.name == "__init__":
                for a in n.args.args[1:] + n.args.kwonlyargs:
                    kw.setdefault(a.arg, S(a.arg))
                return kw
    return kw


def concrete(I, prog):
    return [q for q in sorted(prog.classes) if q != BASE and BASE in I.mro(None, q) and not q.startswith(IMPOTENT)]


def instances(I, prog, q, fmt, limit, **more):
    kw = params(I, prog, q)
    kw.update(more)
    kw["dataset"] = S("dataset", "str")
    kw["format"] = C(fmt)
    return shapes(I, build(I, I.value(q), (), kw), limit)


def is_data(t):
    while t[0] == "call" and t[1][0] == "ext" and t[1][1] in WRAP and len(t[2]) == 1:
        t = t[2][0]
    return t == DATA


def every_arg(e):
    return list(e.args) + [v for _, v in e.kw]


def stores(s):
    """successful external calls that were handed the bytes"""
    for i, e in enumerate(s.trace):
        if e.kind == "call" and any(contains(a, DATA) for a in every_arg(e)) and not (e.name in WRAP):
            yield i, e


def chain(e):
    """the calls that built the target of this event (receiver chain, callee chain, arguments)"""
    out = []
    roots = [e.recv] if e.recv is not None else []
    roots += every_arg(e)
    for r in roots:
        for x in walk(r):
            if x[0] == "call":
                out.append(x)
    return out


def direct_args(e):
    args = list(every_arg(e))
    for c in chain(e):
        if not (c[1][0] == "attr" and c[1][2] in ("replace", "strip", "lower", "upper", "format", "split")):
            args += list(c[2]) + [v for _, v in c[3]]
    # pathlib style targets
    return args


def strip_path(t):
    while t is not None and t[0] == "call" and len(t[2]) == 1 and (t[1][0] == "ext" and t[1][1] in ("builtins.str", "pathlib.Path", "os.fspath", "os.path.normpath")):
        t = t[2][0]
    return t


MOVES = ("os.replace", "os.rename", "os.renames", "shutil.move")


def moved(e):
    """(from, to) of a file moved by this event"""
    if e.kind != "call":
        return None
    if e.name in MOVES and len(e.args) >= 2:
        return strip_path(e.args[0]), strip_path(e.args[1])
    if e.name in (".rename", ".replace") and e.recv is not None and len(e.args) == 1:
        return strip_path(e.recv), strip_path(e.args[0])
    return None


def run(ck):
    I = ck.interp(watch=lambda k, n: k in ("call", "callx", "caught", "set"), stop={"get_parts"})
    lim = 3 if ck.tier == "quick" else 0
    for q in concrete(I, ck.prog):
        ck.saw(q + ".commit", q + ".__init__")
        short = q.split(".")[-1]
        for fmt in ("zstd",) if ck.tier == "quick" else ("zstd", "jsonl", "parquet", "text"):
            for s0, ref in instances(I, ck.prog, q, fmt, lim):
                st = I.clear(s0)
                for given in (NONE, NAME):
                    for s, k, v in ck.took(I.method(st, ref, "commit", (DATA, given), in_try=True)):
                        if k == "ret":
                            judge(ck, I, short, s, v, given == NAME and s.fact(("truth", NAME)) is not False, ref, st)
    ck.need("stores-all-bytes", 6)
    ck.need("stores-under-name", 6)
    ck.need("reports-name", 6)
    ck.need("stable-filename", 6)


def judge(ck, I, short, s, v, override, ref, st):
    what = "requested" if override else "generated"
    lab = f"{short}.commit"
    ss = list(stores(s))
    last = s.trace[-1] if s.trace else None
    whole = [(i, e) for i, e in ss if any(is_data(a) for a in every_arg(e))]
    if not ck.ob("stores-all-bytes", lab, bool(whole), f"{short}.commit can return without having handed exactly the given bytes to the storage", ss[0][1] if ss else last, steps(s)):
        return
    i, e = whole[-1]
    target = NAME if override else strip_path(v)
    args = [strip_path(a) for a in direct_args(e)]
    for m in s.trace[i + 1:]:
        move = moved(m)
        if move and move[0] in args:  # written beside and put in place, or taken away again
            args = [a for a in args if a != move[0]] + [move[1]]
    ck.ob("stores-under-name", f"{lab}({what})", target in args,
          f"{short}.commit does not store under the {what} name it reports ({show(target)[:80]})", e, steps(s))
    ck.ob("reports-name", f"{lab}({what})", strip_path(v) == target and v != C(""),
          f"{short}.commit does not return the name the blob was stored under", e, steps(s))
    for a in every_arg(e):
        for x in walk(a):
            if x[0] == "call" and x[1] == ("ext", "builtins.len"):
                ck.ob("declared-length", lab, is_data(x[2][0]), f"{short}.commit declares a length that is not the length of the bytes", e, steps(s))
    if e.name == ".put_object":
        n = arg(e, 3, "length")
        ok = n is not None and (n == C(-1) or (n[0] == "call" and n[1] == ("ext", "builtins.len") and is_data(n[2][0])))
        ck.ob("declared-length", lab, ok, f"{short}.commit declares a length that is not the length of the bytes", e, steps(s))
    for c in chain(e):
        if c[1][0] == "ext" and c[1][1] in ("builtins.open", "io.open") or (c[1][0] == "attr" and c[1][2] == "open"):
            m = dict(c[3]).get("mode") or (c[2][1] if c[1][0] == "ext" and len(c[2]) > 1 else c[2][0] if c[1][0] == "attr" and c[2] else None)
            ok = m is not None and is_const(m) and str(cval(m))[:1] in ("w", "x") and "b" in str(cval(m))
            ck.ob("replaces-content", lab, ok, f"{short}.commit opens the target in mode {show(m) if m else 'r'}: the blob would not be exactly the bytes", e, steps(s))
    # the name template must not depend on whether a commit already happened (frame.complete is placed by it)
    before, after = st.get(ref[1]).d.get("filename"), s.get(ref[1]).d.get("filename")
    ck.ob("stable-filename", lab, before == after,
          f"{short}.commit changes the adapter's filename: what is written before the first commit goes to another place", e, steps(s))
    if not override:
        ck.ob("name-from-template", lab, derived(v, lambda t: t == before or contains(before, t) and t[0] != "c") if before else True,
              f"{short}.commit does not derive the generated name from the frame's name template", e, steps(s))


# ---------------------------------------------------------------------- C09
CLOCKS = ("time.time_ns", "time.monotonic_ns", "time.perf_counter_ns")
RANDOM = ("uuid.uuid4", "uuid.uuid1", "secrets.token_hex", "secrets.token_urlsafe", "os.urandom")
HOSTS = ("uuid.getnode", "platform.node", "socket.gethostname")
PIDS = ("os.getpid",)


def fresh(ck):
    I = ck.interp(watch=lambda k, n: k in ("call", "callx", "set"), stop={"get_parts"})
    for q in [BASE] + concrete(I, ck.prog) + [x for x in sorted(ck.prog.classes) if x.startswith(IMPOTENT) and BASE in I.mro(None, x)]:
        short = q.split(".")[-1]
        if q == BASE:
            continue
        ck.saw(q + ".commit")
        for s0, ref in instances(I, ck.prog, q, "zstd", 3):
            st = I.clear(s0)
            firsts = [o for o in I.method(st, ref, "commit", (DATA, NONE)) if o[1] == "ret"]
            for s1, _, v1 in ck.took(firsts):
                n = len(s1.trace)
                for s2, k2, v2 in ck.took(I.method(s1, ref, "commit", (DATA, NONE))):
                    if k2 == "ret":
                        name_rule(ck, short, s2, n, v2)
    ck.need("names-unique", 6)


def scaled_down(t, src):
    """the clock reading loses resolution on its way into the name"""
    for x in walk(t):
        if x[0] == "bin" and x[1] in ("//", "/", "%", ">>", "&") and contains(x[2], src):
            return True
        if x[0] == "item" and x[2][0] == "slice" and contains(x[1], src) and x[1][0] != "attr":
            return True
        if x[0] == "call" and x[1][0] == "ext" and x[1][1] in ("builtins.int", "builtins.round") and len(x[2]) and contains(x[2][0], src) and x[2][0] != src:
            return True
        if x[0] == "call" and x[1][0] == "ext" and x[1][1] == "builtins.format" and len(x[2]) > 1 and x[2][0] == src and is_const(x[2][1]) and "." in str(cval(x[2][1])):
            return True
    return False


def name_rule(ck, short, s, n, v):
    named = [e for e in s.trace if e.kind == "call" and any(contains(a, v) for a in every_arg(e))]
    name = v
    # what the stored name is made of
    srcs = {x[1][1]: x for x in walk(name) if x[0] == "call" and x[1][0] == "ext"}
    second = {e.name for e in s.trace[n:] if e.kind == "call"}
    rnd = [r for r in RANDOM if r in srcs and r in second and not scaled_down(name, srcs[r])]
    clk = [c for c in CLOCKS if c in srcs and c in second and not scaled_down(name, srcs[c])]
    host = [h for h in HOSTS if h in srcs and not scaled_down(name, srcs[h])]
    pid = [p for p in PIDS if p in srcs and not scaled_down(name, srcs[p])]
    counter = None
    last = named[-1] if named else (s.trace[-1] if s.trace else None)
    if not name_in_use(s, name):
        # an adapter that stores nothing reports no name (judged by the storage contract)
        ck.ob("names-unique", f"{short}.commit(stores nothing)", True, "")
        return
    ck.ob("names-unique", f"{short}.commit: per commit", bool(rnd or clk),
          f"{short}: two commits can be given the same blob name: no full-resolution clock or random component read afresh for each commit", last, steps(s))
    ck.ob("names-unique", f"{short}.commit: per process", bool(rnd or (host and pid)),
          f"{short}: writers in different processes or on different hosts can be given the same blob name", last, steps(s))
    cached = [e for e in s.trace if e.kind == "call" and e.name in CLOCKS + RANDOM and memoised(ck.prog, e.where[2])]
    ck.ob("names-unique", f"{short}.commit: not memoised", not cached,
          f"{short}: the per-commit component of the blob name comes from a memoised function", cached[0] if cached else None, steps(s))


def memoised(prog, qual):
    return any(fi.qual == qual and any("cache" in ast.unparse(d) for d in getattr(fi.node, "decorator_list", ())) for fi in prog.funcs)


def name_in_use(s, name):
    return name != C("") and name[0] != "c"
