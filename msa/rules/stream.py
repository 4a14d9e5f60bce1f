"""C04 backout routing, C05 validate-before-buffer, C06 pool locking, C07 pool membership."""
from .wlib import *
from .failures import POOLCALLS

LITERAL = lambda word: (lambda t: t[0] == "c" and isinstance(t[2], str) and word in t[2])


SANITIZE = "mabel.utils.text.sanitize"


def spine(t, stop_tags=(), stop=None):
    """the parts of a term, not looking into terms with the given tags"""
    todo = [t]
    while todo:
        x = todo.pop()
        if x[0] in stop_tags or (stop is not None and stop(x)):
            continue
        yield x
        if x[0] == "xelem":
            todo.append(x[1])
        elif x[0] != "c":
            todo.extend(children(x))


def is_pool(t):
    return t is not None and derived(t, lambda x: x[0] == "call" and x[1][0] == "cls" and POOL in x[1])


def is_blob(t):
    """a blob writer: built here or obtained from the pool"""
    return t is not None and derived(t, lambda x: x[0] == "call" and ((x[1][0] == "cls" and (BLOB in x[1])) or (x[1][0] == "attr" and x[1][2] == "get_writer")))


def writes(s):
    """(index, event, record) of records handed to a blob writer"""
    return [(i, e, e.args[0] if e.args else arg(e, None, "record")) for i, e in events(s, "call") if e.name == ".append" and e.recv is not None and (is_blob(e.recv) or is_pool(e.recv))]


def ident_of(s, i, recv):
    """the identity a pooled writer was requested under"""
    for x in walk(recv):
        if x[0] == "call" and x[1][0] == "attr" and x[1][2] == "get_writer":
            return x[2][0] if x[2] else dict(x[3]).get("identity")
    return None


def stream(I, **kw):
    s0, ref = shapes(I, make(I, STREAM, "jsonl", **kw), 1)[0]
    return I.clear(havoc_all(I, s0, ref)), ref


def backout(ck):
    I = ck.interp(watch=lambda k, n: k in ("call", "callx", "mut"), stop=HELPERS | {"pool_attendant", BLOB, POOL}, raisers=lambda n, f: n == ".validate", factless=("set", "iter", "enditer", "log"))
    ck.saw(STREAM + ".append")
    st, ref = stream(I)
    schema = st.get(ref[1]).d["schema"]
    for s, k, v in ck.took(I.method(st, ref, "append", (REC,))):
        ws = writes(s)
        bad = [(i, e) for i, e in events(s, "callx") if e.name == ".validate"]
        good = [(i, e) for i, e in events(s, "call") if e.name == ".validate"]
        for i, e, r in ws:
            ident = ident_of(s, i, e.recv)
            if ident is None:
                ck.ob("routed-by-identity", "StreamWriter.append", False, "the record is handed to a writer that was not selected by its identity", e, steps(s))
                continue
            backed = any(LITERAL("BACKOUT")(t) for t in spine(ident, ("elem", "xelem")))
            raw = [t for t in spine(ident, (), lambda t: t[0] == "call" and t[1][0] == "fn" and t[1][1] == SANITIZE) if t == REC]
            ck.ob("partition-value-sanitised", "StreamWriter.append", not raw, "a value from the record becomes part of the storage path without being sanitised", e, steps(s))
            judged = [x for j, x in bad + good if j < i and r in list(x.args) + [b for _, b in x.kw]]
            if s.fact(("truth", schema)) is not False:
                ck.ob("validated-first", "StreamWriter.append", bool(judged), "with a schema set, a record can reach a partition without having been validated (as the value that is written)", e, steps(s))
            if judged:
                failed = judged[-1].kind == "callx"
                ck.ob("invalid-to-backout" if failed else "valid-not-to-backout", "StreamWriter.append", backed == failed,
                      "a record that failed validation is written to the normal partition" if failed else "a record that passed validation is written to the BACKOUT partition", e, steps(s))
            elif s.fact(("truth", schema)) is False:
                ck.ob("valid-not-to-backout", "StreamWriter.append", not backed, "without a schema records go to BACKOUT", e, steps(s))
            ck.ob("record-written", "StreamWriter.append", r is not None and contains(r, REC), "what is written is not the record", e, steps(s))
        if k == "ret" and not ws:
            # only the zero-combination path of the placeholder loop may write nothing; its inputs are checked below
            loop = any(b is False and f[0] in ("truth", "exists") and contains(f[1], REC) and (f[1][0] == "list" or any(t == ("ext", "itertools.product") for t in spine(f[1], ("list",)))) for f, b in s.facts.items())
            ck.ob("never-dropped", "StreamWriter.append", bool(loop), "append() can return without having written the record anywhere", s.trace[-1] if s.trace else None, steps(s))
        for i, e in enumerate(s.trace):
            if e.kind == "mut" and e.name in ("append", "add") and e.args and contains(e.args[0], REC) and derived(e.args[0], lambda t: t[0] == "call" and t[1][0] == "attr" and t[1][2] == "get"):
                ck.ob("combinations-not-empty", "StreamWriter.append", nonempty(e, e.args[0]),
                      "an empty list in a partition field leaves no value combination: the record is silently dropped", e, steps(s))
    for r in ("validated-first", "invalid-to-backout", "valid-not-to-backout", "record-written"):
        ck.need(r, 2)
    routing(ck)


def nonempty(e, v):
    if v[0] == "list":
        return any(p[0] == "one" for p in v[2]) or bool(v[2])
    facts = e.facts or {}
    if facts.get(("truth", v)) is True:
        return True
    size = lambda t: t == v or (t[0] == "call" and t[1] == ("ext", "builtins.len") and v in t[2])
    for f, b in facts.items():
        if f[0] == "truth" and size(f[1]) and b is True:
            return True
        if f[0] == "cmp" and size(f[2]) and is_const(f[3]):
            n = cval(f[3])
            if (f[1], n, b) in (("eq", 0, False), ("lt", 1, False), ("le", 0, False), ("gt", 0, True), ("ge", 1, True), ("ne", 0, True)):
                return True
        if f[0] == "cmp" and size(f[3]) and is_const(f[2]):
            n = cval(f[2])
            if (f[1], n, b) in (("eq", 0, False), ("gt", 1, False), ("ge", 0, False), ("lt", 0, True), ("le", 1, True), ("ne", 0, True)):
                return True
    # not a list at all on this path
    return False


# ---------------------------------------------------------------------- C05
def validate_first(ck):
    for qual, short in ((SIMPLE, "Writer"), (BATCH, "BatchWriter")):
        I = ck.interp(ret_max=64, watch=lambda k, n: k in ("call", "callx"), stop=HELPERS | {BLOB}, raisers=lambda n, f: n in (".validate", "data_expectations.evaluate_record"))
        ck.saw(SIMPLE + ".append", qual + ".__init__")
        found = 0
        for s0, ref in shapes(I, make(I, qual, "jsonl", set_of_expectations=S("set_of_expectations")), 0):
            st = I.clear(havoc_all(I, s0, ref))
            d = st.get(ref[1]).d
            for s, k, v in ck.took(I.method(st, ref, "append", (REC,))):
                gate(ck, short, st, s, k, d, ref, [(i, e, e.args[0] if e.args else None) for i, e in events(s, "call") if e.name == ".append" and is_blob(e.recv)])
    I = ck.interp(ret_max=64, watch=lambda k, n: k in ("call", "callx"), stop=HELPERS, raisers=lambda n, f: n == "data_expectations.evaluate_record")
    ck.saw(DBW + ".append")
    for s0, ref in shapes(I, build(I, I.value(DBW), (), {"schema": S("schema"), "inner_writer": INNER, "dataset": S("dataset", "str"), "set_of_expectations": S("set_of_expectations")}), 0):
        st = I.clear(havoc(I, s0, ref)[0])
        d = st.get(ref[1]).d
        for s, k, v in ck.took(I.method(st, ref, "append", (REC,))):
            gate(ck, "DatabaseWriter", st, s, k, {"expectations": d.get("expectations", NONE)}, ref,
                 [(i, e, e.args[0] if e.args else None) for i, e in events(s, "call") if e.name == ".append" and any(contains(a, REC) for a in e.args)])
    for r in ("schema-before-buffer", "expectations-before-buffer", "rejected-not-buffered"):
        ck.need(r, 2)


def gate(ck, short, st, s, k, d, ref, ws):
    lab = f"{short}.append"
    failed = [e for _, e in events(s, "callx") if e.name in (".validate", "data_expectations.evaluate_record")]
    last = s.trace[-1] if s.trace else None
    if failed:
        ck.ob("rejected-not-buffered", lab, k == "raise" and not ws, "a record that failed validation or expectations is buffered (or the failure does not reach the caller)", failed[0], steps(s))
        before, after = st.get(ref[1]).d.get("records"), s.get(ref[1]).d.get("records")
        ck.ob("rejected-not-counted", lab, before == after, "a rejected record is counted as written", failed[0], steps(s))
        return
    if k != "ret":
        return
    ck.ob("accepted-buffered", lab, len(ws) == 1, f"an accepted record is handed to the blob writer {len(ws)} times", last, steps(s))
    before, after = st.get(ref[1]).d.get("records"), s.get(ref[1]).d.get("records")
    if before is not None and before[0] == "sym":
        ck.ob("accepted-counted", lab, after is not None and after != before and contains(after, before), "an accepted record is not counted", last, steps(s))
    for i, e, r in ws:
        if r is None or not contains(r, REC):
            ck.ob("accepted-buffered", lab, False, "what is buffered is not the record", e, steps(s))
            continue
        sch = d.get("schema")
        if sch is not None and s.fact(("truth", sch)) is not False and sch != NONE:
            ok = any(x.name == ".validate" and x.recv == sch and r in x.args for x in s.trace[:i])
            ck.ob("schema-before-buffer", lab, ok, "a record can be buffered without the value that is written having been validated against the schema first", e, steps(s))
        exp = d.get("expectations")
        if exp is not None and exp != NONE and s.fact(("truth", exp)) is not False:
            ok = any(x.name == "data_expectations.evaluate_record" and exp in x.args and r in x.args for x in s.trace[:i])
            ck.ob("expectations-before-buffer", lab, ok, "a record can be buffered without its expectations having been evaluated first", e, steps(s))


# ---------------------------------------------------------------------- C06
def locking(ck):
    I = ck.interp(watch=lambda k, n: k in ("call", "callx", "acquire", "enter", "release", "set"), stop=HELPERS | {BLOB, POOL}, raisers=lambda n, f: n in POOLCALLS or (n == ".append" and is_blob(f)) or n == ".validate")
    st, ref = stream(I)
    common = None
    for m, a in (("append", (REC,)), ("finalize", ()), ("pool_attendant", ())):
        lab = f"StreamWriter.{m}"
        ck.saw(STREAM + "." + m)
        n = 0

        def look(e, s, lab=lab, m=m):
            nonlocal n, common
            if e.kind in ("call", "callx") and (is_pool(e.recv) or (e.name == ".append" and is_blob(e.recv) and ident_of(s, 0, e.recv) is not None)):
                n += 1
                held = set(e.locks)
                ck.ob("pool-under-lock", lab, bool(held), f"{lab} works on the writer pool ({e.name}) without holding the lock: the attendant thread can evict the writer in between", e, steps(s))
                if held:
                    common = held if common is None else common & held
                    ck.ob("same-lock", lab, bool(common), f"{lab} protects the pool with a lock the other methods do not use", e, steps(s))
            if e.kind == "call" and e.name in ("time.sleep", ".join", ".wait") and not (e.recv is not None and (e.recv[0] == "c" or e.name == ".join" and not derived(e.recv, lambda t: t[0] == "ext" and t[1].startswith("threading")))):
                ck.ob("no-wait-under-lock", lab, not e.locks, f"{lab} waits ({e.name}) while holding the pool lock", e, steps(s))
            if e.kind in ("acquire", "enter"):
                lk = e.recv if e.kind == "acquire" else e.args[0]
                # (a call result without a lock constructor in it is some other context manager)
                again = lk in e.locks and not derived(lk, lambda t: t == ("ext", "threading.RLock"))
                ck.ob("no-reacquire", lab, not again, f"{lab} acquires a lock it already holds", e, steps(s))

        I.hook = look
        outs = ck.took(I.method(st, ref, m, a))
        I.hook = None
        for s, k, v in outs:
            ck.ob("lock-released", lab, not s.locks, f"{lab} can end while still holding the pool lock", s.trace[-1] if s.trace else None, steps(s))
        ck.ob("pool-used", lab, n > 0, f"{lab} no longer works on the pool")
    # the attendant stops once finalize() ran
    for s, k, v in I.method(st, ref, "finalize", ()):
        s1 = I.clear(s)
        for s2, k2, v2 in ck.took(I.method(s1, ref, "pool_attendant", ())):
            used = [e for e in s2.trace if is_pool(e.recv)]
            ck.ob("attendant-stops", "StreamWriter.finalize", not used, "after finalize() the pool attendant keeps working on the pool", used[0] if used else None, steps(s2))
    # everything the attendant reads exists before the thread starts
    outs = I.call(I.fresh(), I.value(STREAM), (), {"dataset": S("dataset", "str"), "format": C("jsonl"), "inner_writer": INNER, "schema": S("schema")})
    reads = attrs_read(ck.prog, STREAM, "pool_attendant")
    for s, k, v in ck.took(outs):
        if k != "ret":
            continue
        starts = [i for i, e in events(s, "call") if e.name == ".start"]
        ck.ob("attendant-started", "StreamWriter.__init__", bool(starts), "no pool attendant thread is started: idle writers are never committed")
        if starts:
            late = {e.name for e in s.trace[starts[0]:] if e.kind == "set" and e.name in reads and e.recv == v}
            ck.ob("state-before-start", "StreamWriter.__init__", not late, f"the attendant thread is started before {', '.join(sorted(late))} is set", s.trace[starts[0]], steps(s))
    for r in ("pool-under-lock", "lock-released", "state-before-start"):
        ck.need(r, 2)


def attrs_read(prog, qual, method):
    out, todo, seen = set(), [method], set()
    while todo:
        m = todo.pop()
        if m in seen:
            continue
        seen.add(m)
        for fi in prog.funcs:
            if fi.qual == f"{qual}.{m}":
                me = fi.node.args.args[0].arg
                for n in ast.walk(fi.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me:
                        out.add(n.attr)
                        todo.append(n.attr)
    return out


# ---------------------------------------------------------------------- C07
IDENT = S("identity")


def pool_state(I, n=2, made=None):
    s0, ref = made or shapes(I, build(I, I.value(POOL), (), {"pool_size": S("pool_size", "nat"), "inner_writer": INNER}), 1)[0]
    st = I.clear(s0)
    parts = []
    # learn the shape of an entry from the pool itself
    entry = None
    for s, k, v in I.method(st, ref, "get_writer", (S("probe"),)):
        lst = s.get(ref[1]).d.get("writers")
        if k == "ret" and lst is not None and lst[0] == "ref" and s.get(lst[1]).d:
            e = s.get(lst[1]).d[-1][1]
            if e[0] == "ref" and s.get(e[1]).kind == "dict":
                entry = {key: x for key, x in s.get(e[1]).d.items()}
    if entry is None:
        return None
    keys = {}
    for key, x in entry.items():
        if x == S("probe"):
            keys["id"] = key
        elif x[0] == "call" and x[1][0] == "cls":
            keys["writer"] = key
        else:
            keys["la"] = key
    if set(keys) != {"id", "writer", "la"}:
        return None
    for i in range(1, n + 1):
        st, d = st.new(("w", i), Obj("dict", None, {keys["id"]: S(f"id{i}"), keys["la"]: S(f"la{i}", "num"), keys["writer"]: S(f"w{i}")}, (0, None, ())))
        parts.append(("one", d))
    lst = st.get(ref[1]).d["writers"]
    st = st.put(lst[1], st.get(lst[1])._replace(d=tuple(parts)))
    return st, ref, keys


def members(I, s, ref, keys):
    """identities/writers in the pool, or None when not a plain list any more"""
    v = s.get(ref[1]).d["writers"]
    if v[0] != "ref":
        return None
    out = []
    for p in s.get(v[1]).d:
        if p[0] != "one" or p[1][0] != "ref":
            return None
        d = s.get(p[1][1]).d
        out.append((I.freeze(s, d[keys["id"]]), I.freeze(s, d[keys["writer"]]), I.freeze(s, d[keys["la"]])))
    return out


def eqs(s, a, b):
    for t in (("cmp", "eq", a, b), ("cmp", "eq", b, a)):
        f = s.facts.get(t)
        if f is not None:
            return f
    return None


def pool(ck):
    I = ck.interp(watch=lambda k, n: k in ("call", "callx"), stop=HELPERS | {BLOB}, raisers=lambda n, f: n == ".commit", noraise={"time.time", "time.time_ns", "time.monotonic", "time.monotonic_ns"})
    got = pool_state(I)
    if got is None:
        raise AnalysisError("the pool no longer keeps its writers as a list of records with identity, last access and writer")
    st, ref, keys = got
    ck.saw(*(POOL + "." + m for m in ("get_writer", "create_writer", "remove_writer", "close", "nominate_writers_to_evict", "get_stale_writers")))
    two = [(S("id1"), S("w1")), (S("id2"), S("w2"))]
    # a writer asked for by identity
    for s, k, v in ck.took(I.method(st, ref, "get_writer", (IDENT,))):
        same = [eqs(s, i, IDENT) for i, _ in two]
        if k != "ret" or same.count(True) > 1:
            continue
        m = members(I, s, ref, keys)
        v = I.freeze(s, v)
        last = s.trace[-1] if s.trace else None
        if True in same:
            w = two[same.index(True)]
            ck.ob("identity-match", "WriterPool.get_writer", v == w[1], "the writer returned is not the one pooled under the requested identity", last, steps(s))
            ck.ob("one-writer-per-identity", "WriterPool.get_writer", m is not None and len(m) == 2, "asking for a pooled identity changes the pool", last, steps(s))
            la = [x[2] for x in m or [] if x[1] == w[1]]
            ck.ob("access-time-updated", "WriterPool.get_writer", bool(la) and la[0] not in (S("la1", "num"), S("la2", "num")) and derived(la[0], lambda t: t[0] == "ext" and t[1].startswith("time.")),
                  "using a pooled writer does not refresh its last access time: it can be evicted as stale while in use", last, steps(s))
        else:
            new = [x for x in m or [] if x[0] == IDENT]
            ck.ob("one-writer-per-identity", "WriterPool.get_writer", m is not None and len(m) == 3 and len(new) == 1 and new[0][1] == v,
                  "a new writer is not added to the pool under its identity: its records are never committed", last, steps(s))
            if new:
                kw = dict(v[3]) if v[0] == "call" else {}
                ck.ob("identity-is-dataset", "WriterPool.create_writer", kw.get("dataset") == IDENT, "the blob writer created for an identity does not write to that identity", last, steps(s))
    # removal: exactly the asked-for writer, committed before it is let go
    for s, k, v in ck.took(I.method(st, ref, "remove_writer", (IDENT,))):
        same = [eqs(s, i, IDENT) for i, _ in two]
        if same.count(True) > 1:
            continue
        m = members(I, s, ref, keys)
        inpool = [x[1] for x in m or []]
        last = s.trace[-1] if s.trace else None
        for (i, w), b in zip(two, same):
            com = [e for _, e in events(s, "call") if e.name == ".commit" and e.recv == w]
            if b is True and k == "ret":
                ck.ob("removed-committed", "WriterPool.remove_writer", len(com) == 1, "a writer is removed from the pool without being committed", last, steps(s))
                ck.ob("removed-gone", "WriterPool.remove_writer", w not in inpool, "a committed writer stays in the pool", last, steps(s))
            elif b is True and k == "raise" and not com:
                ck.ob("failed-stays", "WriterPool.remove_writer", w in inpool, "a writer whose commit failed is dropped from the pool with its records", last, steps(s))
            elif b is False:
                ck.ob("others-stay", "WriterPool.remove_writer", w in inpool, "removing one writer drops another one", last, steps(s))
    for s, k, v in ck.took(I.method(st, ref, "close", ())):
        if eqs(s, S("id1"), S("id2")) is True or k != "ret":
            continue
        for i, w in two:
            com = [e for _, e in events(s, "call") if e.name == ".commit" and e.recv == w]
            ck.ob("close-commits-all", "WriterPool.close", len(com) == 1, "closing the pool discards a writer without committing it", s.trace[-1] if s.trace else None, steps(s))
    # finalizing a stream commits everything in its pool
    I2 = ck.interp(watch=lambda k, n: k in ("call", "callx"), stop=HELPERS | {BLOB}, raisers=lambda n, f: n == ".commit", noraise={"time.time", "time.time_ns", "time.monotonic", "time.monotonic_ns"})
    ck.saw(STREAM + ".finalize")
    ss, sref = shapes(I2, make(I2, STREAM, "jsonl"), 1)[0]
    pools = [x for x in ss.get(sref[1]).d.values() if x[0] == "ref" and ss.get(x[1]).kind == "inst" and ss.get(x[1]).cls == POOL]
    if len(pools) != 1:
        raise AnalysisError("StreamWriter no longer owns one WriterPool")
    s3, _, _ = pool_state(I2, 3, (ss, pools[0]))
    three = [S(f"id{i}") for i in (1, 2, 3)]
    for s, k, v in ck.took(I2.method(s3, sref, "finalize", ())):
        if k != "ret" or any(eqs(s, a, b) is True for a in three for b in three if a != b):
            continue
        for i in (1, 2, 3):
            com = [e for _, e in events(s, "call") if e.name == ".commit" and e.recv == S(f"w{i}")]
            ck.ob("finalize-commits-all", "StreamWriter.finalize", len(com) >= 1, "finalize() returns without having committed every pooled writer", s.trace[-1] if s.trace else None, steps(s))
    # staleness
    for s, k, v in ck.took(I.method(st, ref, "get_stale_writers", (S("secs"),))):
        f = I.freeze(s, v)
        if k != "ret" or f[0] != "list":
            continue
        for i in (1, 2):
            old = None
            for t, b in s.facts.items():
                o = older(t, S(f"la{i}", "num"), S("secs"))
                if o is not None:
                    old = b if o else not b
            inside = any(contains(p, S(f"id{i}")) for p in f[2])
            if old is None and not inside:
                continue
            ck.ob("stale-only", "WriterPool.get_stale_writers", inside == (old is True), "a writer is reported stale although it was used within the idle timeout (or the other way round)", s.trace[-1] if s.trace else None, steps(s))
    # LRU nomination, on a pool of any size
    s0, r2 = shapes(I, build(I, I.value(POOL), (), {"pool_size": S("pool_size", "nat"), "inner_writer": INNER}), 1)[0]
    hs = I.clear(havoc(I, s0, r2)[0])
    for s, k, v in ck.took(I.method(hs, r2, "nominate_writers_to_evict", ())):
        if k == "ret":
            nominate(ck, I, s, I.freeze(s, v), keys)
    for r in ("finalize-commits-all", "identity-match", "one-writer-per-identity", "removed-committed", "close-commits-all", "stale-only", "lru-order", "over-capacity-only"):
        ck.need(r, 1)


def older(t, la, secs):
    """True: fact t says 'idle longer than secs'; False: says the opposite; None: unrelated"""
    if t[0] != "cmp" or t[1] not in ("lt", "le", "gt", "ge"):
        return None
    op, a, b = t[1], t[2], t[3]
    if op in ("gt", "ge"):
        op, a, b = {"gt": "lt", "ge": "le"}[op], b, a
    # a < b
    age = lambda x: x[0] == "bin" and x[1] == "-" and x[3] == la and derived(x[2], lambda y: y[0] == "ext" and y[1].startswith("time."))
    lim = lambda x: x[0] == "bin" and x[1] == "-" and x[3] == secs and derived(x[2], lambda y: y[0] == "ext" and y[1].startswith("time."))
    if a == secs and age(b) or a == la and lim(b):
        return True
    if age(a) and b == secs or lim(a) and b == la:
        return False
    if a[0] == "bin" and a[1] == "+" and set(a[2:4]) == {la, secs}:
        return True
    if b[0] == "bin" and b[1] == "+" and set(b[2:4]) == {la, secs}:
        return False
    return None


def all_meta(f):
    out = []
    todo = list(f[3]) if f[0] == "list" else []
    while todo:
        m = todo.pop(0)
        if m[0] == "of":
            todo = list(m[1:]) + todo
        else:
            out.append(m)
    return out


def nominate(ck, I, s, f, keys):
    if f[0] == "list" and not f[2]:
        ck.ob("over-capacity-only", "WriterPool.nominate_writers_to_evict", True, "")
        return
    meta = all_meta(f)
    srt = [m for m in meta if m[0] == "sorted"]
    lab = "WriterPool.nominate_writers_to_evict"
    where = None
    heap = [x for x in walk(f) if x[0] == "call" and x[1] == ("ext", "heapq.nsmallest")]
    if not srt and not heap:
        ck.ob("lru-order", lab, False, "the writers to evict are not chosen by how long ago they were used", f"{lab}")
        return
    if heap:
        ck.ob("lru-order", lab, True, "")
        ck.ob("over-capacity-only", lab, contains(heap[0][2][0], S("pool_size", "nat")), "nominates writers without regard to the pool size", lab)
        return
    key, rev = srt[-1][1], srt[-1][2]
    probe = S("probe_entry")
    st, d = s.new(("probe",), Obj("dict", None, {keys["id"]: S("pid"), keys["la"]: S("pla", "num"), keys["writer"]: S("pw")}, (0, None, ())))
    vals = [I.freeze(s1, v) for s1, k, v in I.call(st, key, (d,), {}) if k == "ret"] if key[0] in ("fn", "bm", "partial", "opq") else []
    if key[0] == "call" and key[1] == ("ext", "operator.itemgetter"):
        vals = [S("pla", "num")] if key[2] == (keys["la"],) else [NONE]
    slices = [m for m in meta if m[0] == "slice"]
    up = [m[2] for m in slices if m[2] != NONE]
    low = [m[1] for m in slices if m[1] != NONE]
    asc = vals == [S("pla", "num")] and rev in (FALSE, NONE)
    neg = [("neg", S("pla", "num")), ("un", "-", S("pla", "num"))]
    desc = (vals == [S("pla", "num")] and rev == TRUE) or (len(vals) == 1 and vals[0] in neg)
    ck.ob("lru-order", lab, (asc and bool(up) and not low) or (desc and bool(low)), "the writers nominated for eviction are not the least recently used ones", lab)
    excess = [b for b in up + low if contains(b, S("pool_size", "nat"))]
    ck.ob("over-capacity-only", lab, bool(excess), "writers are nominated for eviction without regard to the pool size", lab)
    if asc:
        size = [b for b in up if derived(b, lambda t: t[0] == "bin" and t[1] == "-" and t[3] == S("pool_size", "nat") and derived(t[2], lambda y: y == ("ext", "builtins.len")))]
        if ck.ob("over-capacity-only", lab, bool(size), "more writers are nominated than the pool is over its capacity", lab):
            for b in size:
                ok = clamped(b) or any(derived(t, lambda y: y == S("pool_size", "nat")) and derived(t, lambda y: y == ("ext", "builtins.len")) for t in s.facts)
                ck.ob("over-capacity-only", lab, ok, "when the pool is under capacity the slice bound is negative and writers are nominated all the same", lab)


def clamped(b):
    if b[0] == "call" and b[1] == ("ext", "builtins.max"):
        return any(is_const(a) and cval(a) == 0 for a in b[2])
    if b[0] == "call" and b[1] == ("ext", "builtins.min"):
        return all(clamped(a) or a[0] == "sym" or is_const(a) for a in b[2]) and any(clamped(a) for a in b[2])
    return False


# ---------------------------------------------------------------------- C04: the values go to their own placeholders
F1, F2 = S("=placeholder1", "str"), S("=placeholder2", "str")


def routing(ck):
    """two placeholders of the template: the value put in place of each is the record's value for that very one,
    and every combination of values is written"""
    hit = []

    def on_call(I, st, f, args, kw, fr, node):
        name = I.callee_name(f) or ""
        if name == "re.findall" or name.endswith(".findall"):
            hit.append(1)
            st, v = I.new_list(st, I.site(node, fr), "list", (("one", F1), ("one", F2)))
            return [(st, "v", v)]
        if name in ("sorted", "builtins.sorted", "reversed", "builtins.reversed") and args:
            x = I.freeze(st, args[0])
            if x[0] in ("list", "set", "tuple") and {F1, F2} == {p[1] if isinstance(p, tuple) and p[0] == "one" else p for p in (x[1] if x[0] == "tuple" else x[2])}:
                # the sorted order of the names is not the order a set has them in
                st, v = I.new_list(st, I.site(node, fr), "list", (("one", F2), ("one", F1)))
                return [(st, "v", v)]
        if name == "itertools.product":
            parts = [()]
            for a in args:
                x = I.freeze(st, a)
                some = any(y[0] == "item" and y[2][0] == "slice" and y[2][1:] != (NONE, NONE, NONE) or y[0] == "list" and (any(m[0] == "slice" for m in y[3]) or any(p[0] == "rep" and p[3] for p in y[2])) for y in walk(x))
                ck.ob("every-value", "StreamWriter.append", not some, "the record is not written for some of the values a field holds", None, [show(x, 6)])
                if x[0] == "list" and all(p[0] in ("one", "star") for p in x[2]):
                    vals = [p[1] if p[0] == "one" else ("elem", p[1], "_") for p in x[2]]
                else:
                    vals = [("elem", x, "_")]
                parts = [p + (y,) for p in parts for y in vals]
            st, v = I.new_list(st, I.site(node, fr), "list", tuple(("one", ("tuple", p)) for p in parts))
            return [(st, "v", v)]
        return None
    I = ck.interp(watch=lambda k, n: k in ("call", "callx"), stop=HELPERS | {"pool_attendant", BLOB, POOL}, on_call=on_call, max_states=400, ret_max=400)
    I.ordered_sets = True
    st, ref = stream(I)
    lab = "StreamWriter.append"
    of = lambda f: lambda t: t[0] == "call" and t[1][0] == "attr" and t[1][2] == "get" and t[2][:1] == (f,) and contains(t[1][1], REC) or t[0] == "item" and t[2] == f and contains(t[1], REC)
    for s, k, v in ck.took(I.method(st, ref, "append", (REC,))):
        if k != "ret" or not hit:
            continue
        ws = writes(s)
        ck.ob("never-dropped", lab, bool(ws), "append() can return without having written the record to any partition (no combination of its values is left)", s.trace[-1] if s.trace else None, steps(s))
        for i, e, r in ws:
            ident = ident_of(s, i, e.recv)
            if ident is None:
                continue
            put = {}
            for t in walk(ident):
                if t[0] == "call" and t[1][0] == "attr" and t[1][2] == "replace" and len(t[2]) >= 2:
                    for f in (F1, F2):
                        if contains(t[2][0], f):
                            put.setdefault(f, []).append(t[2][1])
                if t[0] == "call" and t[1][0] == "attr" and t[1][2] == "join" and t[2]:
                    # what stands between the parts of the text cut at the placeholder
                    cut = t[2][0]
                    if cut[0] == "list" and len(cut[2]) == 1 and cut[2][0][0] == "star":
                        cut = cut[2][0][1]
                    if cut[0] == "call" and cut[1][0] == "attr" and cut[1][2] == "split" and cut[2]:
                        for f in (F1, F2):
                            if contains(cut[2][0], f):
                                put.setdefault(f, []).append(t[1][1])
            if not put:
                continue
            for f, g in ((F1, F2), (F2, F1)):
                vals = put.get(f, [])
                ck.ob("placeholder-filled", lab, bool(vals), "a placeholder of the template is left in the path although the record was taken apart for it", e, steps(s))
                for x in vals:
                    own = any(of(f)(t) for t in walk(x)) or (not contains(x, REC) and any(any(of(f)(t) for t in walk(q)) for q in s.facts))
                    ck.ob("own-value-kept", lab, contains(x, REC) or any(b and (t[0] == "call" and t[1] == ("ext", "builtins.isinstance") and of(f)(t[2][0]) or t[0] == "cmp" and any(map(of(f), t[2:]))) for t, b in s.facts.items()),
                          "the record is put where none has a value although it has one: what is false is a value, only a list of none is not", e, [show(x)] + steps(s))
                    ck.ob("placeholder-own-value", lab, own and not any(of(g)(t) for t in walk(x)),
                          "a placeholder of the template is replaced by another field's value: the record goes to a partition it does not belong in", e, steps(s))
    if hit:
        ck.need("placeholder-own-value", 2)
