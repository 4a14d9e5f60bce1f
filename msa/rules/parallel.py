"""C44 reading blobs in several processes yields every record of every blob, unchanged."""
import json

from ..rulelib import *
from . import resume

MOD = "mabel.data.readers.internals.multiprocess_wrapper"
FUNC = S("=reader")
QUEUES = ("Queue", "JoinableQueue", "SimpleQueue", "LifoQueue")
CLOCKS = ("time.time", "time.monotonic", "time.perf_counter", "time.process_time")
DUMPS, LOADS = ("orjson.dumps", "json.dumps", "simdjson.dumps", "ujson.dumps"), ("orjson.loads", "json.loads", "simdjson.loads", "ujson.loads")


def last(f):
    return f[1].split(".")[-1] if f[0] in ("ext", "cls", "fn") and isinstance(f[1], str) else None


class Tokens:
    """constants that stand for the text of a value, the compressed form of a text ..."""

    def __init__(self):
        self.of = {}

    def make(self, kind, value):
        for k, v in self.of.items():
            if v == (kind, value):
                return C(k)
        k = f"<{kind}-{len(self.of)}>".encode()
        self.of[k] = (kind, value)
        return C(k)

    def open(self, kind, t):
        """the value behind a constant of that kind, None otherwise"""
        if t[0] == "c" and isinstance(t[2], (bytes, bytearray)):
            got = self.of.get(bytes(t[2]))
            if got and got[0] == kind:
                return got[1]
        return None


def coding(tok, I, st, f, args):
    """packing and unpacking of bytes and of records, modelled as inverse pairs"""
    n = f[1] if f[0] == "ext" else None
    if n is None or not args:
        return None
    a = args[0]
    if n in ("builtins.hasattr", "builtins.type"):
        o = st.get(a[1]) if a[0] == "ref" else None
        kind = type(a[2]) if a[0] == "c" else {"dict": dict, "list": list}.get(o.kind) if o is not None else None
        if kind is None:
            return None
        if n == "builtins.type":
            return [(st, "v", ("ext", "builtins." + kind.__name__ if kind is not type(None) else "builtins.NoneType"))] if len(args) == 1 else None
        return [(st, "v", C(hasattr(kind, args[1][2])))] if args[1][0] == "c" else None
    if n in DUMPS:
        v = I.freeze(st, a)
        x = plain(v)
        return [(st, "v", C(json.dumps(x[0], separators=(",", ":")).encode()) if x else tok.make("json", v))]
    if n in LOADS:
        if a[0] == "c" and isinstance(a[2], (bytes, str)):
            try:
                st, r = put(I, st, json.loads(a[2]), f"loaded.{len(st.trace)}")
                return [(st, "v", r)]
            except ValueError:
                pass
        got = tok.open("json", a)
        return [(st, "v", got if got is not None else ("opq", "unreadable", repr(a)))]
    if last(f) in ("compress", "decompress"):
        kind = n[: -len(last(f))] + "packed"
        if last(f) == "compress":
            b = I.freeze(st, a)
            if b[:2] == ("list", "buf") and all(p[0] == "star" and p[1][0] == "c" for p in b[2]):
                a = C(b"".join(p[1][2] for p in b[2]))
            return [(st, "v", tok.make(kind, a))] if a[0] == "c" else None
        got = tok.open(kind, a)
        return [(st, "v", got if got is not None else ("opq", "unreadable", repr(a)))]
    return None


def count(st, name):
    return sum(1 for e in st.trace if e.kind == "call" and e.name == name)


def args_of(st, name):
    return [e.args[0] for e in st.trace if e.kind == "call" and e.name == name]


def plain(v):
    """the python value of a frozen value, () where it is not a plain one"""
    if v[0] == "c":
        return (v[2],)
    if v[0] in ("list", "tuple"):
        parts = v[2] if v[0] == "list" else [("one", x) for x in v[1]]
        out = []
        for p in parts:
            x = plain(p[1]) if p[0] == "one" else ()
            if not x:
                return ()
            out.append(x[0])
        return (out,)
    if v[0] == "dict" and v[2] == NONE and not v[3]:
        out = {}
        for k, x in (v[1].items() if isinstance(v[1], dict) else v[1]):
            kk = k[2] if isinstance(k, tuple) else k
            x = plain(x)
            if not x:
                return ()
            out[kk] = x[0]
        return (out,)
    return ()


def typed(x):
    if isinstance(x, dict):
        return {k: typed(v) for k, v in x.items()}
    if isinstance(x, list):
        return [typed(v) for v in x]
    return (type(x).__name__, x)


RECORDS = ({"a": 1, "b": "text\nof two lines", "c": 1.5, "d": True, "e": None}, {}, {"in": {"x": [1, None, "y", {"z": False}], "y": {}}, "l": [], "n": [None]}, {"a": 0, "s": "", "f": False},
           "a line of text", "", [1, "two"])


def put(I, st, x, site):
    """the value as objects of the heap"""
    if isinstance(x, dict):
        kv = {}
        for k, v in x.items():
            st, kv[C(k)] = put(I, st, v, site + "." + k)
        return I.new_dict(st, (site,), kv)
    if isinstance(x, list):
        parts = []
        for i, v in enumerate(x):
            st, t = put(I, st, v, f"{site}.{i}")
            parts.append(("one", t))
        return I.new_list(st, (site,), "list", tuple(parts))
    return st, C(x)


SQ, RQ = S("=sources"), S("=replies")
EMPTY, FULL = ("exc", "queue.Empty", ()), ("exc", "queue.Full", ())


# ---------------------------------------------------------------------- one process
def worker(ck, tok, target, given, blobs, full, waits):
    """the payloads a process puts on the reply queue for the blobs it is given: [(state, [payload])]"""
    script = []  # what taking from the queue of sources gives, turn by turn
    for i, (name, _) in enumerate(blobs):
        script += [None] * (waits if i else 0) + [name]
    script += [None] * waits + [C(-1)]

    def oc(I, st, f, args, kw, fr, node):
        got = coding(tok, I, st, f, args)
        if got is not None:
            return got
        if f[0] == "ext" and f[1] == "time.sleep":
            return [(st, "v", NONE)]
        if f == FUNC:
            recs = dict(blobs).get(args[0])
            if recs is None:
                ck.ob("reads-sources", "worker", False, "a process reads something that is not one of the blobs it was given", I.where(node, fr) if hasattr(I, "where") else None, [show(args[0])[:80]])
                return []
            parts = []
            for i, r in enumerate(recs):
                st, t = put(I, st, r, f"record.{show(args[0])}.{i}")
                parts.append(("one", t))
            st = I.emit(st, "call", "read", None, (args[0],), {}, NONE, fr, node)
            st, ref = I.new_list(st, "records." + show(args[0]), "list", tuple(parts))
            return [(st, "v", ref)]
        if f[0] == "attr" and f[1] in (SQ, RQ):
            m = f[2]
            if f[1] == SQ and m in ("get", "get_nowait"):
                n = count(st, "asked")
                st = I.emit(st, "call", "asked", None, (), {}, NONE, fr, node)
                if n >= len(script):
                    ck.ob("stops", "worker", False, "a process goes on asking for blobs after it was told to stop", None, steps(st))
                    return []
                return [(st, "raise", EMPTY)] if script[n] is None else [(st, "v", script[n])]
            if f[1] == RQ and m == "full":
                n = count(st, "looked")
                st = I.emit(st, "call", "looked", None, (), {}, NONE, fr, node)
                return [(st, "v", C(n < full))]
            if f[1] == RQ and m in ("put", "put_nowait"):
                return [(I.emit(st, "call", "replied", None, (args[0],), {}, NONE, fr, node), "v", NONE)]
        return None
    I = ck.interp(on_call=oc, ret_max=100, max_states=100, watch=lambda k, n: k in ("call", "callx"))
    I.while_turns, I.recursion = 40, 8
    outs = []
    for s, k, v in ck.took(I.call(I.fresh(), target, *given)):
        replies = args_of(s, "replied")
        ck.ob("ends-well", "worker", k == "ret", f"a process fails ({show(v)[:80]}) and the records it read are lost", None, steps(s))
        if k == "ret":
            ck.ob("one-reply-each", "worker", len(replies) == len(blobs), f"{len(replies)} replies are sent for {len(blobs)} blobs: records are lost, or the blobs still to be read are not handed out", None, steps(s))
            ck.ob("all-taken", "worker", count(s, "asked") == len(script), "a process stops although it was not told to", None, steps(s))
            outs.append((s, replies))
    return outs


# ---------------------------------------------------------------------- the process that reads
def reading(ck, tok, target, N, cpus, lag, payloads):
    """what is yielded for N blobs: [(state, outcome, [value])]"""
    names = [C(f"blob-{i}") for i in range(N)]

    def oc(I, st, f, args, kw, fr, node):
        got = coding(tok, I, st, f, args)
        if got is not None:
            return got
        n = last(f)
        if f[0] in ("ext", "cls"):
            if n in ("cpu_count", "process_cpu_count"):
                return [(st, "v", C(cpus))]
            if f[1] in CLOCKS:
                return [(st, "v", C(0))]
            if n in QUEUES:
                return [(st, "v", ("opq", "queue", I.site(node, fr)))]
            if n in ("Process", "Thread"):
                kw = dict(kw)
                a = I.freeze(st, kw.get("args") or (args[3] if len(args) > 3 else ("tuple", ())))
                more = I.freeze(st, kw.get("kwargs") or (args[4] if len(args) > 4 else NONE))
                st = I.emit(st, "call", "made", None, (kw.get("target") or (args[1] if len(args) > 1 else NONE), a, more), {}, NONE, fr, node)
                return [(st, "v", ("opq", "process", I.site(node, fr)))]
            if n == "sleep":
                return [(st, "v", NONE)]
            if f[1] in ("builtins.min", "builtins.max") and len(args) > 1 and not kw and all(a[0] == "c" for a in args):
                return [(st, "v", C((min if n == "min" else max)(a[2] for a in args)))]
        if f[0] != "attr":
            return None
        on, m = f[1], f[2]
        sent, taken = args_of(st, "sent"), count(st, "taken")
        blobs, ends = [x for x in sent if x in names], len([x for x in sent if x not in names])
        started, out = count(st, "started"), 0
        out = len(blobs) - taken
        if on[:2] == ("opq", "process"):
            if m == "start":
                return [(I.emit(st, "call", "started", None, (), {}, NONE, fr, node), "v", NONE)]
            if m == "is_alive":
                return [(st, "v", C(out > 0 or ends < started))]
            return [(st, "v", NONE)]
        if on[:2] != ("opq", "queue"):
            return None
        if m in ("put", "put_nowait"):
            return [(I.emit(st, "call", "sent", None, (args[0], on), {}, NONE, fr, node), "v", NONE)]
        is_send = any(e.args[1] == on for e in st.trace if e.kind == "call" and e.name == "sent")
        if m in ("get", "get_nowait"):
            idle = count(st, "waited")
            if out <= 0 or not started or idle < lag * (taken + 1):
                st = I.emit(st, "call", "waited", None, (), {}, NONE, fr, node)
                if idle > lag * N + 6:
                    ck.ob("ends", "reader", False, "reading waits for replies that never come: blobs are not handed out, or the processes are not told to stop", None, steps(st))
                    return []
                return [(st, "raise", EMPTY)]
            st = I.emit(st, "call", "taken", None, (blobs[taken],), {}, NONE, fr, node)
            return [(st, "v", payloads[blobs[taken][2]])]
        if m == "empty":
            waiting = max(0, out - started) + max(0, ends - started) if is_send else max(0, out)
            return [(st, "v", C(waiting == 0))]
        if m == "full":
            return [(st, "v", C(False))]
        if m == "qsize":
            return [(st, "v", C(max(0, out)))]
        return [(st, "v", NONE)]
    I = ck.interp(on_call=oc, ret_max=100, max_states=100, watch=lambda k, n: k in ("call", "callx", "out"))
    I.while_turns, I.recursion = 80, 8
    st = I.fresh().assume(("cmp", "eq", ("ext", "os.name"), C("nt")), False)
    st, items = I.new_list(st, "blobs", "list", tuple(("one", x) for x in names))
    st, support = I.new_list(st, "support", "list", tuple(("one", x) for x in names))
    res = []
    for s, k, v in ck.took(I.call(st, target, (FUNC, items, support), {})):
        s, k, v = (s, k, v)
        res.append((I, s, k, v))
    return res


CONTENT = (RECORDS[:3], (), RECORDS[3:5], RECORDS[5:], ({"k": 1},), ({"k": 1}, {"k": 1}), (), ({"k": "last"},), ({"k": [None]},))
WHAT = {0: "a record with null, text of two lines, numbers or a boolean", 1: "an empty record", 2: "a record with lists and records inside", 3: "a record with falsy values", 4: "a line of text", 5: "an empty line", 6: "a list"}


def run(ck):
    tok = Tokens()
    start = ck.interp().value(MOD + ".processed_reader")
    names = [f"blob-{i}" for i in range(len(CONTENT))]
    nothing = {n: tok.make("lz4.frame.packed", C(b"")) for n in names}
    ck.saw(MOD + ".processed_reader", MOD + ".fix_dict", MOD + ".serialize")
    # what the processes are, and what they are given
    made = {}
    for I, s, k, v in reading(ck, tok, start, 5, 4, 0, nothing):
        for s1, k1, _ in I.drain(s, v) if k == "ret" else []:
            sends = {e.args[1] for e in s1.trace if e.kind == "call" and e.name == "sent"}
            for e in s1.trace:
                if e.kind == "call" and e.name == "made":
                    made[e.args] = sends
    if not made and ck.findings:
        return
    if not made:
        raise AnalysisError("no process is started to read blobs")
    target, given, named = next(iter(made))
    sends = made[target, given, named]
    if target[0] != "fn" or given[0] not in ("tuple", "list") or named != NONE and named[0] != "dict":
        raise AnalysisError("what the processes run is not a function of the package")
    ck.saw(target[1])
    by_name = {k[2]: x for k, x in named[1]} if named != NONE else {}
    order = [a[1] if given[0] == "list" else a for a in (given[2] if given[0] == "list" else given[1])] + list(by_name.values())
    back = [a for a in order if a[:2] == ("opq", "queue") and a not in sends]
    ck.ob("connected", "processed_reader", FUNC in order and len(back) == 1 and any(a in sends for a in order), "the processes are not given the reader, the queue blobs are sent on and the queue replies are taken from", None, [show(a) for a in order])
    args = [SQ if a in sends else RQ if a in back else a for a in order]
    if FUNC not in args or SQ not in args or RQ not in args:
        return
    n = len(args) - len(by_name)
    args = tuple(args[:n]), dict(zip(by_name, args[n:]))
    # one process
    payloads = {}
    grid = [(0, 0), (1, 1), (0, 2)] if ck.tier == "quick" else [(w, f) for w in (0, 1, 2) for f in (0, 1, 2)]
    for full, waits in grid:
        for lo, hi in ((0, 3), (3, 5), (5, len(names))):
            for s, replies in worker(ck, tok, target, args, [(C(names[i]), CONTENT[i]) for i in range(lo, hi)], full, waits):
                if len(replies) == hi - lo:
                    for i, r in zip(range(lo, hi), replies):
                        payloads.setdefault(names[i], r)
                        ck.ob("same-reply", "worker", payloads[names[i]] == r, "what is sent back for a blob depends on when it is read", None, steps(s))
    ck.need("one-reply-each", len(grid) * 3)
    if len(payloads) < len(names):
        return
    for i, r in enumerate(RECORDS):
        lone = worker(ck, tok, target, args, [(C("blob-0"), (r,))], 0, 0)
        for s, replies in lone:
            for k, v in read(ck, tok, start, 5, 4, 0, {n: replies[0] for n in names} if replies else nothing):
                got = [plain(x) for x in v]
                ck.ob("unchanged", WHAT[i], k != "raise" and [typed(x[0]) if x else None for x in got] == [typed(r)] * 5,
                      f"{WHAT[i]} is not the same when it is read in another process", None, [f"record {r!r}"] + ["read as " + (repr(x[0]) if x else show(y)[:160]) for x, y in zip(got, v)][:1])
    # all of it
    sizes = (5, 6, 9) if ck.tier == "quick" else range(5, len(names) + 1)  # fewer are read without other processes
    for n in sizes:
        for cpus in (1, 2, 4, 16) if ck.tier == "quick" else (1, 2, 3, 4, 5, 8, 16):
            for lag in (0, 1) if ck.tier == "quick" else (0, 1, 3):
                want = sorted(repr(typed(r)) for c in CONTENT[:n] for r in c)
                for k, v in read(ck, tok, start, n, cpus, lag, payloads):
                    got = [plain(x) for x in v]
                    have = sorted(repr(typed(x[0])) if x else show(y)[:100] for x, y in zip(got, v))
                    ck.ob("every-record", "processed_reader", k != "raise" and have == want, f"reading {n} blobs with {cpus} CPUs does not yield exactly the records of the blobs", None,
                          [f"{len(have)} records yielded, {len(want)} in the blobs"] + [f"lost {x}"[:160] for x in want if x not in have][:4] + [f"made up {x}"[:160] for x in have if x not in want][:4])
    ck.need("every-record", 20)
    ck.need("unchanged", 7)
    chosen(ck)


def read(ck, tok, start, n, cpus, lag, payloads):
    for I, s, k, v in reading(ck, tok, start, n, cpus, lag, payloads):
        if k != "ret":
            yield k, []
            continue
        for s1, k1, _ in I.drain(s, v):
            out = [e.args[0] for e in s1.trace if e.kind == "out"]
            taken = count(s1, "taken")
            sent = [x for x in args_of(s1, "sent")]
            names = [C(f"blob-{i}") for i in range(n)]
            ck.ob("each-once", "processed_reader", sorted(x[2] for x in sent if x in names) == sorted(x[2] for x in names), f"the blobs handed out are not each of the blobs once ({n} blobs, {cpus} CPUs)", None, steps(s1))
            ck.ob("replies-taken", "processed_reader", taken == n, f"reading ends before all replies were taken ({n} blobs, {cpus} CPUs)", None, steps(s1))
            yield k1, out


# ---------------------------------------------------------------------- when it is used
def chosen(ck):
    lab = "_create_line_reader"
    for given in (NONE, resume.SAVED):
        serial, par, readers = [], [], set()

        def note(what, I, st, args, kw):
            if what == "cursor":
                serial.append(I.freeze(st, args[0] if args else kw.get("readable_blobs", NONE)))
            if what == "parallel_made":
                readers.add(tuple((str(i), repr(I.freeze(st, x))) for i, x in enumerate(args)) + tuple(sorted((n, repr(I.freeze(st, x))) for n, x in kw.items())))
            if what == "processed":
                a = list(args) + [kw.get(n, NONE) for n in ("func", "items_to_read")[len(args):]]
                par.append((st, a[0], I.freeze(st, a[1])))
                if given != NONE:
                    ck.ob("cursor-kept", lab, st.facts.get(("truth", given)) is False, "blobs are read in several processes although a cursor says where to go on", None, resume.path_of(st.facts))
            if what == "out" and any(e.kind == "call" and e.name == "processed_reader" for e in st.trace):
                ck.ob("as-yielded", lab, args[0][0] == "elem" and args[0][1] == S("=processed", "list"), "what the processes read is not handed on as it is", None, [show(args[0])[:160]])
        resume.low_level(ck, note, (given,))
        if given == NONE and not par:
            raise AnalysisError("blobs are never read in several processes")
        ck.ob("one-way-to-read", lab, len(readers) == 1, "blobs are read with other columns, filters or format in several processes than in one", None, [str(r)[:300] for r in readers])
        for st, reader, blobs in par:
            ck.ob("same-reader", lab, reader == S("=parallel"), "the processes do not read blobs as they are read without them", None, [show(reader)[:160]])
            ck.ob("same-blobs", lab, blobs in serial or not serial, "the processes are not given the blobs which are read without them", None, [show(blobs)[:200]] + [show(b)[:200] for b in serial[:2]])
    ck.need("same-reader", 1)
    ck.need("same-blobs", 1)
    ck.need("as-yielded", 1)
