"""C02 - the frame.complete marker tells the truth about the frame."""
from .wlib import *
from .buffering import dep_closure, added_to


def dir_of(t):
    """F when t is recognisably the folder part of F"""
    if t is None:
        return None
    if t[0] == "item" and is_const(t[2]) and cval(t[2]) == 0 and t[1][0] == "call":
        f = t[1]
        if f[1] == ("ext", "os.path.split"):
            return f[2][0]
        if f[1][0] == "attr" and f[1][2] in ("rsplit", "rpartition") and f[2] and f[2][0] == C("/"):
            if f[1][2] == "rpartition" or (len(f[2]) > 1 and f[2][1] == C(1)):
                return f[1][1]
    if t[0] == "call" and t[1] == ("ext", "os.path.dirname"):
        return t[2][0]
    return None


def is_commit_of(st, i, e, what):
    """successful storage commit whose payload includes `what` (by value, or through the container it was put in)"""
    if e.kind != "call" or not is_data(e):
        return False
    deps = dep_closure(st, i, arg(e, 0, "byte_data"))
    return what in deps or any(j < i and t in deps for j, t in added_to(None, st))


def finals(I, st, ref, failure):
    kw = {} if failure is None else {"has_failure": failure}
    return I.method(st, ref, "finalize", (), kw)


def run(ck):
    I = ck.interp(ret_max=300, max_states=300, watch=lambda k, n: k in ("call", "callx"), stop=HELPERS, raisers=lambda n, f: n in (".commit", ".validate"))
    ck.saw(BATCH + ".__init__", BATCH + ".finalize", SIMPLE + ".append", SIMPLE + ".finalize", BLOB + ".commit", BLOB + ".append")
    formats = ("jsonl", "parquet") if ck.tier == "quick" else ("jsonl", "zstd", "parquet", "text", "flat")
    for fmt in formats:
        for complete in (TRUE, FALSE):
            for s0, ref in shapes(I, make(I, BATCH, fmt, always_complete=complete), 2):
                start(ck, I, s0, ref, fmt, complete)
    for r in ("marker-after-data", "marker-not-after-failure", "marker-written", "marker-in-frame", "marker-not-empty"):
        ck.need(r, 2)


def markers(s, frm):
    return [(i, e) for i, e in enumerate(s.trace) if i >= frm and is_marker(e)]


def start(ck, I, s0, ref, fmt, complete):
    name = "BatchWriter.finalize"
    # 1. straight after construction, nothing appended
    st = I.clear(s0)
    for s, k, v in ck.took(finals(I, st, ref, None)):
        m = markers(s, 0)
        if k == "ret" and complete == TRUE:
            ck.ob("marker-written", f"{name}(empty, always_complete)", any(e.kind == "call" for i, e in m),
                  "an empty frame with always_complete set can finish without a frame.complete marker", s.trace[-1] if s.trace else None, steps(s))
        if complete == FALSE:
            ck.ob("marker-not-empty", f"{name}(empty)", not m,
                  "a frame no record was ever accepted into is marked complete although always_complete is not set", m[0][1] if m else None, steps(s))
    # 2. one accepted record on top of a fresh writer: normal end must leave a marker, after the data
    # 3. the same on top of an arbitrary history
    for label, base in (("fresh", st), ("any history", I.clear(havoc_all(I, s0, ref)))):
        for s1, k1, v1 in compact(I, I.method(base, ref, "append", (REC,)), ref):
            if k1 != "ret":
                continue
            upto = len(s1.trace)
            for s2, k2, v2 in ck.took(finals(I, s1, ref, None)):
                m = markers(s2, upto)
                for i, e in m:
                    done = any(is_commit_of(s2, j, x, REC) for j, x in enumerate(s2.trace[:i]))
                    ck.ob("marker-after-data", f"{name}", done,
                          f"{fmt}: frame.complete is written although an accepted record has not been stored yet", e, steps(s2))
                    place(ck, s2, e, name)
                if k2 == "ret" and label == "fresh":
                    ck.ob("marker-written", f"{name}(records)", any(e.kind == "call" for i, e in m),
                          f"{fmt}: a frame with records finishes normally but is not marked complete, readers will never see it", s2.trace[-1] if s2.trace else None, steps(s2))
            # a reported failure: never marked, neither now nor by a later finalize
            both = ck.took(finals(I, s1, ref, TRUE))
            for s2, k2, v2 in both:
                m = markers(s2, upto)
                ck.ob("marker-not-after-failure", f"{name}(has_failure)", not m,
                      "a frame whose producer reported a failure is marked complete", m[0][1] if m else None, steps(s2))
            for s2, k2, v2 in compact(I, both, ref):
                n2 = len(s2.trace)
                for s3, k3, v3 in ck.took(finals(I, s2, ref, None) + finals(I, s2, ref, FALSE)):
                    m = markers(s3, n2)
                    ck.ob("marker-not-after-failure", f"{name} again", not m,
                          "a failure reported to an earlier finalize() is forgotten: a later finalize() marks the frame complete", m[0][1] if m else None, steps(s3))
            # failure reported first, more records appended, finalized again
    hst = I.clear(havoc_all(I, s0, ref))
    both = ck.took(finals(I, hst, ref, TRUE))
    for s1, k1, v1 in both:
        ck.ob("marker-not-after-failure", f"{name}(has_failure)", not markers(s1, 0),
              "a frame whose producer reported a failure is marked complete", s1.trace[-1] if s1.trace else None, steps(s1))
    for s1, k1, v1 in compact(I, both, ref):
        s1 = I.clear(s1)
        for s2, k2, v2 in compact(I, I.method(s1, ref, "append", (REC,)), ref):
            n2 = len(s2.trace)
            for s3, k3, v3 in ck.took(finals(I, s2, ref, None)):
                m = markers(s3, n2)
                ck.ob("marker-not-after-failure", f"{name} after append", not m,
                      "a failure reported to an earlier finalize() is forgotten after another append: the frame is marked complete", m[0][1] if m else None, steps(s3))
    # an unknown failure flag: facts at the marker must say there was none
    flag = S("has_failure")
    for s1, k1, v1 in ck.took(finals(I, hst, ref, flag)):
        for i, e in markers(s1, 0):
            facts = dict(e.facts) if not hasattr(e.facts, "get") else e.facts
            ck.ob("marker-not-after-failure", f"{name}(flag unknown)", facts.get(("truth", flag)) is False,
                  "frame.complete can be written without has_failure having been found false", e, steps(s1))


def place(ck, s, e, name):
    n = marker_name(e)
    fn = ("attr", e.recv, "filename")
    ok = False
    if n[0] == "cat":
        parts = n[1] if isinstance(n[1], tuple) and n[1] and isinstance(n[1][0], tuple) else n[1:]
        if parts[-1] == C("/frame.complete"):
            head = parts[:-1]
            ok = len(head) == 1 and dir_of(head[0]) == fn
            if len(head) == 1 and dir_of(head[0]) is None:
                ok = contains(head[0], fn)
    elif n[0] == "call" and n[1] == ("ext", "os.path.join"):
        ok = len(n[2]) == 2 and n[2][1] == C("frame.complete") and (dir_of(n[2][0]) == fn or (dir_of(n[2][0]) is None and contains(n[2][0], fn)))
    else:
        ok = contains(n, fn)
    ck.ob("marker-in-frame", name, ok, f"frame.complete is not written in the folder of the frame's own blobs (name: {show(n)[:100]})", e, steps(s))
