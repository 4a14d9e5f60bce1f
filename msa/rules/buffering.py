"""C01 - accepted records stay buffered until storage took a payload made of all of them."""
from ..rulelib import *

BW = "mabel.data.writers.internals.blob_writer.BlobWriter"
FORMATS = ("jsonl", "zstd", "parquet", "text", "flat")
REC = S("record")


def fmt_of(I):
    v = I.value("mabel.data.writers.internals.blob_writer")
    return FORMATS


def is_storage_commit(e):
    return e.kind in ("call", "callx") and e.name == ".commit" and derived(e.recv, lambda t: t == S("inner_writer"))


def payload(e):
    return arg(e, 0, "byte_data")


CUTS = {"slice", "head", "limit", "tail", "take", "sample", "pop", "filter", "strip", "lstrip", "rstrip", "replace", "removesuffix", "removeprefix", "lower", "upper", "title", "translate"}


def sliced(t, st=None, upto=0):
    """a sub-term that cuts something out of the content"""
    for x in (dep_closure(st, upto, t) if st is not None else walk(t)):
        if x[0] == "call" and x[1][0] == "attr" and x[1][2] in CUTS:
            return x
        if x[0] == "item" and x[2][0] == "slice" and x[2][1:] != (NONE, NONE, NONE):
            return x
        if x[0] == "list" and any(m[0] == "slice" for m in x[3]):
            return x
    return None


class Carrier:
    """the object that holds accepted records until they are committed"""

    def __init__(self, I, st, ref):
        self.I, self.ref = I, ref
        self.attrs = []

    @staticmethod
    def holds(I, st, v, what, before=None):
        """does value v (a buffer attribute) currently hold `what`?"""
        if v is None:
            return False
        f = I.freeze(st, v)
        if v[0] == "ref":
            o = st.get(v[1])
            if o is not None and o.kind in ("list", "buf", "set"):
                return contains(f, what) or any(p[0] == "any" for p in o.d)
        return contains(f, what)


def added_to(I, st):
    """opaque containers the record was appended to: [(event index, container term)]"""
    out = []
    for i, e in enumerate(st.trace):
        if e.kind == "call" and e.name in (".append", ".add", ".write", ".extend", ".put", ".writelines", ".append_row") and e.recv is not None:
            if any(mentions(a, REC) for a in e.args):
                out.append((i, e.recv))
    return out


def committed_after(I, st, what_pred, start=0):
    """indices of successful storage commits whose payload reflects what_pred"""
    return [i for i, e in enumerate(st.trace) if i >= start and e.kind == "call" and is_storage_commit(e) and what_pred(i, e)]


def dep_closure(st, upto, term):
    """sub-terms the payload was computed from, following data written into library objects
    (e.g. table written into a BytesIO that is then read)"""
    seen = []
    todo = [term]
    done = set()
    while todo:
        t = todo.pop()
        for x in walk(t):
            if x in done:
                continue
            done.add(x)
            seen.append(x)
            for e in st.trace[:upto]:
                if e.kind == "call":
                    touched = (e.recv == x) or any(v == x for v in e.args) or any(v == x for _, v in e.kw)
                    if touched and x[0] == "call" and x[4] is not None:
                        for y in list(e.args) + [v for _, v in e.kw]:
                            if y not in done:
                                todo.append(y)
    return done


def run(ck):
    wanted = lambda k, n: k in ("call", "callx", "mut", "caught", "set")
    quick = ck.tier == "quick"
    I = ck.interp(watch=wanted, stop={"schema_loader", "_normalize_arrow_schema", "flatten"})
    bw = I.value(BW)
    ck.saw(BW + ".append", BW + ".commit", BW + ".open_buffer", BW + ".__init__")
    for fmt in FORMATS:
        kw = {"inner_writer": S("inner_writer"), "format": C(fmt), "blob_size": S("blob_size", "nat"), "schema": S("schema"), "**": S("kw", "dict")}
        for s0, ref in shapes(I, build(I, bw, (), kw), 3):
            st, names = havoc(I, s0, ref)
            st = I.clear(st)
            init = st.get(ref[1]).d
            # what holds pending content, symbolically
            pend = {}
            for n in names:
                v = init[n]
                f = I.freeze(st, v)
                pend[n] = f[2][0][1] if f[0] == "list" and f[2] else f
            # the attribute(s) that hold pending records = those the record reaches when it is appended
            outs = ck.took(I.method(st, ref, "append", (REC,), in_try=True))
            holders = find_holders(I, outs, ref, names, pend)
            ck.ob("record-buffered", f"{fmt}", bool(holders), f"format {fmt}: append() never puts the record in any buffer of the writer")
            if not holders:
                continue
            counters = check_commit(ck, I, st, ref, fmt, holders, pend)
            check_append(ck, I, st, ref, fmt, outs, holders, pend, counters)
    ck.need("record-buffered", 5)
    ck.need("append-keeps", 5)
    ck.need("commit-complete", 5)


def find_holders(I, outs, ref, names, pend):
    hold = set()
    for s, k, v in outs:
        if k != "ret":
            continue
        o = s.get(ref[1])
        for n in names:
            if n in o.d and contains(I.freeze(s, o.d[n]), REC):
                hold.add(n)
        for i, t in added_to(I, s):
            for n in names:
                if t == pend[n]:
                    hold.add(n)
    return hold


def state_of(I, s, ref, holders, pend):
    """-> (pending still held?, multiplicity of record held)"""
    o = s.get(ref[1])
    kept = all(contains(I.freeze(s, o.d[h]), pend[h]) for h in holders)
    n = 0
    for h in holders:
        f = I.freeze(s, o.d[h])
        if f[0] == "list":
            n += sum(1 for p in f[2] if contains(p, REC))
        else:
            adds = [i for i, t in added_to(I, s) if t == f]
            n += len(adds)
    return kept, n


def payload_has(s, i, e, what, holders, pend, I):
    """does the payload of commit event i contain `what` (pending symbol or the record)?"""
    p = payload(e)
    if p is None:
        return False
    deps = dep_closure(s, i, p)
    if what != REC:
        return what in deps
    if any(x == REC for x in deps):
        # by value: buffer content holding the record
        for x in walk(p):
            if x == REC:
                return True
    # by object: container read after the record was appended
    for j, t in added_to(I, s):
        if j < i and t in deps:
            # the read that feeds the payload must come after the append
            for q, r in enumerate(s.trace[:i]):
                if r.kind == "call" and r.res in deps and r.recv is not None and contains(r.recv, t) and q > j:
                    return True
            if contains(p, t):
                return True
    return any(x == REC for x in deps)


def check_commit(ck, I, st, ref, fmt, holders, pend):
    outs = ck.took(I.method(st, ref, "commit", (), in_try=True))
    counters = set()
    o0 = st.get(ref[1]).d
    for s, k, v in outs:
        commits = [(i, e) for i, e in events(s, "call") if is_storage_commit(e)]
        kept, n = state_of(I, s, ref, holders, pend)
        if k == "raise":
            if commits:
                continue
            failed = [e for _, e in events(s, "callx") if is_storage_commit(e)]
            ck.ob("failed-commit-keeps", f"{fmt}.commit", kept,
                  f"format {fmt}: when the commit fails before storage took the payload, the buffered records are dropped",
                  failed[0] if failed else (s.trace[-1] if s.trace else None), steps(s))
            continue
        if not commits:
            # nothing was written: only correct when nothing is pending
            c = [n for n in o0 if o0[n][0] == "sym" and s.fact(("truth", o0[n])) is False]
            c += [n for n in holders if s.fact(("truth", pend[n])) is False]
            if kept and not c:
                # records kept: legal only if something explains the refusal and the caller learns of it
                ck.ob("commit-flushes", f"{fmt}.commit", False,
                      f"format {fmt}: commit() can return without handing the pending records to storage", s.trace[-1] if s.trace else None, steps(s))
                continue
            ck.ob("commit-flushes", f"{fmt}.commit", bool(c),
                  f"format {fmt}: commit() can discard or skip pending records without handing them to storage",
                  s.trace[-1] if s.trace else None, steps(s))
            counters.update(c)
            continue
        i, e = commits[0]
        p = payload(e)
        ok = all(payload_has(s, i, e, pend[h], holders, pend, I) for h in holders) and sliced(p, s, i) is None
        ck.ob("commit-complete", f"{fmt}.commit", ok,
              f"format {fmt}: the payload handed to storage is not made of the whole pending buffer ({show(p)[:120] if p else 'none'})", e, steps(s))
        ck.ob("commit-once", f"{fmt}.commit", len([1 for j, x in commits if any(payload_has(s, j, x, pend[h], holders, pend, I) for h in holders)]) <= 1,
              f"format {fmt}: one commit() hands the same pending records to storage twice", e, steps(s))
        ck.ob("commit-clears", f"{fmt}.commit", not kept,
              f"format {fmt}: after a successful commit the records are still buffered and will be written again", e, steps(s))
    return counters


def check_append(ck, I, st, ref, fmt, outs, holders, pend, counters):
    o0 = st.get(ref[1]).d
    for s, k, v in outs:
        commits = [(i, e) for i, e in events(s, "call") if is_storage_commit(e)]
        kept, n = state_of(I, s, ref, holders, pend)
        pend_c = sum(1 for i, e in commits if all(payload_has(s, i, e, pend[h], holders, pend, I) for h in holders))
        rec_c = sum(1 for i, e in commits if payload_has(s, i, e, REC, holders, pend, I))
        last = s.trace[-1] if s.trace else None
        if k == "raise":
            ck.ob("append-keeps", f"{fmt}.append(raise)", kept or pend_c == 1 or any(s.fact(("truth", o0[c])) is False for c in counters if o0[c][0] == "sym"),
                  f"format {fmt}: when append() fails, records accepted earlier are lost", last, steps(s))
            continue
        empty = any(o0[c][0] == "sym" and s.fact(("truth", o0[c])) is False for c in counters)
        ck.ob("append-keeps", f"{fmt}.append", kept or pend_c == 1 or (empty and pend_c == 0),
              f"format {fmt}: append() can lose the records already buffered", last, steps(s))
        ck.ob("append-no-dup", f"{fmt}.append", not (kept and pend_c) and pend_c <= 1,
              f"format {fmt}: append() can write the buffered records twice", last, steps(s))
        ck.ob("append-exactly-once", f"{fmt}.append", n + rec_c == 1,
              f"format {fmt}: after append() the record is held {n} times and was written {rec_c} times (expected exactly one)", last, steps(s))
        for i, e in commits:
            cut = sliced(payload(e), s, i)
            ck.ob("append-payload-whole", f"{fmt}.append", cut is None,
                  f"format {fmt}: the payload is cut ({show(cut)[:80] if cut else ''})", e, steps(s))
        # what tells commit() there is something to write must be on
        if n and counters:
            o = s.get(ref[1])
            on = False
            for c in counters:
                if c in holders:
                    on = True
                    continue
                val = o.d.get(c)
                if val is not None and (is_pos(val) or (val[0] == "c" and val[2])):
                    on = True
            ck.ob("pending-flag", f"{fmt}.append", on,
                  f"format {fmt}: the record is buffered but commit()'s pending indicator ({', '.join(sorted(counters))}) may still say there is nothing to write", last, steps(s))
