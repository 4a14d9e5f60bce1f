"""C34 - the database writer hands every accepted record to its inner writer, batch by batch."""
from .wlib import *
from . import buffering as B

LAB = "DatabaseWriter"


def about(t, what):
    """is t the batch itself or its length?"""
    return t == what or (t[0] == "call" and t[1] == ("ext", "builtins.len") and t[2] == (what,)) or \
        (t[0] == "attr" and t[1] == what and t[2] in ("rowcount", "nbytes")) or (t[0] == "call" and t[1][0] == "attr" and t[1][1] == what and t[1][2] == "nbytes")


def is_empty(s, whats):
    """do the facts of the path say that one of these has nothing in it?"""
    for f, b in s.facts.items():
        for what in whats:
            if f[0] == "truth" and b is False and about(f[1], what):
                return True
            if f[0] == "cmp" and f[1] in ("lt", "le", "eq"):
                op, l, r = f[1:4]
                if op == "eq" and b and ((about(l, what) and r == C(0)) or (about(r, what) and l == C(0))):
                    return True
                if op == "lt" and ((not b and l == C(0) and about(r, what)) or (b and r == C(1) and about(l, what))):
                    return True
                if op == "le" and ((b and r == C(0) and about(l, what)) or (not b and l == C(1) and about(r, what))):
                    return True
    return False


def rows(I, st, f, args, kw, fr, node):
    """the length of a dataframe is its row count"""
    if I.callee_name(f) in ("len", "builtins.len") and len(args) == 1 and args[0][0] not in ("ref", "c", "tuple"):
        return [(st, "v", ("attr", args[0], "rowcount"))]
    return None


def run(ck):
    I = ck.interp(ret_max=200, on_call=rows, watch=lambda k, n: k in ("call", "callx", "mut", "caught", "set"), stop=HELPERS)
    ck.saw(*(DBW + m for m in (".append", ".commit", ".finalize", ".__init__")))
    kw = {"schema": S("schema"), "inner_writer": INNER, "dataset": S("dataset", "str"), "set_of_expectations": S("set_of_expectations")}
    for s0, ref in shapes(I, build(I, I.value(DBW), (), kw), 3):
        st, names = havoc(I, s0, ref)
        st = I.clear(st)
        o0 = st.get(ref[1]).d
        pend = {}
        for n in names:
            f = I.freeze(st, o0[n])
            pend[n] = f[2][0][1] if f[0] == "list" and f[2] else f
        outs = ck.took(I.method(st, ref, "append", (REC,), in_try=True))
        holders = B.find_holders(I, outs, ref, names, pend)
        ck.ob("record-buffered", LAB, bool(holders), "append() never puts the record in the batch of the writer")
        if not holders:
            continue
        whats = [pend[h] for h in holders] + [o0[n] for n in names if o0[n][0] == "sym"]

        def handed(s):
            """(index, event) of the successful hand-overs of the pending batch, and of the record"""
            cs = [(i, e) for i, e in events(s, "call") if B.is_storage_commit(e)]
            return [(i, e) for i, e in cs if all(payload_has(s, i, e, pend[h]) for h in holders)], [(i, e) for i, e in cs if payload_has(s, i, e, REC)], cs

        def payload_has(s, i, e, what):
            p = e.args[0] if e.args else (e.kw[0][1] if e.kw else None)
            if p is None:
                return False
            if contains(p, what):
                return True
            return what == REC and any(j < i and contains(p, t) for j, t in B.added_to(I, s))

        def cut(s, e):
            p = e.args[0] if e.args else (e.kw[0][1] if e.kw else None)
            return None if p is None else B.sliced(p)

        for m, a in (("append", (REC,)), ("commit", ()), ("finalize", ())):
            lab = f"{LAB}.{m}"
            for s, k, v in (outs if m == "append" else ck.took(I.method(st, ref, m, a, in_try=True))):
                last = s.trace[-1] if s.trace else None
                old, new, cs = handed(s)
                kept, n = B.state_of(I, s, ref, holders, pend)
                empty = is_empty(s, whats)
                if k == "raise":
                    ck.ob("failure-keeps-batch", lab, kept or len(old) == 1 or empty, f"{lab}: when it fails, the records of the pending batch are dropped without having been handed to the inner writer", last, steps(s))
                    continue
                ck.ob("batch-not-lost", lab, kept or len(old) == 1 or empty, f"{lab} can drop the pending records without handing them to the inner writer", last, steps(s))
                ck.ob("batch-not-twice", lab, len(old) <= 1 and not (kept and old), f"{lab} can hand the pending records to the inner writer more than once", last, steps(s))
                for _, e in cs:
                    ck.ob("batch-whole", lab, cut(s, e) is None, f"{lab} hands only part of the batch to the inner writer", e, steps(s))
                if m == "append":
                    ck.ob("record-once", lab, n + len(new) == 1, f"after append() the record is in the batch {n} times and was handed to the inner writer {len(new)} times (expected exactly one)", last, steps(s))
                    continue
                ck.ob("batch-flushed", lab, len(old) == 1 or empty, f"{lab} can return without having handed the pending records to the inner writer", last, steps(s))
                if m == "finalize":
                    fin = [i for i, e in events(s, "call") if e.name == ".finalize" and derived(e.recv, lambda t: t == INNER)]
                    ck.ob("finalized-last", lab, len(fin) == 1 and all(i < fin[0] for i, _ in cs), "finalize() does not finalize the inner writer once, after the last records were handed to it", last, steps(s))
    for r in ("record-buffered", "batch-not-lost", "record-once", "failure-keeps-batch", "batch-flushed", "batch-whole", "finalized-last"):
        ck.need(r)
    finalizer(ck)


BASE = "mabel.adapters.database.base_database_writer.BaseDatabaseWriter"


def finalizer(ck):
    """the finalizer given to a database writer is run once, however often finalize() is called"""
    I = ck.interp(ret_max=100, watch=lambda k, n: k in ("call", "callx"), raisers=lambda n, f: f == S("finalizer"))
    ck.saw(BASE + ".finalize")
    for s0, ref in shapes(I, build(I, I.value(BASE), (), {"finalizer": S("finalizer"), "engine": S("engine"), "dataset": S("dataset", "str")}), 3):
        for s1, k1, _ in ck.took(I.method(I.clear(s0), ref, "finalize", ())):
            n1 = calls_of(s1)
            if k1 == "raise":
                for s2, k2, _ in ck.took(I.method(s1, ref, "finalize", ())):
                    if k2 == "ret" and s1.fact(("truth", S("finalizer"))) is not False:
                        ck.ob("finalizer-retried", "BaseDatabaseWriter.finalize", len(calls_of(s2)) > len(n1), "a finalizer that failed is treated as done: calling finalize() again does not run it", None, steps(s2))
                continue
            given = s1.fact(("truth", S("finalizer"))) is not False and s1.fact(("cmp", "is", S("finalizer"), NONE)) is not True
            ck.ob("finalizer-run", "BaseDatabaseWriter.finalize", len(n1) == (1 if given else 0), "the finalizer given to the writer is not run once by finalize()", None, steps(s1))
            for s2, k2, _ in ck.took(I.method(s1, ref, "finalize", ())):
                ck.ob("finalizer-once", "BaseDatabaseWriter.finalize", len(calls_of(s2)) == len(n1), "calling finalize() again runs the finalizer again", None, steps(s2))
    ck.need("finalizer-run")
    ck.need("finalizer-once")


def calls_of(s):
    return [e for e in s.trace if e.kind == "call" and S("finalizer") in e_f(e)]


def e_f(e):
    return (e.recv, e.res[1] if e.res is not None and e.res[0] == "call" else None)
