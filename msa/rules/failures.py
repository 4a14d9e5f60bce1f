"""C03 - a storage failure always reaches the caller."""
from .wlib import *
from . import adapters

FORMATS = ("jsonl", "zstd", "parquet", "text", "flat")


def commitish(n, f):
    return n in (".commit", ".finalize")


POOLCALLS = (".commit", ".remove_writer", ".get_writer", ".close")


def pool_fail(n, f):
    return n in POOLCALLS or (n == ".append" and derived(f, lambda t: t[0] == "call" and t[1][0] == "cls" and (BLOB in t[1] or POOL in t[1])))


def judge(ck, I, label, outs):
    for s, k, v in ck.took(outs):
        for i, e in enumerate(s.trace):
            if e.kind != "callx" or e.name not in POOLCALLS + (".finalize", ".append"):
                continue
            # retried with the same content?
            again = any(x.kind == "call" and x.name == e.name and x.recv == e.recv and x.args == e.args and x.kw == e.kw for x in s.trace[i + 1:])
            ck.ob("failure-reaches-caller", label, k == "raise" or again,
                  f"{label} returns normally although storage failed", e, steps(s))
        if not any(e.kind == "callx" for e in s.trace) and k == "ret":
            ck.ob("success-returns", label, True, "")


def run(ck):
    I = ck.interp(ret_max=200, watch=lambda k, n: k in ("call", "callx", "caught"), stop=HELPERS | {"pool_attendant"}, raisers=commitish)
    bw = I.value(BLOB)
    for fmt in FORMATS:
        for s0, ref in shapes(I, build(I, bw, (), {"inner_writer": INNER, "format": C(fmt), "schema": S("schema")}), 2):
            st = I.clear(havoc(I, s0, ref)[0])
            judge(ck, I, f"BlobWriter.append[{fmt}]", I.method(st, ref, "append", (REC,)))
            judge(ck, I, f"BlobWriter.commit[{fmt}]", I.method(st, ref, "commit", ()))
    for qual, short in ((SIMPLE, "Writer"), (BATCH, "BatchWriter")):
        kw = {"always_complete": S("always_complete")} if qual == BATCH else {}
        for s0, ref in shapes(I, make(I, qual, "jsonl", **kw), 2):
            st = I.clear(havoc_all(I, s0, ref))
            judge(ck, I, f"{short}.append", I.method(st, ref, "append", (REC,)))
            judge(ck, I, f"{short}.finalize", I.method(st, ref, "finalize", (), {"has_failure": S("has_failure")}))
            judge(ck, I, f"{short}.finalize", I.method(st, ref, "finalize", ()))
        ck.saw(qual + ".append", qual + ".finalize")
    # the stream writer and its pool, in terms of blob writers that may fail
    I = ck.interp(watch=lambda k, n: k in ("call", "callx", "caught"), stop=HELPERS | {"pool_attendant", BLOB, POOL}, raisers=pool_fail)
    for s0, ref in shapes(I, make(I, STREAM, "jsonl"), 1):
        st = I.clear(havoc_all(I, s0, ref))
        judge(ck, I, "StreamWriter.append", I.method(st, ref, "append", (REC,)))
        judge(ck, I, "StreamWriter.finalize", I.method(st, ref, "finalize", ()))
    ck.saw(STREAM + ".append", STREAM + ".finalize")
    # the pool
    I = ck.interp(watch=lambda k, n: k in ("call", "callx", "caught"), stop=HELPERS | {BLOB}, raisers=pool_fail)
    for s0, ref in shapes(I, build(I, I.value(POOL), (), {"pool_size": S("pool_size", "nat"), "inner_writer": INNER, "format": C("jsonl")}), 2):
        st = I.clear(havoc(I, s0, ref)[0])
        for m, a in (("remove_writer", (S("identity"),)), ("close", ()), ("get_writer", (S("identity"),))):
            judge(ck, I, f"WriterPool.{m}", I.method(st, ref, m, a))
        ck.saw(POOL + ".remove_writer", POOL + ".close")
    # the database writer
    I = ck.interp(watch=lambda k, n: k in ("call", "callx", "caught"), stop=HELPERS, raisers=commitish)
    for s0, ref in shapes(I, build(I, I.value(DBW), (), {"schema": S("schema"), "inner_writer": INNER, "dataset": S("dataset", "str")}), 2):
        st = I.clear(havoc(I, s0, ref)[0])
        for m, a in (("append", (REC,)), ("commit", ()), ("finalize", ())):
            judge(ck, I, f"DatabaseWriter.{m}", I.method(st, ref, m, a))
        ck.saw(DBW + ".append", DBW + ".commit", DBW + ".finalize")
    # the storage adapters themselves
    I = ck.interp(watch=lambda k, n: k in ("call", "callx", "caught", "set"), stop={"get_parts"})
    for q in adapters.concrete(I, ck.prog):
        ck.saw(q + ".commit")
        for s0, ref in adapters.instances(I, ck.prog, q, "zstd", 2):
            for given in (NONE, adapters.NAME):
                for s, k, v in ck.took(I.method(I.clear(s0), ref, "commit", (adapters.DATA, given), in_try=True)):
                    failed = [e for e in s.trace if e.kind == "callx" and (e.name == "builtins.open" or any(contains(a, adapters.DATA) for a in adapters.every_arg(e)))]
                    stored = [e for _, e in adapters.stores(s)]
                    if failed:
                        ck.ob("failure-reaches-caller", q.split(".")[-1] + ".commit", k == "raise" or any(e.name == failed[-1].name for e in stored),
                              f"{q.split('.')[-1]}.commit returns normally although the storage call failed", failed[-1], steps(s))
    ck.saw(BLOB + ".append", BLOB + ".commit")
    ck.need("failure-reaches-caller", 15)
    for lab in ("BatchWriter.finalize", "StreamWriter.finalize"):
        pass
