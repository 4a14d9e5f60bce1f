"""constructing the writers for the rules of the writer group"""
from ..rulelib import *

W = "mabel.data.writers."
BATCH = W + "batch_writer.BatchWriter"
STREAM = W + "stream_writer.StreamWriter"
SIMPLE = W + "writer.Writer"
BLOB = W + "internals.blob_writer.BlobWriter"
POOL = W + "internals.writer_pool.WriterPool"
DBW = W + "database_writer.DatabaseWriter"
REC = S("record")
INNER = S("inner_writer")

# helpers whose inner workings are not the subject of the writer rules
HELPERS = {"schema_loader", "_normalize_arrow_schema", "flatten", "build_path", "parse_iso", "_get_writer_date", "get_parts", "date_format", "sanitize"}


def is_store(e):
    return e.kind in ("call", "callx") and e.name == ".commit" and derived(e.recv, lambda t: t == INNER)


def marker_name(e):
    """the explicitly requested blob name of a storage commit"""
    return arg(e, 1, "override_blob_name")


def is_marker(e):
    n = marker_name(e)
    return is_store(e) and n is not None and derived(n, lambda t: t[0] == "c" and isinstance(t[2], str) and "frame.complete" in t[2])


def is_data(e):
    return is_store(e) and not is_marker(e)


def make(I, qual, fmt="jsonl", schema=None, **kw):
    args = {"dataset": S("dataset", "str"), "format": C(fmt), "inner_writer": INNER, "schema": schema if schema is not None else S("schema")}
    args.update(kw)
    return build(I, I.value(qual), (), args)


def havoc_all(I, st, ref, only=None):
    """havoc the writer and the blob writer it owns"""
    st, n = havoc(I, st, ref, only=only)
    for k, v in list(st.get(ref[1]).d.items()):
        if v[0] == "ref":
            o = st.get(v[1])
            if o is not None and o.kind == "inst" and o.cls == BLOB:
                st, m = havoc(I, st, v, prefix=f"self.{k}.")
    return st
