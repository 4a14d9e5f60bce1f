MEM='''
from mabel.data.writers.internals.base_inner_writer import BaseInnerWriter
STORE = []
class Mem(BaseInnerWriter):
    fail = False
    def commit(self, byte_data, override_blob_name=None):
        name = override_blob_name or self._build_path()
        if Mem.fail: raise OSError("storage is down")
        STORE.append((name, bytes(byte_data)))
        return name
'''
TREE='''
import os, tempfile, shutil, json, datetime
D = tempfile.mkdtemp()
os.chdir(D)
def put(name, *records):
    os.makedirs(os.path.dirname(name), exist_ok=True)
    with open(name, "wb") as f:
        for r in records: f.write(json.dumps(r).encode() + b"\\n")
'''
SEEDS=[
 dict(id="b04-placeholder-order", property="C04",
  edits=[("data/writers/stream_writer.py","            for placeholder in placeholders:\n                value = record.get(placeholder)","            for placeholder in sorted(placeholders):\n                value = record.get(placeholder)")],
  needs="a dataset template with two or more record placeholders whose set order differs from their sorted order",
  breaks="values are collected in sorted order but given to the placeholders in set order, so a record lands in the partition of another combination of values",
  demo=MEM+'''
import time
from mabel.data.writers.stream_writer import StreamWriter
names = ["alpha", "bravo", "charlie", "delta", "echo", "foxtrot"]
tmpl = "b/set/" + "/".join("%s={%s}" % (n, n) for n in names)
w = StreamWriter(dataset=tmpl, partitions=None, format="jsonl", inner_writer=Mem, schema=False)
w.append({n: "v" + n for n in names})
w.finalize()
blobs = [n for n, d in STORE if d]
print(blobs)
assert len(blobs) == 1
for n in names:
    assert f"{n}=v{n}/" in blobs[0] + "/", blobs
'''),
 dict(id="b05-null-partition-dropped", property="C04",
  edits=[("data/writers/stream_writer.py","            value_combinations = {i for i in itertools.product(*values)}","            value_combinations = {i for i in itertools.product(*values) if any(v is not None for v in i)}")],
  needs="a record with no value for any of the record placeholders of the template",
  breaks="the record is written to no partition at all and append returns normally",
  demo=MEM+'''
from mabel.data.writers.stream_writer import StreamWriter
w = StreamWriter(dataset="b/set/user={user}", partitions=None, format="jsonl", inner_writer=Mem, schema=False)
w.append({"user": "a", "n": 1}); w.append({"n": 2})
w.finalize()
assert sum(d.count(b"\\n") for _, d in STORE) == 2, STORE
'''),
 dict(id="b08-remove-in-place", property="C07",
  edits=[("data/writers/internals/writer_pool.py","                self.writers = [w for w in self.writers if w.get(\"identity\") != identity]","                self.writers.remove(writer)")],
  needs="finalizing or closing a pool with two or more pooled writers",
  breaks="finalize and close step through the pool's list while remove_writer shortens that very list, so every second writer is skipped and never committed",
  demo=MEM+'''
import gc
from mabel.data.writers.stream_writer import StreamWriter
w = StreamWriter(dataset="b/set/user={user}", partitions=None, format="jsonl", inner_writer=Mem, schema=False)
for i in range(6): w.append({"user": "u%d" % i})
w.finalize()
done = len(STORE)
assert done == 6, done
'''),
 dict(id="b09-extension-chain", property="C10",
  edits=[("data/writers/internals/base_inner_writer.py","        if kwargs.get(\"format\", \"\") in [\"zstd\", \"parquet\"]:\n            self.extension = self.extension + \".\" + kwargs[\"format\"]","        if kwargs.get(\"format\", \"\") in [\"zstd\", \"parquet\"] and \"extension\" not in kwargs:\n            self.extension = self.extension + \".\" + kwargs[\"format\"]")],
  needs="a writer given an extension of its own with a compressed format",
  breaks="a zstd or parquet blob keeps the plain extension, so readers use a decoder which does not undo the compression",
  demo=MEM+'''
from mabel.data.writers.internals.blob_writer import BlobWriter
w = BlobWriter(inner_writer=Mem, dataset="b/set/x", format="zstd", schema=False, extension=".jsonl")
w.append({"n": 1}); w.commit()
print(STORE[0][0])
assert STORE[0][0].endswith(".zstd")
'''),
 dict(id="b12-backout-after-frames", property="C13",
  edits=[("data/readers/internals/base_inner_reader.py","                cycle_blobs = [blob for blob in cycle_blobs if \"BACKOUT\" not in blob]\n","                if not self.partition_filter:\n                    cycle_blobs = [blob for blob in cycle_blobs if \"BACKOUT\" not in blob]\n")],
  needs="a partition filter over a partition with dead letters below it",
  breaks="dead letters in the filtered partition are listed as data",
  demo=TREE+'''
try:
    from mabel.adapters.disk import DiskReader
    put("set/by_user/user=a/x.jsonl", {"n": 1}); put("set/by_user/user=a/BACKOUT/y.jsonl", {"n": 2})
    r = DiskReader(dataset="set", partitions=None, partition_filter=("user", "=", "a"))
    got = r.get_list_of_blobs()
    print(got)
    assert got == ["set/by_user/user=a/x.jsonl"], got
finally:
    os.chdir("/"); shutil.rmtree(D)
'''),
 dict(id="b13-visited-month", property="C18",
  edits=[("data/readers/internals/base_inner_reader.py","                visited[cycle_path] = True\n","                visited[cycle_path] = True\n                if cycle_path.name in [path.name for path in list(visited)[:-1]]:\n                    continue\n")],
  needs="a date range long enough for a folder name to come up again in another month",
  breaks="days whose folder has the same name as a day already visited (day 1 of the next month) are never listed",
  demo=TREE+'''
try:
    from mabel.adapters.disk import DiskReader
    for m in (1, 2):
        put("set/2021/%02d/05/a.jsonl" % m, {"n": m})
    r = DiskReader(dataset="set", partitions=["{yyyy}/{mm}/{dd}"], start_date=datetime.date(2021,1,1), end_date=datetime.date(2021,2,28))
    got = r.get_list_of_blobs()
    print(got)
    assert len(got) == 2, got
finally:
    os.chdir("/"); shutil.rmtree(D)
'''),
 dict(id="b14-prefix-normalised", property="C14",
  edits=[("data/readers/reader.py","        if not any([True for prefix in valid_dataset_prefixes if str(dataset).startswith(prefix)]):","        if not any([True for prefix in valid_dataset_prefixes if str(dataset).lstrip(\"./\").startswith(prefix)]):")],
  needs="a dataset with leading dots or slashes",
  breaks="the dataset is checked in another form than it is opened in, so ../allowed is opened",
  demo='''
from mabel.data.readers.reader import Reader
opened = []
class Inner:
    def __init__(self, **kw): opened.append(kw["dataset"]); raise KeyError("opened")
try:
    Reader(dataset="../allowed/secret", valid_dataset_prefixes=["allowed"], inner_reader=Inner)
except Exception as e: print(type(e).__name__)
assert not opened, opened
'''),
 dict(id="b15-missing-none", property="C15",
  edits=[("utils/parameter_validator.py","                param for param in required_parameters if param not in entered_parameters","                param for param in required_parameters - valid_parameters")],
  needs="a call without a required parameter",
  breaks="required parameters are never missed (every required one is a valid one)",
  demo='''
from mabel.data.readers.reader import Reader
from mabel.adapters.null import NullReader
from mabel.errors import InvalidReaderConfigError
try:
    Reader(inner_reader=NullReader); got = None
except BaseException as e: got = type(e)
print(got)
assert got is InvalidReaderConfigError
'''),
 dict(id="b17-narrow-isolation", property="C17",
  edits=[("data/readers/internals/parallel_reader.py","        except Exception as e:\n            import traceback","        except (ValueError, OSError, ImportError) as e:\n            import traceback")],
  needs="a blob whose decoding fails with another kind of exception (a zip entry or lzma error, a missing key)",
  breaks="the failure leaves the blob's reader and the other blobs are not read",
  demo=TREE+'''
try:
    from mabel import Reader
    from mabel.adapters.disk import DiskReader
    put("set/a.lzma", {"n": 1}); put("set/b.jsonl", {"n": 2})
    got = [dict(r) if isinstance(r, dict) else r.as_dict() for r in Reader(inner_reader=DiskReader, dataset="set", partitions=None)]
    print(got)
    assert got == [{"n": 2}], got
finally:
    os.chdir("/"); shutil.rmtree(D)
'''),
 dict(id="b19-disk-spill-loses-line", property="C20",
  edits=[("data/internals/storage_classes/storage_class_disk.py","                if len(buffer) > (BUFFER_SIZE):\n                    f.write(buffer)\n                    buffer = bytearray()\n            if len(buffer) > 0:\n                f.write(buffer)","                if len(buffer) > (BUFFER_SIZE):\n                    f.write(memoryview(buffer)[:BUFFER_SIZE])\n                    buffer = bytearray()\n            if len(buffer) > 0:\n                f.write(buffer)")],
  needs="more than 16Mb of records",
  breaks="what is buffered beyond the buffer size when it spills is cut off",
  demo='''
from mabel.data.internals.storage_classes import StorageClassDisk, storage_class_disk
storage_class_disk.BUFFER_SIZE = 100
s = StorageClassDisk([{"n": i, "p": "x" * 30} for i in range(50)])
try:
    got = [dict(r)["n"] for r in s]
except Exception as e:
    got = repr(e)
assert got == list(range(50)), got
'''),
 dict(id="b20-batch-cache", property="C20",
  edits=[("data/internals/storage_classes/storage_class_compressed_memory.py","            batch_number = -1\n            batch = []\n            for i in ordered_location:\n                requested_batch = i // BATCH_SIZE\n                if requested_batch != batch_number:\n","            batch_number = -1\n            batch = []\n            for i in ordered_location:\n                requested_batch = i // BATCH_SIZE\n                if batch_number < 0:\n                    batch_number = requested_batch\n")],
  needs="asking for items in two different batches at once",
  breaks="items of later batches are taken from the first batch asked for",
  demo='''
from mabel.data.internals.dictset import DictSet, STORAGE_CLASS
d = DictSet([{"n": i} for i in range(900)], storage_class=STORAGE_CLASS.COMPRESSED_MEMORY)
got = [dict(r)["n"] for r in d.get_items(3, 400, 801)]
assert got == [3, 400, 801], got
'''),
 dict(id="b24-sort-cut-unsorted", property="C25",
  edits=[("data/internals/dictset.py","                if len(cache) > double_cache:\n                    cache.sort(key=safety_key(column), reverse=descending)\n                    del cache[take:]","                if len(cache) > double_cache:\n                    cache.sort(key=safety_key(column))\n                    del cache[take:]")],
  needs="descending order over more than twice the records taken",
  breaks="the collection is cut sorted ascending, so the largest are dropped",
  demo='''
from mabel import DictSet
got = [r["a"] for r in DictSet(({"a": i} for i in range(50))).sort_and_take("a", 3, True)]
assert got == [49, 48, 47], got
'''),
 dict(id="b25-nested-unsanitized", property="C26",
  edits=[("data/internals/display.py","            return sanitize(\"{ \" + \", \".join([f'\"{k}\": {v}' for k, v in htmlstring.items()]) + \" }\")","            return \"{ \" + \", \".join([f'&quot;{k}&quot;: {sanitize(v)}' for k, v in htmlstring.items()]) + \" }\"")],
  needs="a nested dictionary with markup in a key",
  breaks="the keys of nested dictionaries are written as they are",
  demo='''
from mabel import DictSet
h = DictSet([{"a": {"<script>": 1}}]).to_html_table()
assert "<script>" not in h, h
'''),
 dict(id="b27-not-over-and", property="C29",
  edits=[("data/internals/expression.py","            child_condition = self.parse_condition()\n            not_condition.left = child_condition","            child_condition = self.parse_and_term()\n            not_condition.left = child_condition")],
  needs="NOT before a condition followed by AND",
  breaks="NOT a AND b is read as NOT (a AND b)",
  demo='''
from mabel.data.internals.expression import Expression
assert not Expression("NOT a == 1 AND b == 2").evaluate({"a": 5, "b": 9})
'''),
 dict(id="b28-backtick-root", property="C28",
  edits=[("data/internals/expression.py","        try:\n            num = int(value)\n            return num\n        except ValueError:\n            pass\n\n        try:\n            num = float(value)\n            return num\n        except ValueError:\n            pass\n","        try:\n            num = float(value)\n            return int(num) if num.is_integer() else num\n        except (ValueError, OverflowError):\n            pass\n")],
  needs="a text spelling an integer above 2**53",
  breaks="large integers lose their last digits on the way through float",
  demo='''
from mabel.data.internals.expression import Expression
assert not Expression("a == 9007199254740993").evaluate({"a": "9007199254740992"})
assert Expression("a == 9007199254740993").evaluate({"a": "9007199254740993"})
'''),
 dict(id="b29-safe-name-any", property="C30",
  edits=[("data/readers/internals/sql_reader.py","        if isinstance(self.dataset, str):\n            self.validate_dataset(self.dataset)","        if isinstance(self.dataset, str) and not self.distinct:\n            self.validate_dataset(self.dataset)")],
  needs="a DISTINCT statement over an unsafe name",
  breaks="the name of a SELECT DISTINCT statement is not checked",
  demo='''
from mabel.data.readers.internals.sql_reader import SqlParser
try:
    SqlParser("SELECT DISTINCT a FROM b//c"); ok = False
except Exception: ok = True
assert ok
'''),
 dict(id="b30-subquery-inner-parens", property="C31",
  edits=[("data/readers/internals/sql_reader.py","                            open_parentheses += 1\n                            collector.append(labeler.peek())","                            open_parentheses += 1\n                            if open_parentheses > 2:\n                                collector.append(labeler.peek())")],
  needs="a subquery with parentheses of its own",
  breaks="the first nested opening parenthesis of a subquery is lost",
  demo='''
from mabel.data.readers.internals.sql_reader import SqlParser
p = SqlParser("SELECT * FROM (SELECT COUNT(*) FROM a)")
assert "".join(p.dataset).replace(" ", "") == "SELECTCOUNT(*)FROMa", p.dataset
'''),
 dict(id="b34-batch-reset-first", property="C34",
  edits=[("data/writers/database_writer.py","                self.inner_writer.commit(self.wal)\n","                pending, self.wal = self.wal, orso.DataFrame(rows=[], schema=self.schema)\n                self.inner_writer.commit(pending)\n")],
  needs="an inner writer whose commit fails once",
  breaks="a failing commit loses the pending batch",
  demo='''
from mabel.data.writers.database_writer import DatabaseWriter
from orso.schema import RelationSchema, FlatColumn
from orso.types import OrsoTypes
got, state = [], {"fail": True}
class Inner:
    def __init__(self, **kw): pass
    def commit(self, batch):
        if state["fail"]:
            state["fail"] = False
            raise OSError("down")
        got.extend(list(batch))
    def finalize(self): pass
w = DatabaseWriter(dataset="d", schema=RelationSchema(name="s", columns=[FlatColumn(name="n", type=OrsoTypes.INTEGER)]), inner_writer=Inner)
w.append({"n": 1}); w.append({"n": 2})
try: w.commit()
except OSError: pass
w.finalize()
assert len(got) == 2, got
'''),
 dict(id="b35-path-absolute", property="C36",
  edits=[("adapters/disk/disk_reader.py","            blobs = path.rglob(\"*\")","            blobs = path.rglob(\"*.*\")")],
  needs="an object without an extension",
  breaks="files without a dot in their name are not listed",
  demo=TREE+'''
try:
    import pathlib
    from mabel.adapters.disk import DiskReader
    put("set/a.jsonl", {"n": 1}); put("set/b", {"n": 2})
    got = DiskReader(dataset="set", partitions=None).get_blobs_at_path(pathlib.Path("set"))
    assert sorted(got) == ["set/a.jsonl", "set/b"], got
finally:
    os.chdir("/"); shutil.rmtree(D)
'''),
 dict(id="b06-expectations-after", property="C05",
  edits=[("data/writers/writer.py","            de.evaluate_record(self.expectations, record)\n\n        if self.schema:\n            self.schema.validate(record)\n\n        self.blob_writer.append(record)\n        self.records += 1","            self.blob_writer.append(record)\n            de.evaluate_record(self.expectations, record)\n\n        if self.schema:\n            self.schema.validate(record)\n\n        if not self.expectations:\n            self.blob_writer.append(record)\n        self.records += 1")],
  needs="a writer with expectations and a record which fails them",
  breaks="the failing record is already buffered when the failure is raised, so it is committed",
  demo=MEM+"""
import sys, types
fake = types.ModuleType("data_expectations")
class Expectations:
    def __init__(self, set_of_expectations=None): pass
def evaluate_record(e, r):
    if r["n"] < 0: raise ValueError("expectation not met")
fake.Expectations, fake.evaluate_record = Expectations, evaluate_record
sys.modules["data_expectations"] = fake
from mabel.data.writers.writer import Writer
w = Writer(dataset="b/set", partitions=None, format="jsonl", inner_writer=Mem, schema=False, set_of_expectations=[1])
w.append({"n": 1})
try:
    w.append({"n": -1}); ok = False
except ValueError:
    ok = True
w.finalize()
assert ok and w.records == 1 and sum(d.count(b"\\n") for _, d in STORE) == 1, STORE
"""),
 dict(id="b07-stale-list-outside-lock", property="C06",
  edits=[("data/writers/stream_writer.py","        while self.run_pool_attendant:\n            with lock:\n                # search for pool occupants who haven't had a write recently\n                for blob_writer_identity in self.writer_pool.get_stale_writers(\n                    self.idle_timeout_seconds\n                ):","        while self.run_pool_attendant:\n            # search for pool occupants who haven't had a write recently\n            stale_writers = self.writer_pool.get_stale_writers(self.idle_timeout_seconds)\n            with lock:\n                for blob_writer_identity in stale_writers:")],
  needs="the attendant wakes while an append is between looking the writer up and writing to it",
  breaks="the pool is read without holding the lock",
  demo=MEM+"""
import time
from mabel.data.writers import stream_writer as sw
from mabel.data.writers.internals.writer_pool import WriterPool
seen = []
real = WriterPool.get_stale_writers
def spy(self, s):
    seen.append(sw.lock.locked())
    return real(self, s)
WriterPool.get_stale_writers = spy
w = sw.StreamWriter(dataset="b/set", partitions=None, format="jsonl", inner_writer=Mem, schema=False)
time.sleep(0.5)
w.append({"n": 1}); w.finalize()
assert seen and all(seen), seen
"""),
 dict(id="b11-frame-name-prefix", property="C11",
  edits=[("data/readers/internals/base_inner_reader.py","                            [blob for blob in blobs if as_at + \"/frame.complete\" in blob]","                            [blob for blob in blobs if as_at in blob and \"/frame.complete\" in blob]")],
  needs="an incomplete frame whose name is the start of a newer, ignored frame's name",
  breaks="the frame counts as complete by another frame's marker",
  demo=TREE+"""
try:
    from mabel.adapters.disk import DiskReader
    put("set/as_at_1/a.jsonl", {"n": 1}); put("set/as_at_1/frame.complete")
    put("set/as_at_2/a.jsonl", {"n": 2})
    put("set/as_at_20/a.jsonl", {"n": 3}); put("set/as_at_20/frame.complete"); put("set/as_at_20/frame.ignore")
    got = DiskReader(dataset="set", partitions=None).get_list_of_blobs()
    print(got)
    assert [b for b in got if b.endswith("jsonl")] == ["set/as_at_1/a.jsonl"], got
finally:
    os.chdir("/"); shutil.rmtree(D)
"""),
 dict(id="b16-cursor-unsorted", property="C16",
  edits=[("data/readers/internals/cursor.py","        self.readable_blobs = sorted(readable_blobs)","        self.readable_blobs = list(readable_blobs)")],
  needs="resuming with the blobs listed in another order",
  breaks="the map of read blobs is applied to another order, so unread blobs are skipped and read ones read again",
  demo="""
from mabel.data.readers.internals.cursor import Cursor
c = Cursor(["a", "b", "c"])
b = c.next_blob(); b = c.next_blob(b)
saved = c.get()
d = Cursor(["c", "b", "a"], cursor=saved)
left = set(d.readable_blobs) - set(d.read_blobs)
print(left)
assert left == {"b", "c"}
"""),
 dict(id="b18-empty-or-list", property="C19",
  edits=[("data/internals/dictset.py","                for item in dictset:\n                    if func(item):\n                        yield item","                for item in dictset:\n                    if func(item) is True:\n                        yield item")],
  needs="a filter function answering with a value that is true but not True",
  breaks="records the function accepts with a truthy value are dropped",
  demo="""
from mabel import DictSet
got = list(DictSet([{"a": "x"}, {"a": ""}]).filter(lambda r: r["a"]))
assert got == [{"a": "x"}], got
"""),
 dict(id="b21-keys-first", property="C21",
  edits=[("data/internals/dictset.py","            rows = self.itake(number_of_rows)\n            return reduce(lambda x, y: x + [a for a in y.keys() if a not in x], rows, [])\n        return reduce(\n            lambda x, y: x + [a for a in y.keys() if a not in x],\n            iter(self._iterator),\n            [],\n        )","            rows = self.itake(number_of_rows)\n        else:\n            rows = iter(self._iterator)\n        return reduce(lambda x, y: x if len(y) <= len(x) else x + [a for a in y.keys() if a not in x], rows, [])")],
  needs="records with different columns, a later one having no more columns than those known",
  breaks="the columns of later records are left out",
  demo="""
from mabel import DictSet
got = DictSet([{"a": 1, "b": 2}, {"c": 1}]).keys()
assert sorted(got) == ["a", "b", "c"], got
"""),
 dict(id="b22-distinct-forgets", property="C22",
  edits=[("data/internals/dictset.py","                    hash_list[hashed_item] = True","                    hash_list.update({hashed_item: True})\n                    if len(hash_list) > 10000:\n                        hash_list.pop(next(iter(hash_list)))")],
  needs="more than 10000 different records before a duplicate of the first",
  breaks="the oldest keys are forgotten, so a late duplicate is handed out again",
  demo="""
from mabel import DictSet
rows = [{"a": i} for i in range(10050)] + [{"a": 0}]
got = list(DictSet(rows).distinct())
assert len(got) == 10050, len(got)
"""),
 dict(id="b31-distinct-after-select", property="C32",
  edits=[("data/readers/internals/sql_reader.py","        reader = reader.select(sql.select_evaluator.fields())  # type:ignore\n        reader = reader.distinct()","        reader = reader.distinct()\n        reader = reader.select(sql.select_evaluator.fields())  # type:ignore")],
  needs="SELECT DISTINCT of some of the columns",
  breaks="duplicates are judged over all columns instead of the selected ones",
  demo=TREE+"""
try:
    from mabel.data.readers.internals.sql_reader import SqlReader
    from mabel.adapters.disk import DiskReader
    put("set/a.jsonl", {"a": 1, "b": 1}, {"a": 1, "b": 2})
    got = list(SqlReader("SELECT DISTINCT a FROM set", inner_reader=DiskReader, partitions=None))
    print(got)
    assert len(got) == 1, got
finally:
    os.chdir("/"); shutil.rmtree(D)
"""),
 dict(id="b33-nested-close", property="C33",
  edits=[("data/readers/internals/inline_evaluator.py","        if not ts.finished() and ts.token()[\"type\"] == TOKENS.AS:\n            ts.step()\n            if ts.finished():\n                raise InvalidEvaluator(\"Incomplete statement after AS\")\n            token[\"as\"] = ts.token()[\"value\"]\n            ts.step()\n\n        response.append(token)","        response.append(token)\n        if not ts.finished() and ts.token()[\"type\"] == TOKENS.AS:\n            ts.step()\n            if ts.finished():\n                raise InvalidEvaluator(\"Incomplete statement after AS\")\n            response[0][\"as\"] = ts.token()[\"value\"]\n            ts.step()")],
  needs="AS behind another column than the first",
  breaks="the name is given to the first column",
  demo="""
from mabel.data.readers.internals.inline_evaluator import Evaluator
got = Evaluator("UPPER(a), UPPER(b) AS c")({"a": "x", "b": "y"})
print(got)
assert got == {"UPPER(a)": "X", "c": "Y"}
"""),
 dict(id="b36-flatten-same-name", property="C38",
  edits=[("data/internals/records.py","        if hasattr(value, \"items\"):\n            items.extend(flatten(dictionary=value, separator=separator, parent_key=new_key).items())","        if hasattr(value, \"items\"):\n            items.extend(flatten(dictionary=value, parent_key=new_key).items())")],
  needs="a nested dictionary flattened with another separator",
  breaks="keys below a dictionary are joined with the default separator",
  demo="""
from mabel.data.internals.records import flatten
got = flatten({"a": {"b": {"c": 1}}}, "_")
assert got == {"a_b_c": 1}, got
"""),
 dict(id="b39-evaluator-own-record", property="C42",
  edits=[("data/readers/internals/inline_evaluator.py","                builder = dic.copy()","                builder = dic")],
  needs="a SELECT with * and a further column over records still in use",
  breaks="the computed columns are added to the caller's own records",
  demo="""
from mabel.data.readers.internals.inline_evaluator import Evaluator
row = {"a": "x"}
Evaluator("UPPER(a), *")(row)
assert row == {"a": "x"}, row
"""),
 dict(id="b40-disk-append", property="C08",
  edits=[("adapters/disk/disk_writer.py","            with open(blob_name, mode=\"wb\") as file:","            with open(blob_name, mode=\"ab\") as file:")],
  needs="committing twice under the same requested name",
  breaks="the second commit is added to what the first wrote instead of replacing it",
  demo=TREE+"""
try:
    from mabel.adapters.disk import DiskWriter
    w = DiskWriter(dataset="set/x", format="jsonl")
    w.commit(b"one", override_blob_name="set/x/a.jsonl"); w.commit(b"two", override_blob_name="set/x/a.jsonl")
    assert open("set/x/a.jsonl", "rb").read() == b"two"
finally:
    os.chdir("/"); shutil.rmtree(D)
"""),
]
SEEDS=[s for s in SEEDS if s["edits"]]
