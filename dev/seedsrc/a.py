MEM='''
from mabel.data.writers.internals.base_inner_writer import BaseInnerWriter
STORE = []
class Mem(BaseInnerWriter):
    def commit(self, byte_data, override_blob_name=None):
        name = override_blob_name or self._build_path()
        STORE.append((name, bytes(byte_data)))
        return name
'''
SEEDS=[
 dict(id="b01-counter-before-rollover", property="C01",
  edits=[("data/writers/internals/blob_writer.py","        # the newline isn't counted so add 1","        self.records_in_buffer += 1\n\n        # the newline isn't counted so add 1"),
         ("data/writers/internals/blob_writer.py","        self.buffer.extend(serialized)\n        self.records_in_buffer += 1\n","        self.buffer.extend(serialized)\n")],
  needs="the last record appended before commit is the one that triggered a blob rollover",
  breaks="the rollover resets the counter that was already incremented for the new record, so commit() believes nothing is pending and discards it",
  demo=MEM+'''
from mabel.data.writers.internals.blob_writer import BlobWriter
w = BlobWriter(inner_writer=Mem, dataset="a/b", format="jsonl", blob_size=60, schema=False)
sent = 0
for i in range(40):
    w.append({"n": i, "pad": "x" * 20}); sent += 1
    if i % 3 == 2:
        w.commit()
w.commit()
got = sum(d.count(b"\\n") for _, d in STORE)
print(sent, got)
assert sent == got
'''),
 dict(id="b02-complete-on-final-blob", property="C02",
  edits=[("data/writers/batch_writer.py","        if self.records == 0 and not self.always_complete:","        if not final and not self.always_complete:")],
  needs="the last appended record makes a parquet blob roll over, so finalize has nothing left to flush",
  breaks="a frame with records is not marked complete when the last blob was already written by a rollover",
  demo=MEM+'''
from mabel.data.writers.batch_writer import BatchWriter
w = BatchWriter(dataset="a/b", format="parquet", inner_writer=Mem, schema=[{"name": "n", "type": "INTEGER"}], blob_size=1)
for i in range(3):
    w.append({"n": i})
w.finalize()
names = [n for n, _ in STORE]
print(names)
assert any(n.endswith("frame.complete") for n in names)
'''),
 dict(id="b03-disk-partial-write", property="C03",
  edits=[("adapters/disk/disk_writer.py","            raise err","            # makedirs can race with another writer, only give up if nothing was saved\n            if not os.path.exists(blob_name):\n                raise err\n            return blob_name")],
  needs="the write fails after the file has been created (disk full)",
  breaks="DiskWriter.commit reports success for a blob whose bytes were not written",
  demo='''
import builtins, tempfile, shutil
from mabel.adapters.disk.disk_writer import DiskWriter
d = tempfile.mkdtemp()
real = builtins.open
class Full:
    def __init__(self, f): self.f = f
    def __enter__(self): return self
    def __exit__(self, *a): self.f.close()
    def write(self, b): raise OSError(28, "No space left on device")
try:
    w = DiskWriter(dataset=d + "/set/x", format="jsonl")
    builtins.open = lambda *a, **k: Full(real(*a, **k))
    try:
        w.commit(b"data")
        ok = False
    except OSError:
        ok = True
    finally:
        builtins.open = real
finally:
    shutil.rmtree(d)
assert ok, "commit reported success for data that was not written"
'''),
]
