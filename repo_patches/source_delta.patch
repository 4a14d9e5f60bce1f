From 137d269366a5905d92af57f7d4529362814bb3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:04 +0000
Subject: [PATCH 01/58] fix: remember a failure reported to
 BatchWriter.finalize even when flushing the data fails

---
 mabel/data/writers/batch_writer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mabel/data/writers/batch_writer.py b/mabel/data/writers/batch_writer.py
index 6f3a351..47858cb 100644
--- a/mabel/data/writers/batch_writer.py
+++ b/mabel/data/writers/batch_writer.py
@@ -104,12 +104,15 @@ class BatchWriter(Writer):
 
     def finalize(self, **kwargs):
 
-        final = super().finalize()
-
         has_failure = bool(kwargs.get("has_failure", False))
 
+        # remember the failure before doing anything which could itself fail
         if has_failure:
             self.seen_failures = True
+
+        final = super().finalize()
+
+        if has_failure:
             get_logger().debug(f"Error found in the stack, not marking frame as complete.")
             return -1
 
-- 
2.43.0


From 3736e44b6c5d572937da8516b238d25256306df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:37 +0000
Subject: [PATCH 02/58] fix: keep a pooled writer until its data has been
 committed

---
 mabel/data/writers/internals/writer_pool.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mabel/data/writers/internals/writer_pool.py b/mabel/data/writers/internals/writer_pool.py
index 16dbefb..ec8926e 100644
--- a/mabel/data/writers/internals/writer_pool.py
+++ b/mabel/data/writers/internals/writer_pool.py
@@ -63,8 +63,9 @@ class WriterPool:
                 )
             else:
                 writer = writers[0]
-                self.writers = [w for w in self.writers if w.get("identity") != identity]
+                # only let go of the writer when its data has been committed
                 writer.get("writer").commit()
+                self.writers = [w for w in self.writers if w.get("identity") != identity]
         finally:
             lock.release()
 
-- 
2.43.0


From f5b242a84e454f421d923a5aad56a22ecf61d2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:37 +0000
Subject: [PATCH 03/58] fix: StreamWriter.finalize reports data it could not
 commit

---
 mabel/data/writers/stream_writer.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mabel/data/writers/stream_writer.py b/mabel/data/writers/stream_writer.py
index e158d7f..821efb5 100644
--- a/mabel/data/writers/stream_writer.py
+++ b/mabel/data/writers/stream_writer.py
@@ -158,6 +158,7 @@ class StreamWriter(Writer):
 
     def finalize(self, **kwargs):
         self.run_pool_attendant = False
+        failure = None
         with lock:
             for blob_writer_identity in self.writer_pool.writers:
                 try:
@@ -166,10 +167,15 @@ class StreamWriter(Writer):
                     )
                     self.writer_pool.remove_writer(blob_writer_identity["identity"])
                 except Exception as err:
-                    get_logger().debug(
+                    get_logger().error(
                         f"Error finalizing `{blob_writer_identity}`, {type(err).__name__} - {err}"
                     )
-        return super().finalize()
+                    failure = err
+        final = super().finalize()
+        # the caller must learn that some of the data has not been committed
+        if failure is not None:
+            raise failure
+        return final
 
     def pool_attendant(self):
         """
-- 
2.43.0


From 3ae5fbd1e1a35c675ca655201d44bf35ffefd00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:32 +0000
Subject: [PATCH 04/58] fix: GCS writer names control files relative to the
 bucket before the first commit

---
 mabel/adapters/google/google_cloud_storage_writer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mabel/adapters/google/google_cloud_storage_writer.py b/mabel/adapters/google/google_cloud_storage_writer.py
index f15d32b..234f324 100644
--- a/mabel/adapters/google/google_cloud_storage_writer.py
+++ b/mabel/adapters/google/google_cloud_storage_writer.py
@@ -27,6 +27,9 @@ class GoogleCloudStorageWriter(BaseInnerWriter):
 
         super().__init__(**kwargs)
         self.credentials = credentials
+        # blob names are relative to the bucket, set this before anything is committed as
+        # the location of frame control files is determined from it
+        self.filename = self.filename_without_bucket
 
         predicate = retry.if_exception_type(
             ConnectionResetError, ProtocolError, InternalServerError, TooManyRequests
@@ -40,7 +43,6 @@ class GoogleCloudStorageWriter(BaseInnerWriter):
         else:  # pragma: no cover
             client = storage.Client(credentials=self.credentials)
         self.gcs_bucket = client.get_bucket(self.bucket)
-        self.filename = self.filename_without_bucket
 
         # if we've been given the filename, use that, otherwise get the
         # name from the path builder
-- 
2.43.0


From 7068e74a710f40a76eaab09b947da9c9a01ad837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:13 +0000
Subject: [PATCH 05/58] fix: StreamWriter validates records converted with
 dump_model

---
 mabel/data/writers/stream_writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/data/writers/stream_writer.py b/mabel/data/writers/stream_writer.py
index 821efb5..ee61ddf 100644
--- a/mabel/data/writers/stream_writer.py
+++ b/mabel/data/writers/stream_writer.py
@@ -113,7 +113,7 @@ class StreamWriter(Writer):
         if hasattr(record, "dump_model"):
             record = record.dump_model()
 
-        elif self.schema:
+        if self.schema:
             try:
                 self.schema.validate(record)
             except Exception as e:
-- 
2.43.0


From 9432d796fe76ad871fe6767d33dbe5dee6cfc875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:13 +0000
Subject: [PATCH 06/58] fix: StreamWriter no longer drops records with an empty
 list in a partition field

---
 mabel/data/writers/stream_writer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mabel/data/writers/stream_writer.py b/mabel/data/writers/stream_writer.py
index ee61ddf..305a00f 100644
--- a/mabel/data/writers/stream_writer.py
+++ b/mabel/data/writers/stream_writer.py
@@ -137,6 +137,9 @@ class StreamWriter(Writer):
                 value = record.get(placeholder)
                 if not isinstance(value, list):
                     value = [value]
+                # an empty list has no combinations, the record would be lost
+                if len(value) == 0:
+                    value = [None]
                 values.append(value)
             # get the cartesian product of these lists
             # save the result to a set otherwise it's not a cartesian product
-- 
2.43.0


From cc7c61ebfdf861eeb6d53e869a7ee353489c85b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:13 +0000
Subject: [PATCH 07/58] fix: a record the parquet buffer rejects is not counted
 as buffered

---
 mabel/data/writers/internals/blob_writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/data/writers/internals/blob_writer.py b/mabel/data/writers/internals/blob_writer.py
index 2ad72a9..657b0e7 100644
--- a/mabel/data/writers/internals/blob_writer.py
+++ b/mabel/data/writers/internals/blob_writer.py
@@ -53,8 +53,8 @@ class BlobWriter(object):
             self.append = self.text_append
 
     def arrow_append(self, record: dict = {}):
-        self.records_in_buffer += 1
         self.wal.append(record)  # type:ignore
+        self.records_in_buffer += 1
         # if this write would exceed the blob size, close it
         if self.wal.nbytes() > self.maximum_blob_size:
             self.commit()
-- 
2.43.0


From e55d8a290ac0fb9de11be90c242adc7d77cdbefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:36 +0000
Subject: [PATCH 08/58] fix: do not evict writers from a pool which is under
 capacity

---
 mabel/data/writers/internals/writer_pool.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/data/writers/internals/writer_pool.py b/mabel/data/writers/internals/writer_pool.py
index ec8926e..131b39d 100644
--- a/mabel/data/writers/internals/writer_pool.py
+++ b/mabel/data/writers/internals/writer_pool.py
@@ -87,7 +87,7 @@ class WriterPool:
 
         # evict the oldest items, evicting can be time consuming so we're going to limit the
         evictees = sorted(self.writers, key=_inner_sort_key, reverse=False)[
-            : len(self.writers) - self.pool_size
+            : max(len(self.writers) - self.pool_size, 0)
         ][: self.pool_size]
         return [writer.get("identity") for writer in evictees]
 
-- 
2.43.0


From cb29677fc4f8b318542ca2ab69b437d11e350043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:05 +0000
Subject: [PATCH 09/58] fix: a reader without filters returns empty records too

---
 mabel/data/readers/reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mabel/data/readers/reader.py b/mabel/data/readers/reader.py
index c61ef60..5cada2c 100644
--- a/mabel/data/readers/reader.py
+++ b/mabel/data/readers/reader.py
@@ -15,6 +15,7 @@ from mabel.data.readers.internals.multiprocess_wrapper import processed_reader
 from mabel.data.readers.internals.parallel_reader import EXTENSION_TYPE
 from mabel.data.readers.internals.parallel_reader import KNOWN_EXTENSIONS
 from mabel.data.readers.internals.parallel_reader import ParallelReader
+from mabel.data.readers.internals.parallel_reader import no_filter
 from mabel.data.readers.internals.parallel_reader import pass_thru
 from mabel.errors import DataNotFoundError
 from mabel.errors import InvalidCombinationError
@@ -269,7 +270,7 @@ class _LowLevelReader(object):
         parallel = ParallelReader(
             reader=self.reader_class,
             columns=self.select,
-            filters=self.filters or pass_thru,
+            filters=self.filters or no_filter,
             override_format=self.override_format,
         )
 
-- 
2.43.0


From eafc539c00794417cdcbe4daa907dacab70f62ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:06 +0000
Subject: [PATCH 10/58] fix: a partition folder is matched by its whole name
 when choosing frames

---
 mabel/data/readers/internals/base_inner_reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mabel/data/readers/internals/base_inner_reader.py b/mabel/data/readers/internals/base_inner_reader.py
index 65bb7e8..1aa5774 100644
--- a/mabel/data/readers/internals/base_inner_reader.py
+++ b/mabel/data/readers/internals/base_inner_reader.py
@@ -172,7 +172,8 @@ class BaseInnerReader(abc.ABC):
                     partitioned_blobs = [
                         blob
                         for blob in cycle_blobs
-                        if f"{chosen_partition}/{partitioned_folder}" in blob
+                        if chosen_partition == ""
+                        or safe_get_next(blob.split("/"), chosen_partition) == partitioned_folder
                     ]
 
                     # Work out if there's an as_at part
-- 
2.43.0


From b8c0bd5db251552738bb2838e5eb35fdb10d3e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:06 +0000
Subject: [PATCH 11/58] fix: a partition filter is only applied to the
 partition of exactly that name

---
 mabel/data/readers/internals/base_inner_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/data/readers/internals/base_inner_reader.py b/mabel/data/readers/internals/base_inner_reader.py
index 1aa5774..db7d904 100644
--- a/mabel/data/readers/internals/base_inner_reader.py
+++ b/mabel/data/readers/internals/base_inner_reader.py
@@ -130,7 +130,7 @@ class BaseInnerReader(abc.ABC):
                     partition_filter = f"/by_{partition_filter_field}/{partition_filter_field}={partition_filter_value}/"
 
                     # If we can find the partition in the folder set, then prune to it
-                    if any([f"by_{partition_filter_field}" in by for by in list_of_partitions]):
+                    if f"by_{partition_filter_field}" in list_of_partitions:
                         # Do the pruning
                         cycle_blobs = [blob for blob in cycle_blobs if partition_filter in blob]
                         #  We only have one partition now
-- 
2.43.0


From cf13aba289a096025ae79305bba6c8cfe148057f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:51 +0000
Subject: [PATCH 12/58] fix: only read blobs of the chosen frame, not of frames
 whose name starts with its name

---
 mabel/data/readers/internals/base_inner_reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mabel/data/readers/internals/base_inner_reader.py b/mabel/data/readers/internals/base_inner_reader.py
index db7d904..bd3df08 100644
--- a/mabel/data/readers/internals/base_inner_reader.py
+++ b/mabel/data/readers/internals/base_inner_reader.py
@@ -215,7 +215,8 @@ class BaseInnerReader(abc.ABC):
                             partitioned_blobs = [
                                 blob
                                 for blob in partitioned_blobs
-                                if (as_at in blob) and ("/frame.complete" not in blob)
+                                if self._extract_as_at(blob) == as_at
+                                and ("/frame.complete" not in blob)
                             ]
 
                     blobs += partitioned_blobs
-- 
2.43.0


From 17979c9082f636961ed8bb856209a1e145cfd0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:30 +0000
Subject: [PATCH 13/58] fix: MinIO reader lists the objects of a path once, not
 once for every hour read

---
 mabel/adapters/minio/minio_reader.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/mabel/adapters/minio/minio_reader.py b/mabel/adapters/minio/minio_reader.py
index 5d3fffc..20c41ce 100644
--- a/mabel/adapters/minio/minio_reader.py
+++ b/mabel/adapters/minio/minio_reader.py
@@ -4,7 +4,6 @@ MinIo Reader - also works with AWS
 
 from ...data.readers.internals.base_inner_reader import BaseInnerReader
 from ...errors import MissingDependencyError
-from ...utils import dates
 from ...utils import paths
 
 try:
@@ -35,15 +34,13 @@ class MinIoReader(BaseInnerReader):
 
     def get_blobs_at_path(self, path):
         bucket, object_path, _, _ = paths.get_parts(path)
-        for cycle_date in dates.date_range(self.start_date, self.end_date):
-            cycle_path = paths.build_path(path=object_path, date=cycle_date)
-            blobs = self.minio.list_objects(bucket_name=bucket, prefix=cycle_path, recursive=True)
-
-            yield from [
-                bucket + "/" + blob.object_name
-                for blob in blobs
-                if not blob.object_name.endswith("/")
-            ]
+        blobs = self.minio.list_objects(bucket_name=bucket, prefix=object_path, recursive=True)
+
+        yield from [
+            bucket + "/" + blob.object_name
+            for blob in blobs
+            if not blob.object_name.endswith("/")
+        ]
 
     def get_blob_bytes(self, blob_name: str) -> bytes:
         try:
-- 
2.43.0


From a84b45b135a4e1e90be251f72ef6bcdaab303ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:30 +0000
Subject: [PATCH 14/58] fix: MinIO reader reports the storage's error when an
 object cannot be fetched

---
 mabel/adapters/minio/minio_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mabel/adapters/minio/minio_reader.py b/mabel/adapters/minio/minio_reader.py
index 20c41ce..39bc004 100644
--- a/mabel/adapters/minio/minio_reader.py
+++ b/mabel/adapters/minio/minio_reader.py
@@ -43,9 +43,9 @@ class MinIoReader(BaseInnerReader):
         ]
 
     def get_blob_bytes(self, blob_name: str) -> bytes:
+        bucket, object_path, name, extension = paths.get_parts(blob_name)
+        stream = self.minio.get_object(bucket, object_path + name + extension)
         try:
-            bucket, object_path, name, extension = paths.get_parts(blob_name)
-            stream = self.minio.get_object(bucket, object_path + name + extension)
             return stream.read()
         finally:
             stream.close()
-- 
2.43.0


From b8f4ea6dfacf303e77f77cb8725e61ff8129b5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:35 +0000
Subject: [PATCH 15/58] fix: flatten keeps list elements of different fields
 apart

---
 mabel/data/internals/records.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/data/internals/records.py b/mabel/data/internals/records.py
index fc48701..e7cac4d 100644
--- a/mabel/data/internals/records.py
+++ b/mabel/data/internals/records.py
@@ -81,7 +81,7 @@ def flatten(dictionary: MutableMapping[Any, Any], separator: str = ".", parent_k
             items.extend(flatten(dictionary=value, separator=separator, parent_key=new_key).items())
         elif isinstance(value, list):
             for k, v in enumerate(value):
-                items.extend(flatten({str(k): v}, new_key).items())
+                items.extend(flatten({str(k): v}, separator, new_key).items())
         else:
             items.append((new_key, value))
     return dict(items)
-- 
2.43.0


From c686c47accc8c7613ae814b5c4450235b6f4adc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:09 +0000
Subject: [PATCH 16/58] fix: a DictSet over a list can be iterated

---
 mabel/data/internals/dictset.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mabel/data/internals/dictset.py b/mabel/data/internals/dictset.py
index 9536f78..77fb4d6 100644
--- a/mabel/data/internals/dictset.py
+++ b/mabel/data/internals/dictset.py
@@ -117,6 +117,9 @@ class DictSet(object):
         """
         if not hasattr(self._iterator, "__iter__"):  # pragma:no cover
             self._iterator = DumbIterator(self._iterator)
+        if not hasattr(self._iterator, "__next__"):
+            # lists and the like can't be stepped through by __next__
+            return iter(self._iterator)
         return self
 
     def __next__(self):
-- 
2.43.0


From 0a8fe252eff267001b656982aa79e52a4e399057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:09 +0000
Subject: [PATCH 17/58] fix: compressed memory storage yields empty records too

---
 .../storage_classes/storage_class_compressed_memory.py         | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mabel/data/internals/storage_classes/storage_class_compressed_memory.py b/mabel/data/internals/storage_classes/storage_class_compressed_memory.py
index f6671a3..c7fb350 100644
--- a/mabel/data/internals/storage_classes/storage_class_compressed_memory.py
+++ b/mabel/data/internals/storage_classes/storage_class_compressed_memory.py
@@ -64,8 +64,7 @@ class StorageClassCompressedMemory(BaseStorageClass):
             for batch in self.batches:
                 records = self.parse_json(self.decompressor.decompress(batch))
                 for record in records:
-                    if record:
-                        yield record
+                    yield record
 
     def __iter__(self):
         self.iterator = iter(self._inner_reader())
-- 
2.43.0


From f6994dde59889191504be04aef68ab112b537ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:09 +0000
Subject: [PATCH 18/58] fix: disk storage of no records can be read

---
 mabel/data/internals/storage_classes/storage_class_disk.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mabel/data/internals/storage_classes/storage_class_disk.py b/mabel/data/internals/storage_classes/storage_class_disk.py
index 21a5631..3156500 100644
--- a/mabel/data/internals/storage_classes/storage_class_disk.py
+++ b/mabel/data/internals/storage_classes/storage_class_disk.py
@@ -52,6 +52,9 @@ class StorageClassDisk(BaseStorageClass):
         """
         MMAP is by far the fastest way to read files in Python.
         """
+        if self.length == 0:
+            # an empty file can't be mapped
+            return
         with open(self.file, mode="rb") as file_obj:
             with mmap.mmap(file_obj.fileno(), length=0, access=mmap.ACCESS_READ) as mmap_obj:
                 line = mmap_obj.readline()
-- 
2.43.0


From 29e92ff5a4cf3eb01b7c0391f21f7d526534fdff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:09 +0000
Subject: [PATCH 19/58] fix: taking no items of a DictSet gives no items

---
 mabel/data/internals/dictset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mabel/data/internals/dictset.py b/mabel/data/internals/dictset.py
index 77fb4d6..2ba55a9 100644
--- a/mabel/data/internals/dictset.py
+++ b/mabel/data/internals/dictset.py
@@ -397,6 +397,8 @@ class DictSet(object):
 
         This returns a generator.
         """
+        if items == 0:
+            return
         for count, item in enumerate(iter(self._iterator)):
             if isinstance(item, dict):
                 yield item
-- 
2.43.0


From a981e15cefca1c247e101b18f153a66b77168039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:02 +0000
Subject: [PATCH 20/58] fix: distinct only drops records with the same values
 in the same columns

---
 mabel/data/internals/dictset.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/mabel/data/internals/dictset.py b/mabel/data/internals/dictset.py
index 2ba55a9..1b55133 100644
--- a/mabel/data/internals/dictset.py
+++ b/mabel/data/internals/dictset.py
@@ -298,13 +298,10 @@ class DictSet(object):
         def do_dedupe(data):
             for item in data:
                 if columns:
-                    hashed_item = hash("".join([str(item.get(c, "$$")) for c in columns]))
+                    values = [(c, item.get(c)) for c in columns if c in item]
                 else:
-                    hashed_item = reduce(
-                        lambda x, y: x ^ y,
-                        [hash(f"{i},{v}") for i, v in enumerate(item.values())],
-                        0,
-                    )
+                    values = sorted(item.items(), key=lambda i: str(i[0]))
+                hashed_item = hash(repr(values))
                 if hashed_item not in hash_list:
                     yield item
                     hash_list[hashed_item] = True
-- 
2.43.0


From 66552afc2976214939352e2470bd0b2164997715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:02 +0000
Subject: [PATCH 21/58] fix: groups are not merged because their values read
 the same when joined

---
 mabel/data/internals/group_by.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/mabel/data/internals/group_by.py b/mabel/data/internals/group_by.py
index a6ac668..c69f8e8 100644
--- a/mabel/data/internals/group_by.py
+++ b/mabel/data/internals/group_by.py
@@ -71,16 +71,10 @@ class GroupBy:
             return
 
         for record in self._dictset:
-            try:
-                group_key: int = xxh3_64_intdigest(
-                    "".join([str(record[column]) for column in self._columns]),
-                    HASH_SEED
-                )
-            except KeyError:
-                group_key: int = xxh3_64_intdigest(
-                    "".join([f"{record.get(column, '')}" for column in self._columns]),
-                    HASH_SEED,
-                )
+            group_key: int = xxh3_64_intdigest(
+                repr([record.get(column) for column in self._columns]),
+                HASH_SEED,
+            )
             if group_key not in self._group_keys.keys():
                 self._group_keys[group_key] = [
                     (column, record.get(column)) for column in self._columns
-- 
2.43.0


From 6778f6801a1538cb68be9176d1d11b7de9cb38ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:02 +0000
Subject: [PATCH 22/58] fix: aggregations take zeros into account

---
 mabel/data/internals/group_by.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mabel/data/internals/group_by.py b/mabel/data/internals/group_by.py
index c69f8e8..ac6b3a4 100644
--- a/mabel/data/internals/group_by.py
+++ b/mabel/data/internals/group_by.py
@@ -136,8 +136,9 @@ class GroupBy:
                 # the aggregation works by performing a simple calculation on
                 # the last known value and the value currently seen. This means
                 # we don't need a full copy of the data in memory.
-                if existing:
-                    if value or func == "COUNT":
+                if existing not in (None, ""):
+                    # zeros are values, blanks aren't
+                    if value != "" or func == "COUNT":
                         value = AGGREGATORS[func](existing, value)
                     else:
                         value = existing
-- 
2.43.0


From af678f816e366241b7db58872e12fd11249c5ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:02 +0000
Subject: [PATCH 23/58] fix: aggregations requested twice, or needed by an
 average too, are counted once

---
 mabel/data/internals/group_by.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mabel/data/internals/group_by.py b/mabel/data/internals/group_by.py
index ac6b3a4..3be039e 100644
--- a/mabel/data/internals/group_by.py
+++ b/mabel/data/internals/group_by.py
@@ -110,10 +110,13 @@ class GroupBy:
 
         requested_aggs = aggregations.copy()
 
-        # averages need the sum and the count
-        for func, col in aggregations:
+        # averages need the sum and the count, each is only worked out once
+        aggregations = list(dict.fromkeys(aggregations))
+        for func, col in requested_aggs:
             if func == "AVG":
-                aggregations += [("SUM", col), ("COUNT", col)]
+                for agg in (("SUM", col), ("COUNT", col)):
+                    if agg not in aggregations:
+                        aggregations.append(agg)
 
         columns_to_collect = {col for func, col in aggregations}
 
-- 
2.43.0


From e593f76a6c0331a799413db9a519e801d8b3d0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:02 +0000
Subject: [PATCH 24/58] fix: the average of a group without values is null
 instead of an error

---
 mabel/data/internals/group_by.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/data/internals/group_by.py b/mabel/data/internals/group_by.py
index 3be039e..6db9ba1 100644
--- a/mabel/data/internals/group_by.py
+++ b/mabel/data/internals/group_by.py
@@ -161,7 +161,7 @@ class GroupBy:
         # We now need to expand out the hashed column names
         for group, results in collector.items():
             for func, col in requested_aggs:
-                if func == "AVG":
+                if func == "AVG" and results.get(f"COUNT({col})"):
                     results[f"AVG({col})"] = results[f"SUM({col})"] / results[f"COUNT({col})"]
 
             results = {
-- 
2.43.0


From d8cdef6fb267d98468f88a39be25098c0c2ccb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:02 +0000
Subject: [PATCH 25/58] fix: values of every type are escaped in HTML tables

---
 mabel/data/internals/display.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/data/internals/display.py b/mabel/data/internals/display.py
index a999a1c..a6feed2 100644
--- a/mabel/data/internals/display.py
+++ b/mabel/data/internals/display.py
@@ -27,7 +27,7 @@ def html_table(dictset: Iterable[dict], limit: int = 5):
         if hasattr(htmlstring, "items"):
             return sanitize("{ " + ", ".join([f'"{k}": {v}' for k, v in htmlstring.items()]) + " }")
         if not isinstance(htmlstring, str):
-            return htmlstring
+            htmlstring = str(htmlstring)
         escapes = {'"': "&quot;", "'": "&#39;", "<": "&lt;", ">": "&gt;", "$": "&#x24;"}
         # This is done first to prevent escaping other escapes.
         htmlstring = htmlstring.replace("&", "&amp;")
-- 
2.43.0


From b3ea3cf674d68a5a378ca926ffb86645e0d4807f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:32 +0000
Subject: [PATCH 26/58] fix: the rest of an expression is not ignored behind a
 NULL

---
 mabel/data/internals/expression.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mabel/data/internals/expression.py b/mabel/data/internals/expression.py
index 6c27015..144311b 100644
--- a/mabel/data/internals/expression.py
+++ b/mabel/data/internals/expression.py
@@ -163,6 +163,7 @@ class Expression(object):
                 n = TreeNode(token_type, self.tokenizer.next().lower() == "true")
                 return n
             if token_type == TOKENS.NULL:
+                self.tokenizer.next()
                 n = TreeNode(token_type, None)
                 return n
             if token_type == TOKENS.DATE:
-- 
2.43.0


From 173d975cc08b67518cd9d66c2caeeae6aae6f52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:32 +0000
Subject: [PATCH 27/58] fix: an expression with tokens left over is rejected
 instead of partly ignored

---
 mabel/data/internals/expression.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mabel/data/internals/expression.py b/mabel/data/internals/expression.py
index 144311b..a00731e 100644
--- a/mabel/data/internals/expression.py
+++ b/mabel/data/internals/expression.py
@@ -47,6 +47,8 @@ class Expression(object):
 
     def parse(self):
         self.root = self.parse_expression()
+        if self.tokenizer.has_next():
+            raise InvalidExpression(f"Unexpected token, got `{self.tokenizer.next()}`")
 
     def parse_expression(self):
         andTerm1 = self.parse_and_term()
-- 
2.43.0


From 70db81ba0d322684f8c48b8c3f3d784185a5afab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:32 +0000
Subject: [PATCH 28/58] fix: LIKE does not match nulls as the text none

---
 mabel/utils/text.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mabel/utils/text.py b/mabel/utils/text.py
index 794188d..350566f 100644
--- a/mabel/utils/text.py
+++ b/mabel/utils/text.py
@@ -40,6 +40,8 @@ def _sql_like_fragment_to_regex(fragment):
 
 
 def like(x, y):
+    if x is None:
+        return False
     return _sql_like_fragment_to_regex(y.lower()).match(str(x).lower())
 
 
-- 
2.43.0


From 66d27202165add53f65cb298b404c28fdd3ee2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:32 +0000
Subject: [PATCH 29/58] fix: ORDER BY without ASC or DESC does not swallow the
 following LIMIT and hang

---
 mabel/data/readers/internals/sql_reader.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/mabel/data/readers/internals/sql_reader.py b/mabel/data/readers/internals/sql_reader.py
index 2199ea5..0909bf4 100644
--- a/mabel/data/readers/internals/sql_reader.py
+++ b/mabel/data/readers/internals/sql_reader.py
@@ -215,7 +215,6 @@ class SqlParser:
                     "DESC",
                 ):
                     self.order_descending = labeler.next_token_value().upper() == "DESC"
-                if labeler.has_next():
                     labeler.next()
             elif labeler.peek().upper() == "LIMIT":
                 labeler.next()
-- 
2.43.0


From db414a0baefbc829ff8d348fbbab79d33b341f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:32 +0000
Subject: [PATCH 30/58] fix: SQL statements with unexpected tokens are rejected
 instead of hanging

---
 mabel/data/readers/internals/sql_reader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mabel/data/readers/internals/sql_reader.py b/mabel/data/readers/internals/sql_reader.py
index 0909bf4..96073fd 100644
--- a/mabel/data/readers/internals/sql_reader.py
+++ b/mabel/data/readers/internals/sql_reader.py
@@ -219,6 +219,8 @@ class SqlParser:
             elif labeler.peek().upper() == "LIMIT":
                 labeler.next()
                 self.limit = int(self.collector(labeler))
+            else:
+                raise InvalidSqlError(f"Invalid statement - unexpected `{labeler.peek()}`.")
 
         # validate inputs (currently only the FROM clause)
         if isinstance(self.dataset, str):
-- 
2.43.0


From 4d92d5445b24887a81beaa80e27c001ca707add1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:32 +0000
Subject: [PATCH 31/58] fix: LIMIT 0 returns nothing

---
 mabel/data/readers/internals/sql_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mabel/data/readers/internals/sql_reader.py b/mabel/data/readers/internals/sql_reader.py
index 96073fd..7767670 100644
--- a/mabel/data/readers/internals/sql_reader.py
+++ b/mabel/data/readers/internals/sql_reader.py
@@ -342,14 +342,14 @@ def SqlReader(sql_statement: str, **kwargs):
     # ORDER BY clause
     if sql.order_by:
         take = 10000  # the Query UI is currently set to 2000
-        if sql.limit:
+        if sql.limit is not None:
             take = int(sql.limit)
         reader = DictSet(
             reader.sort_and_take(column=sql.order_by, take=take, descending=sql.order_descending)
         )
 
     # LIMIT clause
-    if sql.limit:
+    if sql.limit is not None:
         reader = reader.take(sql.limit)
 
     return reader
-- 
2.43.0


From 099f40b9245bb2fbe42d40121202a7940b070e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:32 +0000
Subject: [PATCH 32/58] fix: ORDER BY can order by a column which is not
 selected

---
 mabel/data/readers/internals/sql_reader.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mabel/data/readers/internals/sql_reader.py b/mabel/data/readers/internals/sql_reader.py
index 7767670..cf1fa46 100644
--- a/mabel/data/readers/internals/sql_reader.py
+++ b/mabel/data/readers/internals/sql_reader.py
@@ -334,9 +334,9 @@ def SqlReader(sql_statement: str, **kwargs):
     if renames:
         reader = DictSet(map(_perform_renames, reader))
 
-    reader = reader.select(sql.select_evaluator.fields())  # type:ignore
     # distinct now we have only the columns we're interested in
     if sql.distinct:
+        reader = reader.select(sql.select_evaluator.fields())  # type:ignore
         reader = reader.distinct()
 
     # ORDER BY clause
@@ -348,6 +348,10 @@ def SqlReader(sql_statement: str, **kwargs):
             reader.sort_and_take(column=sql.order_by, take=take, descending=sql.order_descending)
         )
 
+    # we may have ordered by a column we're not selecting
+    if not sql.distinct:
+        reader = reader.select(sql.select_evaluator.fields())  # type:ignore
+
     # LIMIT clause
     if sql.limit is not None:
         reader = reader.take(sql.limit)
-- 
2.43.0


From 05bf9c9417ec67e75b1f2b005cd71ac3bb79b5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:17 +0000
Subject: [PATCH 33/58] fix: get_items works for items held in memory and for
 generators

---
 mabel/data/internals/dictset.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mabel/data/internals/dictset.py b/mabel/data/internals/dictset.py
index 1b55133..23fc8d1 100644
--- a/mabel/data/internals/dictset.py
+++ b/mabel/data/internals/dictset.py
@@ -327,7 +327,11 @@ class DictSet(object):
 
         # if there's no direct access to items, cycle through them
         # yielding the items we want
-        if self.storage_class in (STORAGE_CLASS.DISK, STORAGE_CLASS.COMPRESSED_MEMORY):
+        if self.storage_class in (
+            STORAGE_CLASS.MEMORY,
+            STORAGE_CLASS.DISK,
+            STORAGE_CLASS.COMPRESSED_MEMORY,
+        ):
             for r in self._iterator._inner_reader(*locations):
                 yield r
             return
@@ -338,7 +342,7 @@ class DictSet(object):
             return
 
         if self.storage_class == STORAGE_CLASS.NO_PERSISTANCE:
-            for i, r in iter(self._iterator):
+            for i, r in enumerate(iter(self._iterator)):
                 if i in locations:
                     yield r
 
-- 
2.43.0


From 2af9bfa12112152c0e6b77d433e705b3874b7d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:18 +0000
Subject: [PATCH 34/58] fix: selecting several groups of a collected set gives
 those groups instead of a KeyError

---
 mabel/data/internals/collected_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/data/internals/collected_set.py b/mabel/data/internals/collected_set.py
index 99361c0..d71e77d 100644
--- a/mabel/data/internals/collected_set.py
+++ b/mabel/data/internals/collected_set.py
@@ -111,7 +111,7 @@ class CollectedSet:
             newg = CollectedSet([], None)
             for entry in item:
                 if entry in self._collections:
-                    newg._collections[entry].append(self._collections[entry])
+                    newg._collections[entry] = self._collections[entry]
             return newg
         else:
             return SubCollection(self._collections.get(item))
-- 
2.43.0


From b82db9d8c3fad9c0b6548e122e0cd0bbccc5c4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:18 +0000
Subject: [PATCH 35/58] fix: several fields can be selected from a sub
 collection

---
 mabel/data/internals/collected_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/data/internals/collected_set.py b/mabel/data/internals/collected_set.py
index d71e77d..831f48e 100644
--- a/mabel/data/internals/collected_set.py
+++ b/mabel/data/internals/collected_set.py
@@ -133,7 +133,7 @@ class SubCollection:
         Selector access to a value in a collection, support arrays
         """
         if isinstance(item, tuple):
-            return list(self.values.select(*item))
+            return list(self.values.select(item))
         else:
             return self.values.collect_list(item)
 
-- 
2.43.0


From b2ec904e60cc538461ba1f233e7b531d792639f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:12 +0000
Subject: [PATCH 36/58] fix: collections with list values can be deduplicated

---
 mabel/data/internals/collected_set.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mabel/data/internals/collected_set.py b/mabel/data/internals/collected_set.py
index 831f48e..45a1ed3 100644
--- a/mabel/data/internals/collected_set.py
+++ b/mabel/data/internals/collected_set.py
@@ -33,7 +33,8 @@ class CollectedSet:
             collections.setdefault(key, []).append(my_item)
         if dedupe:
             collections = {
-                k: {frozenset(i.items()): i for i in v}.values() for k, v in collections.items()
+                k: {repr(sorted(i.items(), key=lambda e: str(e[0]))): i for i in v}.values()
+                for k, v in collections.items()
             }
 
         self._collections = collections
-- 
2.43.0


From 575bef5663849acff5b168c19795b2b7db6f8b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:52 +0000
Subject: [PATCH 37/58] fix: LIKE matches the whole of a value which has line
 breaks

---
 mabel/utils/text.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mabel/utils/text.py b/mabel/utils/text.py
index 350566f..9f92bb9 100644
--- a/mabel/utils/text.py
+++ b/mabel/utils/text.py
@@ -36,7 +36,9 @@ def _sql_like_fragment_to_regex(fragment):
     """
     # https://codereview.stackexchange.com/a/36864/229677
     safe_fragment = "".join([REGEX_CHARACTERS.get(ch, ch) for ch in fragment])
-    return re.compile("^" + safe_fragment.replace("%", ".*?").replace("_", ".") + "$")
+    return re.compile(
+        r"\A" + safe_fragment.replace("%", ".*?").replace("_", ".") + r"\Z", re.DOTALL
+    )
 
 
 def like(x, y):
-- 
2.43.0


From 68d23d4847f0d3ccec2b504c443a7e83de7f6a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:52 +0000
Subject: [PATCH 38/58] fix: IN compares with the whole of the text in a list

---
 mabel/utils/token_labeler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mabel/utils/token_labeler.py b/mabel/utils/token_labeler.py
index 041f4c6..c7a4506 100644
--- a/mabel/utils/token_labeler.py
+++ b/mabel/utils/token_labeler.py
@@ -42,7 +42,8 @@ def interpret_value(value):
     except ValueError:
         pass
 
-    value = value[1:-1]
+    if len(value) > 1 and value[0] == value[-1] and value[0] in ('"', "'"):
+        value = value[1:-1]
     return parse_iso(value) or value
 
 
-- 
2.43.0


From f5cecc2a1160393b1e840daaf553ab94af9a2347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:52 +0000
Subject: [PATCH 39/58] fix: boolean and null constants are columns of a SELECT

---
 mabel/data/readers/internals/inline_evaluator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mabel/data/readers/internals/inline_evaluator.py b/mabel/data/readers/internals/inline_evaluator.py
index 07319ba..f803f2e 100644
--- a/mabel/data/readers/internals/inline_evaluator.py
+++ b/mabel/data/readers/internals/inline_evaluator.py
@@ -71,7 +71,8 @@ def get_fields(tokens):
                 TOKENS.LITERAL,
                 TOKENS.DATE,
                 TOKENS.FLOAT,
-                TOKENS.DATE,
+                TOKENS.BOOLEAN,
+                TOKENS.NULL,
             ):
                 if token["as"]:
                     yield token["as"]
-- 
2.43.0


From c71c68ae251bde3f66d89ef0a3127fc7bd7565a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:13 +0000
Subject: [PATCH 40/58] fix: expressions keep quoted text as it is written

---
 mabel/utils/token_labeler.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/mabel/utils/token_labeler.py b/mabel/utils/token_labeler.py
index c7a4506..f704712 100644
--- a/mabel/utils/token_labeler.py
+++ b/mabel/utils/token_labeler.py
@@ -19,6 +19,10 @@ from mabel.utils.text import not_like
 # These are the characters we should escape in our regex
 REGEX_CHARACTERS = {ch: "\\" + ch for ch in ".^$*+?{}[]|()\\"}
 
+# text in quotes is kept as it is, the quote is closed when neither a word nor
+# the same quote follow it
+QUOTED_TEXT = r"(?<!\w)(?:\".*?\"(?![\w\"])|'.*?'(?![\w'])|`.*?`(?![\w`]))"
+
 
 class TokenError(Exception):
     pass
@@ -205,12 +209,20 @@ def build_splitter():
     for item in ["(", ")", "[", "]", ",", "*"]:
         keywords.append("".join([REGEX_CHARACTERS.get(ch, ch) for ch in item]))
     splitter = re.compile(
-        r"(" + r"|".join(keywords) + r")",
-        re.IGNORECASE,
+        r"(" + QUOTED_TEXT + r"|" + r"|".join(keywords) + r")",
+        re.IGNORECASE | re.DOTALL,
     )
     return splitter
 
 
+def collapse_whitespace(string):
+    """
+    Replace all runs of whitespace, other than in quoted text, with single spaces
+    """
+    cleaner = re.compile(r"(" + QUOTED_TEXT + r")|\s+", re.DOTALL)
+    return cleaner.sub(lambda match: match.group(1) or " ", string).strip()
+
+
 class Tokenizer:
     slots = ("i", "tokens")
 
@@ -305,8 +317,7 @@ class Tokenizer:
         """
         Remove carriage returns and all whitespace to single spaces
         """
-        whitespace_cleaner = re.compile(r"\s+")
-        return whitespace_cleaner.sub(" ", string).strip()
+        return collapse_whitespace(string)
 
     def tokenize(self, expression):
         expression = self.clean_statement(expression)
-- 
2.43.0


From 5be839e525007b3f0766b812bd3fbf720799471b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:13 +0000
Subject: [PATCH 41/58] fix: SQL statements keep quoted text as it is written

---
 mabel/data/readers/internals/sql_reader.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/mabel/data/readers/internals/sql_reader.py b/mabel/data/readers/internals/sql_reader.py
index cf1fa46..3cd2fb6 100644
--- a/mabel/data/readers/internals/sql_reader.py
+++ b/mabel/data/readers/internals/sql_reader.py
@@ -23,8 +23,10 @@ from orso.logging import get_logger
 
 from mabel.data.readers.internals.inline_evaluator import Evaluator
 from mabel.data.readers.internals.inline_evaluator import get_function_name
+from mabel.utils.token_labeler import QUOTED_TEXT
 from mabel.utils.token_labeler import TOKENS
 from mabel.utils.token_labeler import Tokenizer
+from mabel.utils.token_labeler import collapse_whitespace
 
 SQL_PARTS = [
     r"SELECT",
@@ -76,10 +78,12 @@ class SqlParser:
 
     def sql_parts(self, string):
         reg = re.compile(
-            r"(\(|\)|,|"
+            r"("
+            + QUOTED_TEXT
+            + r"|\(|\)|,|"
             + r"|".join([r"\b" + i.replace(r" ", r"\s") + r"\b" for i in SQL_PARTS])
             + r"|\s)",
-            re.IGNORECASE,
+            re.IGNORECASE | re.DOTALL,
         )
         parts = reg.split(string)
         return [part for part in parts if part != ""]
@@ -88,8 +92,7 @@ class SqlParser:
         """
         Remove carriage returns and all whitespace to single spaces
         """
-        _RE_COMBINE_WHITESPACE = re.compile(r"\s+")
-        return _RE_COMBINE_WHITESPACE.sub(" ", string).strip()
+        return collapse_whitespace(string)
 
     def remove_comments(self, string):
         pattern = r"(\".*?\"|\'.*?\')|(/\*.*?\*/|--[^\r\n]*$)"
-- 
2.43.0


From 33d4451038e534bed5f1374466fcf3d34fa34ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:13 +0000
Subject: [PATCH 42/58] fix: SELECT keeps quoted text as it is written

---
 mabel/data/readers/internals/inline_evaluator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mabel/data/readers/internals/inline_evaluator.py b/mabel/data/readers/internals/inline_evaluator.py
index f803f2e..dbb92ce 100644
--- a/mabel/data/readers/internals/inline_evaluator.py
+++ b/mabel/data/readers/internals/inline_evaluator.py
@@ -24,6 +24,7 @@ import re
 
 from mabel.data.readers.internals.inline_functions import FUNCTIONS
 from mabel.utils.dates import parse_iso
+from mabel.utils.token_labeler import QUOTED_TEXT
 from mabel.utils.token_labeler import TOKENS
 from mabel.utils.token_labeler import get_token_type
 
@@ -230,7 +231,9 @@ class TokenSet(list):
 
 class Evaluator:
     def __init__(self, proforma):
-        reg = re.compile(r"(\(|\)|,|\bAS\b)", re.IGNORECASE)
+        reg = re.compile(
+            r"(" + QUOTED_TEXT + r"|\(|\)|,|\bAS\b)", re.IGNORECASE | re.DOTALL
+        )
         tokens = [t.strip() for t in reg.split(proforma) if t.strip() not in ("", ",")]
         self.tokens = build(tokens)
         self._iter = None
-- 
2.43.0


From f0bc9b8e20759857d6ad41283e2082eb2cfc579e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:57 +0000
Subject: [PATCH 43/58] fix: date functions accept dates which have no time

---
 mabel/data/readers/internals/inline_functions.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/mabel/data/readers/internals/inline_functions.py b/mabel/data/readers/internals/inline_functions.py
index 0168559..684604f 100644
--- a/mabel/data/readers/internals/inline_functions.py
+++ b/mabel/data/readers/internals/inline_functions.py
@@ -52,7 +52,7 @@ def get_date(input):
     """
     Convert input to a datetime object and extract the Date part
     """
-    if isinstance(input, str):
+    if isinstance(input, str) or type(input) is datetime.date:
         input = parse_iso(input)
     if isinstance(input, (datetime.date, datetime.datetime)):
         return input.date()
@@ -63,7 +63,7 @@ def get_time(input):
     """
     Convert input to a datetime object and extract the Time part
     """
-    if isinstance(input, str):
+    if isinstance(input, str) or type(input) is datetime.date:
         input = parse_iso(input)
     if isinstance(input, (datetime.date, datetime.datetime)):
         return input.time()
@@ -85,7 +85,7 @@ def get_hour(input):
     """
     Convert input to a datetime object and extract the Hour part
     """
-    if isinstance(input, str):
+    if isinstance(input, str) or type(input) is datetime.date:
         input = parse_iso(input)
     if isinstance(input, (datetime.date, datetime.datetime)):
         return input.hour
@@ -96,7 +96,7 @@ def get_minute(input):
     """
     Convert input to a datetime object and extract the Minute part
     """
-    if isinstance(input, str):
+    if isinstance(input, str) or type(input) is datetime.date:
         input = parse_iso(input)
     if isinstance(input, (datetime.date, datetime.datetime)):
         return input.minute
@@ -107,7 +107,7 @@ def get_second(input):
     """
     Convert input to a datetime object and extract the Seconds part
     """
-    if isinstance(input, str):
+    if isinstance(input, str) or type(input) is datetime.date:
         input = parse_iso(input)
     if isinstance(input, (datetime.date, datetime.datetime)):
         return input.second
@@ -162,9 +162,9 @@ def add_days(start_date, day_count):
 
 
 def diff_days(start_date, end_date):
-    if isinstance(start_date, str):
+    if isinstance(start_date, str) or type(start_date) is datetime.date:
         start_date = parse_iso(start_date)
-    if isinstance(end_date, str):
+    if isinstance(end_date, str) or type(end_date) is datetime.date:
         end_date = parse_iso(end_date)
     if isinstance(start_date, (datetime.date, datetime.datetime)) and isinstance(
         end_date, (datetime.date, datetime.datetime)
-- 
2.43.0


From fae3ed8ecfc035524b28a0cb8aa7b8459e49f2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:57 +0000
Subject: [PATCH 44/58] fix: RIGHT can take no characters

---
 mabel/data/readers/internals/inline_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/data/readers/internals/inline_functions.py b/mabel/data/readers/internals/inline_functions.py
index 684604f..99e737d 100644
--- a/mabel/data/readers/internals/inline_functions.py
+++ b/mabel/data/readers/internals/inline_functions.py
@@ -213,7 +213,7 @@ FUNCTIONS = {
     "LEN": len,
     "STRING": to_string,
     "LEFT": lambda x, y: str(x)[: int(y)],
-    "RIGHT": lambda x, y: str(x)[-int(y) :],
+    "RIGHT": lambda x, y: str(x)[-int(y) :] if int(y) else "",
     "MID": lambda x, y, z: str(x)[int(y) :][: int(z)],
     "CONCAT": concat,
     # NUMBERS
-- 
2.43.0


From 276155e8c41a0aab33e5c8ba283389a6a0926c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:57 +0000
Subject: [PATCH 45/58] fix: MD5 hashes each value, not an equal value seen
 earlier

---
 mabel/data/readers/internals/inline_functions.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/mabel/data/readers/internals/inline_functions.py b/mabel/data/readers/internals/inline_functions.py
index 99e737d..a614bfb 100644
--- a/mabel/data/readers/internals/inline_functions.py
+++ b/mabel/data/readers/internals/inline_functions.py
@@ -6,7 +6,6 @@ These are the function definitions, the processor which uses these is in the
 """
 
 import datetime
-from functools import lru_cache
 from math import trunc
 
 import orjson
@@ -182,7 +181,6 @@ def parse_number(parser, coerce):
     return inner
 
 
-@lru_cache(8)
 def get_md5(item):
     import hashlib
 
-- 
2.43.0


From fff74442b952d16e50eed738c2fe7af51397c80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:57 +0000
Subject: [PATCH 46/58] fix: a function without parameters is an invalid
 expression

---
 mabel/data/internals/expression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/data/internals/expression.py b/mabel/data/internals/expression.py
index a00731e..66d4d79 100644
--- a/mabel/data/internals/expression.py
+++ b/mabel/data/internals/expression.py
@@ -95,7 +95,7 @@ class Expression(object):
 
             self.tokenizer.next()
             if (
-                not self.tokenizer.has_next
+                not self.tokenizer.has_next()
                 or self.tokenizer.next_token_type() != TOKENS.LEFTPARENTHESES
             ):
                 raise InvalidExpression("Functions should be followed by paranthesis")
-- 
2.43.0


From 3f7d582247b2a184d0285fc811be3f5e1451b11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:00 +0000
Subject: [PATCH 47/58] fix: an expression in parentheses right after a
 function is invalid

---
 mabel/data/internals/expression.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mabel/data/internals/expression.py b/mabel/data/internals/expression.py
index 66d4d79..f5cd597 100644
--- a/mabel/data/internals/expression.py
+++ b/mabel/data/internals/expression.py
@@ -117,7 +117,11 @@ class Expression(object):
 
             terminal1 = TreeNode(TOKENS.VARIABLE, "".join(collector))
 
-        if self.tokenizer.has_next() and self.tokenizer.next_token_type() == TOKENS.LEFTPARENTHESES:
+        if (
+            terminal1 is None
+            and self.tokenizer.has_next()
+            and self.tokenizer.next_token_type() == TOKENS.LEFTPARENTHESES
+        ):
             # If we have a ( then go looking for the matching )
 
             self.tokenizer.next()
-- 
2.43.0


From 2be846c6a355d2aa5fa6ae1216abe64471a688fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:37 +0000
Subject: [PATCH 48/58] fix: WHERE filters the rows of a subquery too

---
 mabel/data/readers/internals/sql_reader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mabel/data/readers/internals/sql_reader.py b/mabel/data/readers/internals/sql_reader.py
index 3cd2fb6..172af40 100644
--- a/mabel/data/readers/internals/sql_reader.py
+++ b/mabel/data/readers/internals/sql_reader.py
@@ -276,6 +276,8 @@ def SqlReader(sql_statement: str, **kwargs):
         # to get back a dataset - which we then use as the
         # dataset for the outer query.
         reader = SqlReader("".join(sql.dataset), **kwargs)
+        if sql.where_expression:
+            reader = reader.filter(sql.where_expression)
     else:
         reader = Reader(
             select=actual_select,
-- 
2.43.0


From 09f06279f553538b0551c01261f0b4f0ba0fb243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:37 +0000
Subject: [PATCH 49/58] fix: functions are evaluated over the rows of a
 subquery too

---
 mabel/data/readers/internals/sql_reader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mabel/data/readers/internals/sql_reader.py b/mabel/data/readers/internals/sql_reader.py
index 172af40..23daa31 100644
--- a/mabel/data/readers/internals/sql_reader.py
+++ b/mabel/data/readers/internals/sql_reader.py
@@ -276,6 +276,8 @@ def SqlReader(sql_statement: str, **kwargs):
         # to get back a dataset - which we then use as the
         # dataset for the outer query.
         reader = SqlReader("".join(sql.dataset), **kwargs)
+        if actual_select != "*":
+            reader = DictSet(map(Evaluator(actual_select), reader))
         if sql.where_expression:
             reader = reader.filter(sql.where_expression)
     else:
-- 
2.43.0


From e939a03592bdc5532331f2335497c199174ca135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:03 +0000
Subject: [PATCH 50/58] fix: AS gives each name the value of its own column

---
 mabel/data/readers/internals/sql_reader.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/mabel/data/readers/internals/sql_reader.py b/mabel/data/readers/internals/sql_reader.py
index 23daa31..f05cd70 100644
--- a/mabel/data/readers/internals/sql_reader.py
+++ b/mabel/data/readers/internals/sql_reader.py
@@ -327,16 +327,14 @@ def SqlReader(sql_statement: str, **kwargs):
         reader = reader.filter(sql.having)
 
     # SELECT clause
-    renames = {}  # type:ignore
-    for t in sql.select_evaluator.tokens:  # type:ignore
-        if t["as"]:
-            renames[get_function_name(t)] = t["as"]
+    renames = [
+        (get_function_name(t), t["as"])
+        for t in sql.select_evaluator.tokens  # type:ignore
+        if t["as"]
+    ]
 
     def _perform_renames(row):
-        for k, v in [(k, v) for k, v in row.items()]:
-            if k in renames:
-                row[renames[k]] = row.pop(k, row.get(renames[k]))
-        return row
+        return {**row, **{name: row[column] for column, name in renames if column in row}}
 
     if renames:
         reader = DictSet(map(_perform_renames, reader))
-- 
2.43.0


From 1ea399fd248fa457a6802cacbd07ed0adec90417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:03 +0000
Subject: [PATCH 51/58] fix: a function without parentheses is an invalid
 SELECT

---
 mabel/data/readers/internals/inline_evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/data/readers/internals/inline_evaluator.py b/mabel/data/readers/internals/inline_evaluator.py
index dbb92ce..7e4e8b5 100644
--- a/mabel/data/readers/internals/inline_evaluator.py
+++ b/mabel/data/readers/internals/inline_evaluator.py
@@ -95,7 +95,7 @@ def build(tokens):
         if token["type"] in (TOKENS.FUNCTION, TOKENS.AGGREGATOR):
             token["value"] = token["value"].upper()
 
-            if not ts.token()["type"] == TOKENS.LEFTPARENTHESES:
+            if ts.finished() or not ts.token()["type"] == TOKENS.LEFTPARENTHESES:
                 raise InvalidEvaluator("Invalid expression, missing expected `(` ")
             ts.step()  # step over the (
 
-- 
2.43.0


From 3e148e76091360b5d54dd75e705f579412f85332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:26 +0000
Subject: [PATCH 52/58] fix: loading a schema leaves the caller's dictionary
 alone

---
 mabel/data/validator/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mabel/data/validator/__init__.py b/mabel/data/validator/__init__.py
index a1ad905..2169e35 100644
--- a/mabel/data/validator/__init__.py
+++ b/mabel/data/validator/__init__.py
@@ -31,6 +31,8 @@ def schema_loader(
             definition = orjson.loads(definition)  # type:ignore
 
     if isinstance(definition, dict):
+        # the dictionary belongs to the caller, don't change it
+        definition = definition.copy()
         if definition.get("fields"):  # type:ignore
             definition["columns"] = definition.pop("fields")  # type:ignore
 
-- 
2.43.0


From 1c0de5ef3ea83189697aa1abd9214c9b0d4cef29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:03 +0000
Subject: [PATCH 53/58] fix: collections without duplicates are kept as lists

---
 mabel/data/internals/collected_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/data/internals/collected_set.py b/mabel/data/internals/collected_set.py
index 45a1ed3..2b94e5b 100644
--- a/mabel/data/internals/collected_set.py
+++ b/mabel/data/internals/collected_set.py
@@ -33,7 +33,7 @@ class CollectedSet:
             collections.setdefault(key, []).append(my_item)
         if dedupe:
             collections = {
-                k: {repr(sorted(i.items(), key=lambda e: str(e[0]))): i for i in v}.values()
+                k: list({repr(sorted(i.items(), key=lambda e: str(e[0]))): i for i in v}.values())
                 for k, v in collections.items()
             }
 
-- 
2.43.0


From 2e65057adc64c17047d144d06a31c03528bc4485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:03 +0000
Subject: [PATCH 54/58] fix: a partition filter value need not be text

---
 mabel/data/readers/internals/base_inner_reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mabel/data/readers/internals/base_inner_reader.py b/mabel/data/readers/internals/base_inner_reader.py
index bd3df08..7b50747 100644
--- a/mabel/data/readers/internals/base_inner_reader.py
+++ b/mabel/data/readers/internals/base_inner_reader.py
@@ -126,7 +126,8 @@ class BaseInnerReader(abc.ABC):
                             "`partition_filter` operation can only be equals (`=`)"
                         )
                     partition_filter_field = text.sanitize(partition_filter_field)
-                    partition_filter_value = text.sanitize(partition_filter_value)
+                    # the writer puts the text of the value in the path
+                    partition_filter_value = text.sanitize(str(partition_filter_value))
                     partition_filter = f"/by_{partition_filter_field}/{partition_filter_field}={partition_filter_value}/"
 
                     # If we can find the partition in the folder set, then prune to it
-- 
2.43.0


From 2a1754ac824082b38611586b2d70a3f48b097bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:17 +0000
Subject: [PATCH 55/58] fix: records read in several processes keep nulls,
 lists and nested records

---
 mabel/data/readers/internals/multiprocess_wrapper.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mabel/data/readers/internals/multiprocess_wrapper.py b/mabel/data/readers/internals/multiprocess_wrapper.py
index 94de6ba..02cb0a0 100644
--- a/mabel/data/readers/internals/multiprocess_wrapper.py
+++ b/mabel/data/readers/internals/multiprocess_wrapper.py
@@ -25,14 +25,14 @@ MAXIMUM_SECONDS_PROCESSES_CAN_RUN = 600
 def fix_dict(obj: dict) -> dict:
     def fix_fields(dt):
         dt_type = type(dt)
-        if dt_type in (int, float, bool, str):
+        if dt is None or dt_type in (int, float, bool, str):
             return dt
         if hasattr(dt, "mini"):
             return dt.mini.decode("UTF8")
         if dt_type == dict:
-            return str(fix_dict(dt))
+            return fix_dict(dt)
         if dt_type in (list, tuple, set):
-            return str([fix_fields(i) for i in dt])
+            return [fix_fields(i) for i in dt]
         if dt_type in (datetime.date, datetime.datetime):
             return dt.isoformat()
         if dt_type == bytes:
-- 
2.43.0


From 20e74350abaeb601f23c4263054929219f5c8bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:06:02 +0000
Subject: [PATCH 56/58] fix: ascii_table puts each value under its own column

---
 mabel/data/internals/display.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/data/internals/display.py b/mabel/data/internals/display.py
index a6feed2..1c63b0c 100644
--- a/mabel/data/internals/display.py
+++ b/mabel/data/internals/display.py
@@ -128,7 +128,7 @@ def ascii_table(dictset: Iterable[Dict[Any, Any]], limit: int = 5):
     for row in cache:
         result.append(
             "│"
-            + "│".join([str(format_value(v)).center(columns[k] + 2) for k, v in row.items()])
+            + "│".join([str(format_value(row.get(k, ""))).center(w + 2) for k, w in columns.items()])
             + "│"
         )
 
-- 
2.43.0


From 5c8b72f0a495f26dcc6551067d7b1e004550ed84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:06:02 +0000
Subject: [PATCH 57/58] fix: parse_iso answers None for numbers no date can
 hold

---
 mabel/utils/dates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mabel/utils/dates.py b/mabel/utils/dates.py
index 61ffe07..f280d0f 100644
--- a/mabel/utils/dates.py
+++ b/mabel/utils/dates.py
@@ -130,7 +130,7 @@ def parse_iso(
                         )
                     )
         return None
-    except (ValueError, TypeError):
+    except (ValueError, TypeError, OverflowError, OSError):
         return None
 
 
-- 
2.43.0


From a7f41cf9388dfb58ce843c62f786c748cb02c68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:25:33 +0000
Subject: [PATCH 58/58] fix: a quote that is never closed is refused, not
 dropped with what follows it

---
 mabel/utils/token_labeler.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mabel/utils/token_labeler.py b/mabel/utils/token_labeler.py
index f704712..8c10e61 100644
--- a/mabel/utils/token_labeler.py
+++ b/mabel/utils/token_labeler.py
@@ -302,6 +302,11 @@ class Tokenizer:
                     "Unable to determine quoted token boundaries, you may be missing a closing quote."
                 )
 
+        if looking_for_end_char:
+            raise TokenError(
+                "Unable to determine quoted token boundaries, you may be missing a closing quote."
+            )
+
     def _case_correction(self, tokens):
         for token in tokens:
             if get_token_type(token) in (
-- 
2.43.0

