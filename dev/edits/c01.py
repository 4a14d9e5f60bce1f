B="data/writers/internals/blob_writer.py"
BAD=[
 ("C01",(B,"            lock = threading.Lock()\n","            lock = threading.Lock()\n            self.records_in_buffer = 0\n"),"counter reset before write (not lost: benign?)") ,
] [:0]+[
 ("C01",(B,"            finally:\n                lock.release()\n\n        self.open_buffer()\n","            finally:\n                lock.release()\n                self.open_buffer()\n"),"buffer cleared in finally"),
 ("C01",(B,"if self.records_in_buffer > 0:","if self.records_in_buffer > 1:"),"single record skipped"),
 ("C01",(B,"write_buffer = bytes(self.buffer)","write_buffer = bytes(self.buffer[:self.maximum_blob_size])"),"truncate"),
 ("C01",(B,"write_buffer = zstandard.compress(self.buffer)","write_buffer = zstandard.compress(self.buffer[:-1])"),"truncate zstd"),
 ("C01",(B,"        # write the record to the file\n        self.buffer.extend(serialized)\n        self.records_in_buffer += 1\n","        # write the record to the file\n        if len(serialized) < self.maximum_blob_size:\n            self.buffer.extend(serialized)\n        self.records_in_buffer += 1\n"),"oversize dropped"),
 ("C01",(B,"        if len(self.buffer) > self.maximum_blob_size:\n            self.commit()\n            self.open_buffer()\n","        if len(self.buffer) > self.maximum_blob_size:\n            self.open_buffer()\n"),"rollover no commit"),
 ("C01",(B,"        if self.wal.nbytes() > self.maximum_blob_size:\n            self.commit()\n            self.open_buffer()\n\n        return","        if self.wal.nbytes() > self.maximum_blob_size:\n            self.open_buffer()\n            self.commit()\n\n        return"),"open before commit"),
 ("C01",(B,"        self.wal.append(record)  # type:ignore\n",""),"parquet not appended"),
 ("C01",(B,"            self.buffer = bytearray()\n            self.byte_count = 0\n        self.records_in_buffer = 0","            self.byte_count = 0\n        self.records_in_buffer = 0"),"buffer not reset"),
 ("C01",(B,"        # write the record to the file\n        self.buffer.extend(serialized)\n","        # write the record to the file\n        self.buffer = bytearray(serialized)\n"),"replace"),
 ("C01",(B,"        self.buffer.extend(serialized)\n        self.records_in_buffer += 1\n","        self.buffer.extend(serialized)\n"),"counter not bumped"),
 ("C01",(B,"        self.open_buffer()\n        return committed_blob_name","        if committed_blob_name:\n            self.open_buffer()\n        return committed_blob_name"),"maybe not cleared"),
 ("C01",(B,"                    pytable = self.wal.arrow()\n","                    pytable = self.wal.arrow()\n                    self.open_buffer()\n"),"cleared before storage"),
 ("C01",(B,"                    try:\n                        summary","                    pytable = pytable.slice(0, 100000)\n                    try:\n                        summary"),"arrow slice"),
 ("C01",(B,"            if isinstance(record, bytes):\n                serialized = record + b\"\\n\"","            if isinstance(record, bytes):\n                serialized = b\"\\n\""),"text drop bytes"),
]
GOOD=[
 ((B,"                write_buffer = bytes(self.buffer)","                contents = self.buffer\n                    write_buffer = bytes(contents)".replace("                    write","                    write")),"x")
][:0]+[
 ((B,"        self.buffer.extend(serialized)\n        self.records_in_buffer += 1\n","        self.records_in_buffer = self.records_in_buffer + 1\n        self.buffer += serialized\n"),"reorder augassign"),
 ((B,"        if self.records_in_buffer > 0:\n            lock","        if self.records_in_buffer >= 1:\n            lock"),">=1"),
 ((B,"    def commit(self):\n        committed_blob_name = \"\"\n","    def _flush_needed(self):\n        return self.records_in_buffer != 0\n\n    def commit(self):\n        committed_blob_name = \"\"\n"),(B,"        if self.records_in_buffer > 0:\n            lock","        if self._flush_needed():\n            lock"),"helper predicate"),
 ((B,"            self.commit()\n            self.open_buffer()\n\n        return","            self.commit()\n\n        return"),"redundant open_buffer removed"),
 ((B,"    def text_append(self, record: dict = {}):\n","    def _store(self, serialized):\n        self.buffer.extend(serialized)\n        self.records_in_buffer += 1\n\n    def text_append(self, record: dict = {}):\n"),(B,"        # write the record to the file\n        self.buffer.extend(serialized)\n        self.records_in_buffer += 1\n","        self._store(serialized)\n"),"store helper"),
]
