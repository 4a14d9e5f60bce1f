F = "data/writers/database_writer.py"
BASE = "adapters/database/base_database_writer.py"
BAD = [
 ("C34", (F, "                self.inner_writer.commit(self.wal)\n", "                batch, self.wal = self.wal, orso.DataFrame(rows=[], schema=self.schema)\n                self.inner_writer.commit(batch)\n"), "batch dropped before the inner commit"),
 ("C34", (F, "            finally:\n                lock.release()\n\n            self.wal = orso.DataFrame(rows=[], schema=self.schema)\n            self.records_in_buffer = 0\n", "            finally:\n                lock.release()\n                self.wal = orso.DataFrame(rows=[], schema=self.schema)\n                self.records_in_buffer = 0\n"), "batch cleared whatever the commit did"),
 ("C34", (F, "                self.inner_writer.commit(self.wal)\n", "                self.inner_writer.commit(self.wal.head(BATCH_SIZE))\n"), "only the head of the batch is handed over"),
 ("C34", (F, "        # flush the WAL into the database\n        self.commit()\n", "        # flush the WAL into the database\n        if self.records_in_buffer > 1:\n            self.commit()\n"), "a last single record is not flushed"),
 ("C34", (F, "        if self.wal.rowcount >= BATCH_SIZE:\n            self.commit()\n", "        if self.wal.rowcount >= BATCH_SIZE:\n            if self.records_in_buffer > BATCH_SIZE:\n                self.commit()\n"), "full batch dropped"),
 ("C34", (F, "        if len(self.wal) > 0:\n", "        if len(self.wal) > 1:\n"), "a single record is never committed"),
 ("C34", (F, "            self.wal = orso.DataFrame(rows=[], schema=self.schema)\n            self.records_in_buffer = 0\n\n    def finalize", "            self.records_in_buffer = 0\n\n    def finalize"), "commit leaves the batch in place"),
 ("C34", (F, "        self.wal.append(record)\n        self.records_in_buffer += 1\n        self.records += 1\n        # if", "        self.records_in_buffer += 1\n        self.records += 1\n        # if"), "record never buffered"),
 ("C34", (F, "            self.commit()\n            self.wal = orso.DataFrame(rows=[], schema=self.schema)\n            self.records_in_buffer = 0\n\n        return", "            try:\n                self.commit()\n            finally:\n                self.wal = orso.DataFrame(rows=[], schema=self.schema)\n                self.records_in_buffer = 0\n\n        return"), "append drops the batch when the commit fails"),
 ("C34", (F, "        # flush the WAL into the database\n        self.commit()\n\n        lock = threading.Lock()\n        try:\n            lock.acquire(blocking=True, timeout=10)\n\n            self.inner_writer.finalize()\n", "        lock = threading.Lock()\n        try:\n            lock.acquire(blocking=True, timeout=10)\n\n            self.inner_writer.finalize()\n            self.commit()\n"), "inner writer finalized before the last batch"),
 ("C34", (BASE, "        if self.finalizer and not self.finalized:\n", "        if self.finalizer:\n"), "finalizer run again"),
 ("C34", (BASE, "            self.finalizer(self)\n            self.logger.debug(\"Database Writer Finalizer\")\n        self.finalized = True\n", "            self.finalized = True\n            self.finalizer(self)\n            self.logger.debug(\"Database Writer Finalizer\")\n"), "failed finalizer counted as done"),
 ("C34", (F, "                self.inner_writer.commit(self.wal)\n", "                try:\n                    self.inner_writer.commit(self.wal)\n                except TimeoutError:\n                    self.inner_writer.commit(self.wal)\n                self.inner_writer.commit(self.wal)\n"), "batch handed over twice"),
]
GOOD = [
 ((F, "            self.commit()\n            self.wal = orso.DataFrame(rows=[], schema=self.schema)\n            self.records_in_buffer = 0\n\n        return", "            self.commit()\n\n        return"), "append relies on commit to reset"),
 ((F, "        if len(self.wal) > 0:\n", "        if self.wal.rowcount != 0:\n"), "rowcount not zero"),
 ((F, "        if len(self.wal) > 0:\n            lock", "        if len(self.wal) >= 1:\n            lock"), "at least one"),
 ((F, "        if len(self.wal) > 0:\n            lock", "        pending = self.wal\n        if len(pending) > 0:\n            lock"), (F, "self.inner_writer.commit(self.wal)", "self.inner_writer.commit(pending)"), "local name for the batch"),
 ((F, "    def commit(self):\n        if len(self.wal) > 0:\n            lock", "    def _new_batch(self):\n        self.wal = orso.DataFrame(rows=[], schema=self.schema)\n        self.records_in_buffer = 0\n\n    def commit(self):\n        if len(self.wal) > 0:\n            lock"), (F, "                lock.release()\n\n            self.wal = orso.DataFrame(rows=[], schema=self.schema)\n            self.records_in_buffer = 0\n", "                lock.release()\n\n            self._new_batch()\n"), "reset extracted"),
 ((F, "            lock = threading.Lock()\n\n            try:\n                lock.acquire(blocking=True, timeout=10)\n\n                self.inner_writer.commit(self.wal)\n", "            lock = threading.Lock()\n\n            lock.acquire(blocking=True, timeout=10)\n            try:\n                self.inner_writer.commit(dataframe=self.wal)\n"), "keyword, acquire outside the try"),
 ((F, "        if self.wal.rowcount >= BATCH_SIZE:\n", "        if not self.wal.rowcount < BATCH_SIZE:\n"), "negated comparison"),
 ((BASE, "        if self.finalizer and not self.finalized:\n            self.finalizer(self)\n            self.logger.debug(\"Database Writer Finalizer\")\n        self.finalized = True\n", "        if self.finalized:\n            return\n        if self.finalizer is not None:\n            self.finalizer(self)\n            self.logger.debug(\"Database Writer Finalizer\")\n        self.finalized = True\n"), "finalizer early return"),
]
