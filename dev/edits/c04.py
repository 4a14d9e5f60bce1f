B="data/writers/internals/blob_writer.py"; W="data/writers/writer.py"; F="data/writers/batch_writer.py"; S="data/writers/stream_writer.py"; P="data/writers/internals/writer_pool.py"; D="data/writers/database_writer.py"
BAD=[
 ("C06",(S,"    def finalize(self, **kwargs):","    def _pool_size(self):\n        with lock:\n            return len(self.writer_pool.writers)\n\n    def finalize(self, **kwargs):"),(S,"                    self.writer_pool.remove_writer(blob_writer_identity)\n                # if we're","                self.writer_pool.remove_writer(blob_writer_identity)\n                    self._pool_size()\n                # if we're" if False else "                    self.writer_pool.remove_writer(blob_writer_identity)\n                    self._pool_size()\n                # if we're"),"reacquire"),
 ("C04",(S,"                identity += \"/BACKOUT/\"\n","                identity = self.dataset\n"),"backout dropped"),
 ("C04",(S,"                self.schema.validate(record)\n","                if isinstance(record, dict):\n                    self.schema.validate(record)\n"),"validate only dicts"),
 ("C04",(S,"                this_identity = identity\n                # do","                this_identity = self.dataset_template\n                # do"),"loop identity loses backout"),
 ("C04",(S,"text.sanitize(str(v))","str(v)"),"unsanitised"),
 ("C04",(S,"                if len(value) == 0:\n","                if len(value) == 0 and len(placeholders) > 1:\n"),"single empty list"),
 ("C04",(S,"                if not isinstance(value, list):\n                    value = [value]\n","                if value is None:\n                    return 0\n                if not isinstance(value, list):\n                    value = [value]\n"),"missing value dropped"),
 ("C04",(S,"                identity += \"/BACKOUT/\"\n","                return 0\n"),"invalid dropped"),
 ("C04",(S,"                return blob_writer.append(record)\n","                return blob_writer.append(record) if record else 0\n"),"empty record dropped"),
 ("C04",(S,"        if hasattr(record, \"dict\"):\n            record = record.dict()\n        if hasattr(record, \"dump_model\"):\n            record = record.dump_model()\n\n        if self.schema:","        if self.schema:"),(S,"        with lock:\n            # get the placeholders","        if hasattr(record, \"dict\"):\n            record = record.dict()\n        with lock:\n            # get the placeholders"),"validate before convert"),
 ("C05",(W,"self.schema.validate(record)","self.schema.validate(record) if self.records == 0 else None"),"validate first only"),
 ("C05",(D,"        if self.expectations:\n            import","        if self.expectations and self.records_in_buffer:\n            import"),"expectations skipped first"),
 ("C06",(S,"        with lock:\n            # get","        if True:\n            # get"),"append unlocked"),
 ("C06",(S,"            time.sleep(0.1)","                time.sleep(0.1)"),"sleep under lock"),
 ("C06",(S,"        with lock:\n            for blob_writer_identity in self.writer_pool.writers:","        with threading.Lock():\n            for blob_writer_identity in self.writer_pool.writers:"),"private lock"),
 ("C06",(S,"        self.run_pool_attendant = True\n        self.thread.start()\n","        self.thread.start()\n        self.run_pool_attendant = True\n"),"start first"),
 ("C06",(S,"        self.run_pool_attendant = False\n        failure","        failure"),"attendant never stops"),
 ("C06",(S,"        while self.run_pool_attendant:\n            with lock:","        while self.run_pool_attendant:\n            stale = self.writer_pool.get_stale_writers(self.idle_timeout_seconds)\n            with lock:"),(S,"                for blob_writer_identity in self.writer_pool.get_stale_writers(\n                    self.idle_timeout_seconds\n                ):","                for blob_writer_identity in stale:"),"stale computed outside lock"),
 ("C06",(S,"                # get the blob writer and save the record\n" if False else "                blob_writer = self.writer_pool.get_writer(this_identity)\n                blob_writer.append(record)\n                writes += 1\n\n        return writes","                blob_writer = self.writer_pool.get_writer(this_identity)\n                writes += 1\n\n        blob_writer.append(record)\n        return writes"),"append after lock"),
 ("C07",(P,"w[\"identity\"] == identity","w[\"identity\"].startswith(identity)"),"prefix identity"),
 ("C07",(P,"            writer[\"last_access\"] = time.time()\n",""),"no access refresh"),
 ("C07",(P,"            self.writers.append(writer)\n","            if len(self.writers) < self.pool_size:\n                self.writers.append(writer)\n"),"not pooled over capacity"),
 ("C07",(P,"                writer.get(\"writer\").commit()\n                self.writers = [w for w in self.writers if w.get(\"identity\") != identity]\n","                self.writers = [w for w in self.writers if w.get(\"identity\") != identity]\n                writer.get(\"writer\").commit()\n"),"remove before commit"),
 ("C07",(P,"                self.writers = [w for w in self.writers if w.get(\"identity\") != identity]\n","                self.writers.remove(writer)\n"),"remove in place"),
 ("C07",(P,"            [self.remove_writer(writer.get(\"identity\")) for writer in self.writers]\n            self.writers = []","            self.writers = []"),"close drops"),
 ("C07",(P,"reverse=False","reverse=True"),"MRU"),
 ("C07",(P,"row.get(\"last_access\")","row.get(\"identity\")"),"sort by identity"),
 ("C07",(P,"max(len(self.writers) - self.pool_size, 0)","len(self.writers) - self.pool_size"),"negative"),
 ("C07",(P,"now - writer.get(\"last_access\") > seconds","now - writer.get(\"last_access\") < seconds"),"fresh is stale"),
 ("C07",(P,"BlobWriter(dataset=identity, **self.kwargs)","BlobWriter(dataset=identity.lower(), **self.kwargs)"),"dataset lower"),
]
GOOD=[
 ((S,"    def append(self, record: dict):","    def append(self, record: dict):\n        lock.acquire()\n        try:\n            return self._append(record)\n        finally:\n            lock.release()\n\n    def _append(self, record: dict):"),(S,"        with lock:\n            # get","        if True:\n            # get"),"acquire/release form"),
 ((S,"        with lock:\n            # get the placeholders from the dataset name\n            placeholders","        with lock:\n            pool = self.writer_pool\n            # get the placeholders from the dataset name\n            placeholders"),(S,"                blob_writer = self.writer_pool.get_writer(this_identity)","                blob_writer = pool.get_writer(this_identity)"),"pool local"),
 ((S,"            for placeholder in placeholders:\n                value = record.get(placeholder)\n                if not isinstance(value, list):\n                    value = [value]\n                # an empty list has no combinations, the record would be lost\n                if len(value) == 0:\n                    value = [None]\n                values.append(value)\n","            for placeholder in placeholders:\n                values.append(self._partition_values(record, placeholder))\n"),(S,"    def finalize(self, **kwargs):","    @staticmethod\n    def _partition_values(record, placeholder):\n        found = record.get(placeholder)\n        if isinstance(found, list):\n            return found or [None]\n        return [found]\n\n    def finalize(self, **kwargs):"),"values helper"),
 ((S,"            try:\n                self.schema.validate(record)\n            except Exception as e:\n                identity += \"/BACKOUT/\"\n                get_logger().warning(\n                    f\"Schema Validation Failed ({e}) - message being written to {identity}\"\n                )\n","            identity = self._route(record, identity)\n"),(S,"    def finalize(self, **kwargs):","    def _route(self, record, identity):\n        try:\n            self.schema.validate(record)\n        except Exception as e:\n            identity = f\"{identity}/BACKOUT/\"\n            get_logger().warning(f\"Schema Validation Failed ({e}) - message being written to {identity}\")\n        return identity\n\n    def finalize(self, **kwargs):"),"route helper"),
 ((P,"        try:\n            # if a writer with the specified identity exists then return it\n            # update the last_access status so we can determin the LRU\n            writer = [w for w in self.writers if w[\"identity\"] == identity].pop()\n            writer[\"last_access\"] = time.time()\n            return writer[\"writer\"]\n        except IndexError:\n            # if no writer was found, create a new one and add to the pool.\n            # we don't check if we're overflowing before doing this,\n            # pool_size is managed by the background thread in the Writer\n            writer = self.create_writer(identity)\n            self.writers.append(writer)\n            return writer.get(\"writer\")\n","        for writer in self.writers:\n            if writer[\"identity\"] == identity:\n                writer[\"last_access\"] = time.time()\n                return writer[\"writer\"]\n        writer = self.create_writer(identity)\n        self.writers.append(writer)\n        return writer[\"writer\"]\n"),"get_writer loop"),
 ((P,"        def _inner_sort_key(row):\n            return row.get(\"last_access\")\n\n        # evict the oldest items, evicting can be time consuming so we're going to limit the\n        evictees = sorted(self.writers, key=_inner_sort_key, reverse=False)[\n            : max(len(self.writers) - self.pool_size, 0)\n        ][: self.pool_size]\n","        excess = len(self.writers) - self.pool_size\n        if excess <= 0:\n            return []\n        evictees = sorted(self.writers, key=lambda row: row[\"last_access\"])\n        evictees = evictees[: min(excess, self.pool_size)]\n"),"nominate rewritten"),
 ((P,"        now = time.time()\n        stale_writers = [\n            writer.get(\"identity\")\n            for writer in self.writers\n            if now - writer.get(\"last_access\") > seconds_since_last_use\n        ]\n        return stale_writers\n","        limit = time.time() - seconds_since_last_use\n        stale = []\n        for writer in self.writers:\n            if writer[\"last_access\"] < limit:\n                stale.append(writer[\"identity\"])\n        return stale\n"),"stale loop"),
 ((P,"            writers = [w for w in self.writers if w.get(\"identity\") == identity]\n","            writers = list(filter(lambda w: w.get(\"identity\") == identity, self.writers))\n"),"filter form"),
 ((P,"            [self.remove_writer(writer.get(\"identity\")) for writer in self.writers]\n            self.writers = []","            for writer in list(self.writers):\n                self.remove_writer(writer[\"identity\"])\n            self.writers = []"),"close loop"),
 ((S,"        with lock:\n            for blob_writer_identity in self.writer_pool.writers:\n                try:","        with lock:\n            for blob_writer_identity in list(self.writer_pool.writers):\n                try:"),"finalize list"),
 ((S,"                # search for pool occupants who haven't had a write recently\n                for blob_writer_identity in self.writer_pool.get_stale_writers(\n                    self.idle_timeout_seconds\n                ):\n                    get_logger().debug(\n                        f\"Evicting {blob_writer_identity} from the writer pool due to inactivity - limit is {self.idle_timeout_seconds} seconds, poolsize={len(self.writer_pool.writers)}\"\n                    )\n                    self.writer_pool.remove_writer(blob_writer_identity)\n","                self._evict_stale()\n"),(S,"    def pool_attendant(self):","    def _evict_stale(self):\n        for name in self.writer_pool.get_stale_writers(self.idle_timeout_seconds):\n            self.writer_pool.remove_writer(name)\n\n    def pool_attendant(self):"),"evict helper"),
]
