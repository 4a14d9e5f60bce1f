W = "data/writers/"
WI = W + "internals/"
RI = "data/readers/internals/"
DI = "data/internals/"
SC = DI + "storage_classes/"
U = "utils/"
BAD = [
 ("C15", (U + "parameter_validator.py", 'toxic = [\n                        t for t in param["incompatible_with"] if t in entered_parameters.keys()\n                    ]', 'toxic = [t for t in param["incompatible_with"] if entered_parameters.get(t)]'), "toxic only if the other is true"),
 ("C15", (U + "parameter_validator.py", "my_rules += new_rules", "my_rules = new_rules + my_rules[len(new_rules):]"), "rules replaced"),
 ("C15", (U + "parameter_validator.py", "if param not in entered_parameters\n", "if param not in entered_parameters and param not in func_parameters\n"), "required ones have defaults"),
 ("C30", (RI + "sql_reader.py", 'if not dataset[0].isalpha():', 'if dataset[0].isdigit():'), "starts with no digit"),
 ("C30", (RI + "sql_reader.py", '''        if (
            not dataset.replace(".", "")
            .replace("/", "")
            .replace("-", "")
            .replace("_", "")
            .isalnum()
        ):''', '''        if not re.match(r"^[\\w./-]+$", dataset):'''), "dollar lets a line end through"),
 ("C30", (RI + "sql_reader.py", 'if ".." in dataset or "//" in dataset or "--" in dataset:', 'if dataset.startswith("..") or "/.." in dataset or "//" in dataset or "--" in dataset:'), "only leading dots"),
 ("C31", (RI + "sql_reader.py", 'self.limit = int(self.collector(labeler))', 'self.limit = abs(int(float(self.collector(labeler))))'), "limit of any number"),
 ("C31", (RI + "sql_reader.py", 'if labeler.next_token_value().upper() == "DISTINCT":', 'if labeler.next_token_value().upper().startswith("DISTINCT"):'), "distinct prefix"),
 ("C31", (RI + "sql_reader.py", 'if labeler.next_token_value().upper() not in SQL_PARTS:', 'if labeler.next_token_value().strip("\'").upper() not in SQL_PARTS:'), "keyword in quotes ends a clause"),
 ("C32", (RI + "sql_reader.py", "if sql.limit is not None:\n        reader = reader.take(sql.limit)", "if sql.limit and not sql.order_by:\n        reader = reader.take(sql.limit)"), "limit zero means none"),
 ("C32", (RI + "sql_reader.py", "if sql.having:\n        reader = reader.filter(sql.having)", "if sql.having and sql.group_by:\n        reader = reader.filter(sql.having)"), "having needs group by"),
 ("C32", (RI + "sql_reader.py", "if sql.where_expression:\n            reader = reader.filter(sql.where_expression)", "if sql.where_expression and not sql.group_by:\n            reader = reader.filter(sql.where_expression)"), "where of a grouped subquery"),
 ("C33", (RI + "inline_evaluator.py", 'str(token["value"])[1:-1],', 'str(token["value"]).strip("\\"\'"),'), "literal stripped of inner quotes"),
 ("C33", (RI + "inline_evaluator.py", 'if token_type == TOKENS.FUNCTION:\n        if not token["as"]:', 'if token_type == TOKENS.FUNCTION:\n        if not token["as"] or token["as"] in dict:'), "alias of an existing column ignored"),
 ("C34", (W + "database_writer.py", "        # flush the WAL into the database\n        self.commit()\n\n        lock = threading.Lock()\n        try:\n            lock.acquire(blocking=True, timeout=10)\n\n            self.inner_writer.finalize()\n", "        lock = threading.Lock()\n        try:\n            lock.acquire(blocking=True, timeout=10)\n\n            self.inner_writer.finalize()\n            # flush the WAL into the database\n            self.commit()\n"), "finalize before the flush"),
 ("C36", ("adapters/minio/minio_reader.py", "recursive=True", "recursive=not object_path.endswith('//')"), "sometimes not recursive"),
 ("C38", (DI + "records.py", "            items.append((new_key, value))", "            if value or value == 0:\n                items.append((new_key, value))"), "empty leaves dropped"),
 ("C38", (DI + "records.py", 'if hasattr(value, "items"):', 'if hasattr(value, "items") and value:'), "GOODish empty dict kept"),
 ("C41", (RI + "inline_functions.py", 'lambda x, y: str(x)[-int(y) :] if int(y) else ""', 'lambda x, y: str(x)[-int(y) :]'), "right of zero"),
 ("C41", (RI + "inline_functions.py", "return (end_date - start_date).days", "return int((end_date - start_date).total_seconds() / 86400)"), "difference cut towards zero"),
 ("C41", (RI + "inline_functions.py", 'if input_none', 'x'), "skip") if False else
 ("C41", (RI + "inline_functions.py", 'return int(input.strftime("%V"))', 'return int(input.strftime("%W"))'), "week not iso"),
 ("C20", (SC + "storage_class_compressed_memory.py", "        if batch:\n", "        if len(batch) > 1:\n"), "last one lost"),
 ("C20", (SC + "storage_class_disk.py", "if len(buffer) > 0:", "if len(buffer) > 0 and self.length > 0:"), "single row lost"),
 ("C20", (SC + "storage_class_disk.py", "for i in range(min_location):", "for i in range(min_location + (min_location > 0)):"), "one too far"),
 ("C21", (DI + "dictset.py", "return reduce(max, self.collect_list(key))", "return reduce(max, (v for v in self.collect_list(key) if v))"), "max of the truthy"),
 ("C21", (DI + "dictset.py", "return [record[key] for record in iter(self._iterator) if key in record]", "return [record[key] for record in iter(self._iterator) if record.get(key) is not None]"), "none not collected"),
 ("C22", (DI + "dictset.py", "values = [(c, item.get(c)) for c in columns if c in item]", "values = [item.get(c) for c in columns if c in item]"), "key without names"),
 ("C23", (DI + "group_by.py", 'if func == "AVG" and results.get(f"COUNT({col})"):', 'if func == "AVG" and results.get(f"SUM({col})"):'), "average zero is none"),
 ("C25", (DI + "dictset.py", "double_cache = max(take * 2, 1) + 1", "double_cache = min(max(take * 2, 1) + 1, 5000)"), "bounded cache"),
 ("C26", (DI + "display.py", '        htmlstring = htmlstring.replace("&", "&amp;")\n        for seq, esc in escapes.items():\n            htmlstring = htmlstring.replace(seq, esc)\n', '        for seq, esc in escapes.items():\n            htmlstring = htmlstring.replace(seq, esc)\n        htmlstring = htmlstring.replace("& ", "&amp; ")\n'), "amp last"),
 ("C24", (DI + "dictset.py", "return reduce(lambda x, y: x ^ y, hashed, seed)", "return reduce(lambda x, y: x ^ y, set(hashed), seed)"), "GOODish duplicates drop"),
 ("C16", (RI + "cursor.py", "for index in range(self.location + 1):", "for index in range(max(self.location, 1)):"), "one short"),
 ("C16", (RI + "cursor.py", "self.readable_blobs = sorted(readable_blobs)", "self.readable_blobs = sorted(readable_blobs, key=len)"), "sorted by length"),
 ("C17", (RI + "parallel_reader.py", "return []\n            decompressor", "raise NotImplementedError(ext)\n            decompressor"), "unknown raised") if False else
 ("C17", (RI + "parallel_reader.py", "record_iterator = self.reader.read_blob(blob_name)\n            # Decompress\n            record_iterator = decompressor(record_iterator)", "record_iterator = self.reader.read_blob(blob_name)\n            # Decompress\n            try:\n                record_iterator = list(decompressor(record_iterator))\n            except EOFError:\n                record_iterator = []"), "truncated blob is silently empty"),
 ("C43", ("data/readers/reader.py", "self.freshness_limit >= datetime.timedelta(\n                days=self.reader_class.days_stepped_back\n            ):", "self.freshness_limit >= datetime.timedelta(\n                days=self.reader_class.days_stepped_back - 1\n            ):"), "one day further"),
 ("C18", (RI + "base_inner_reader.py", 'if f"by_{partition_filter_field}" in list_of_partitions:', 'if any(p.startswith(f"by_{partition_filter_field}") for p in list_of_partitions):'), "prefix partition"),
 ("C18", (U + "dates.py", "int((end_date - start_date).total_seconds() // SECONDS_PER_HOUR)", "int((end_date - start_date).seconds // SECONDS_PER_HOUR)"), "seconds of the difference"),
 ("C11", (RI + "base_inner_reader.py", "as_ats = sorted(as_ats)", "as_ats = sorted(as_ats, key=lambda a: a[:14])"), "sorted by day"),
 ("C13", (RI + "base_inner_reader.py", 'if "BACKOUT" not in blob]', 'if "/BACKOUT/" not in blob or partition_less(blob)]'), "GOODish undefined") if False else
 ("C13", (RI + "base_inner_reader.py", 'if "BACKOUT" not in blob]', 'if not blob.endswith("BACKOUT/") and not blob.startswith("BACKOUT")]'), "only ends"),
 ("C01", (WI + "blob_writer.py", "write_buffer = zstandard.compress(self.buffer)", "write_buffer = zstandard.compress(self.buffer[: self.maximum_blob_size * 2])"), "cut to a size"),
 ("C01", (WI + "blob_writer.py", "        self.open_buffer()\n        return committed_blob_name", "        if committed_blob_name:\n            self.open_buffer()\n        return committed_blob_name"), "kept when unnamed"),
 ("C02", (W + "batch_writer.py", "        if has_failure:\n            self.seen_failures = True\n", "        self.seen_failures = has_failure\n"), "failure forgotten"),
 ("C03", (W + "stream_writer.py", "                    failure = err\n", "                    failure = failure and err\n"), "failure stays none"),
 ("C03", (W + "database_writer.py", "            raise Exception from e\n", "            if self.records_in_buffer:\n                raise Exception from e\n"), "quiet when flushed"),
 ("C04", (W + "stream_writer.py", "                if not isinstance(value, list):\n                    value = [value]\n", "                if not isinstance(value, list):\n                    value = [value] if value else []\n"), "GOODish falsy goes to None"),
 ("C05", (W + "writer.py", "        if self.schema:\n            self.schema.validate(record)\n", "        if self.schema and self.records % 100 == 0:\n            self.schema.validate(record)\n"), "sampled validation"),
 ("C06", (W + "stream_writer.py", "                blob_writer = self.writer_pool.get_writer(identity)\n                return blob_writer.append(record)\n", "                blob_writer = self.writer_pool.get_writer(identity)\n        if len(placeholders) == 0:\n            return blob_writer.append(record)\n        with lock:\n"), "appended outside"),
 ("C07", (WI + "writer_pool.py", 'self.writers = [w for w in self.writers if w.get("identity") != identity]', 'self.writers.pop(0)'), "wrong one let go"),
 ("C07", (WI + "writer_pool.py", 'if w["identity"] == identity].pop()', 'if w["identity"].lower() == identity.lower()].pop()'), "case blind"),
 ("C09", (WI + "base_inner_writer.py", 'blob_id = f"{time.time_ns():x}-{self._get_node()}"', 'blob_id = f"{time.time_ns() // 1000000:x}-{self._get_node()}"'), "milliseconds"),
 ("C09", (WI + "base_inner_writer.py", '    @lru_cache(1)\n    def _get_node(self):\n        return f"{uuid.getnode():x}-{os.getpid():x}"', '    @lru_cache(1)\n    def _get_node(self):\n        return f"{uuid.getnode():x}-{os.getpid() % 256:x}"'), "process cut"),
 ("C10", (WI + "base_inner_writer.py", 'if kwargs.get("format", "") in ["zstd", "parquet"]:', 'if kwargs.get("format", "") in ["zst", "parquet"]:'), "zstd named jsonl"),
 ("C14", ("data/readers/reader.py", "if str(dataset).startswith(prefix)]", "if str(dataset).startswith(prefix.rstrip('/'))]"), "prefix shortened"),
 ("C39", (DI + "collected_set.py", "if item.get(column) is not None]", "if item.get(column)]"), "zero left out"),
 ("C42", (DI + "collected_set.py", "my_item = item.copy()", "my_item = item if dedupe else item.copy()"), "pops from the record"),
 ("C27", (DI + "dnf_filters.py", "return any(evaluate(p, record) for p in predicate)", "return any(evaluate(p, record) for p in predicate if p)"), "GOODish empty and"),
 ("C27", (U + "text.py", ".match(str(x).lower())", ".search(str(x).lower())"), "GOODish anchored"),
 ("C27", (U + "text.py", '@lru_cache(4)', '@lru_cache(4)\n') if False else (U + "text.py", 'r"\\A" + safe_fragment', 'r"" + safe_fragment.lstrip("%")'), "leading percent lost"),
 ("C28", (DI + "expression.py", "return left or right", "return left if left is not None else right"), "or of false"),
 ("C29", (DI + "expression.py", "while self.tokenizer.has_next() and self.tokenizer.next_token_type() == TOKENS.OR:", "if self.tokenizer.has_next() and self.tokenizer.next_token_type() == TOKENS.OR:"), "one or"),
 ("C44", (RI + "multiprocess_wrapper.py", "import", "import"), "skip") if False else
 ("C08", ("adapters/disk/disk_writer.py", 'mode="wb"', 'mode="ab"'), "appends"),
]
# some of these keep the behaviour
GOOD = [
 ((DI + "records.py", "    return {k: record.get(k, None) for k in fields}", "    out = {}\n    for k in fields:\n        out[k] = record.get(k)\n    return out"), "select fields loop"),
 ((W + "database_writer.py", "            self.commit()\n            self.wal = orso.DataFrame(rows=[], schema=self.schema)\n            self.records_in_buffer = 0\n\n        return", "            self.commit()\n\n        return"), "no reset after commit"),
 ((SC + "storage_class_compressed_memory.py", "        batch = []\n        for item in iterable:\n            batch.append(item)\n            self.length += 1\n            if len(batch) >= BATCH_SIZE:\n                compressed_batch = self.compressor.compress(self.dump_json(batch))\n                self.batches.append(bytearray(compressed_batch))\n                batch.clear()\n\n        if batch:\n            compressed_batch = self.compressor.compress(self.dump_json(batch))\n            self.batches.append(bytearray(compressed_batch))\n", "        batch = []\n        for item in iterable:\n            batch.append(item)\n            self.length += 1\n            if len(batch) == BATCH_SIZE:\n                self._store(batch)\n                batch = []\n\n        if len(batch) != 0:\n            self._store(batch)\n"),
  (SC + "storage_class_compressed_memory.py", "    def _inner_reader(self, *loc", "    def _store(self, batch):\n        self.batches.append(bytearray(self.compressor.compress(self.dump_json(batch))))\n\n    def _inner_reader(self, *loc"), "store helper"),
 ((SC + "storage_class_compressed_memory.py", "                records = self.parse_json(self.decompressor.decompress(batch))\n                for record in records:\n                    yield record\n", "                yield from self.parse_json(self.decompressor.decompress(batch))\n"), "yield from batch"),
 ((RI + "decompressors.py", '    with lzma.open(stream, "rb") as file:  # type:ignore\n        yield from file\n', '    with lzma.open(stream, "rb") as file:  # type:ignore\n        for line in file:\n            if not line.strip():\n                continue\n            yield line\n'), "blank lines skipped"),
 ((RI + "decompressors.py", '    table = pq.read_table(stream)\n    yield from table.to_pylist()\n', '    source = pq.ParquetFile(stream)\n    for batch in source.iter_batches():\n        yield from batch.to_pylist()\n'), "by batches"),
 ((DI + "dictset.py", "                hashed_item = hash(repr(values))\n                if hashed_item not in hash_list:\n                    yield item\n                    hash_list[hashed_item] = True\n", "                key = str(values)\n                if key in seen:\n                    continue\n                seen.add(key)\n                yield item\n"), (DI + "dictset.py", "        hash_list = {}\n", "        seen = set()\n"), "a set of texts"),
 ((WI + "writer_pool.py", '        try:\n            # if a writer with the specified identity exists then return it\n            # update the last_access status so we can determin the LRU\n            writer = [w for w in self.writers if w["identity"] == identity].pop()\n            writer["last_access"] = time.time()\n            return writer["writer"]\n        except IndexError:\n            # if no writer was found, create a new one and add to the pool.\n            # we don\'t check if we\'re overflowing before doing this,\n            # pool_size is managed by the background thread in the Writer\n            writer = self.create_writer(identity)\n            self.writers.append(writer)\n            return writer.get("writer")\n', '        for pooled in self.writers:\n            if pooled["identity"] == identity:\n                pooled["last_access"] = time.time()\n                break\n        else:\n            pooled = self.create_writer(identity)\n            self.writers.append(pooled)\n        return pooled["writer"]\n'), "for else in the pool"),
 ((W + "stream_writer.py", "            for placeholder in placeholders:\n                value = record.get(placeholder)\n                if not isinstance(value, list):\n                    value = [value]\n                # an empty list has no combinations, the record would be lost\n                if len(value) == 0:\n                    value = [None]\n                values.append(value)\n", "            for placeholder in placeholders:\n                found = record.get(placeholder)\n                if isinstance(found, list):\n                    values.append(found or [None])\n                else:\n                    values.append([found])\n"), "or none"),
 ((W + "stream_writer.py", "                for k, v in zip(placeholders, values):\n                    this_identity = this_identity.replace(\"{\" + k + \"}\", text.sanitize(str(v)))\n", "                for k, v in zip(placeholders, values):\n                    safe = text.sanitize(str(v))\n                    this_identity = safe.join(this_identity.split(\"{\" + k + \"}\"))\n"), "split join"),
 ((W + "batch_writer.py", '        if has_failure:\n            get_logger().debug(f"Error found in the stack, not marking frame as complete.")\n            return -1\n\n        if self.seen_failures:\n            get_logger().debug(\n                f"Error previously seen in the stack, not marking frame as complete."\n            )\n            return -1\n\n        if self.records == 0 and not self.always_complete:', '        if self.seen_failures:\n            when = "" if has_failure else "previously "\n            get_logger().debug(f"Error {when}seen in the stack, not marking frame as complete.")\n            return -1\n\n        if not (self.records or self.always_complete):'), "one failure branch"),
 ((WI + "blob_writer.py", "                self.manifest[committed_blob_name] = summary\n\n", "                self._remember(committed_blob_name, summary)\n\n"), (WI + "blob_writer.py", "    def open_buffer(self):", "    def _remember(self, name, summary):\n        self.manifest[name] = summary\n\n    def open_buffer(self):"), "remember helper"),
 ((WI + "blob_writer.py", '        if self.format == "text":\n            if isinstance(record, bytes):\n                serialized = record + b"\\n"\n            elif isinstance(record, str):\n                serialized = record.encode() + b"\\n"\n            else:\n                serialized = str(record).encode() + b"\\n"\n        elif self.format == "flat":\n            serialized = orjson.dumps(flatten(record)) + b"\\n"  # type:ignore\n        elif hasattr(record, "mini"):\n            serialized = record.mini + b"\\n"  # type:ignore\n        else:\n            try:\n                serialized = orjson.dumps(record) + b"\\n"  # type:ignore\n            except TypeError:\n                serialized = json.dumps(record).encode() + b"\\n"\n', '        serialized = self._serialize(record) + b"\\n"\n'),
  (WI + "blob_writer.py", "    def _normalize_arrow_schema", '    def _serialize(self, record):\n        if self.format == "text":\n            if isinstance(record, bytes):\n                return record\n            return (record if isinstance(record, str) else str(record)).encode()\n        if self.format == "flat":\n            return orjson.dumps(flatten(record))\n        if hasattr(record, "mini"):\n            return record.mini\n        try:\n            return orjson.dumps(record)\n        except TypeError:\n            return json.dumps(record).encode()\n\n    def _normalize_arrow_schema'), "serialize helper"),
 ((RI + "base_inner_reader.py", "                cycle_blobs = list(self.get_blobs_at_path(path=cycle_path))\n\n                # Remove any BACKOUT data - this is essentially a DEAD LETTER queue\n                # so we don't want to include in when reading\n                cycle_blobs = [blob for blob in cycle_blobs if \"BACKOUT\" not in blob]\n", "                cycle_blobs = []\n                for found in self.get_blobs_at_path(path=cycle_path):\n                    # BACKOUT data is essentially a DEAD LETTER queue\n                    if \"BACKOUT\" in found:\n                        continue\n                    cycle_blobs.append(found)\n"), "loop instead of two lists"),
 ((RI + "base_inner_reader.py", "                        is_complete = lambda blobs: any(\n                            [blob for blob in blobs if as_at + \"/frame.complete\" in blob]\n                        )\n                        is_invalid = lambda blobs: any(\n                            [blob for blob in blobs if (as_at + \"/frame.ignore\" in blob)]\n                        )\n", "                        def is_complete(blobs):\n                            return any(as_at + \"/frame.complete\" in b for b in blobs)\n\n                        def is_invalid(blobs):\n                            for b in blobs:\n                                if as_at + \"/frame.ignore\" in b:\n                                    return True\n                            return False\n\n"), "functions instead of lambdas"),
 ((RI + "cursor.py", "        unread = [blob for blob in self.readable_blobs if blob not in self.read_blobs]\n        if len(unread) > 0:\n            self.partition = unread[0]\n            self.location = -1\n            return self.partition\n        return None\n", "        for blob in self.readable_blobs:\n            if blob not in self.read_blobs:\n                self.partition, self.location = blob, -1\n                return blob\n        return None\n"), "first unread by a loop"),
 ((RI + "cursor.py", "        for index in range(self.location + 1):\n            next(iterator, None)\n        return self.location + 1\n", "        start = self.location + 1\n        for _ in itertools.islice(iterator, start):\n            pass\n        return start\n"), (RI + "cursor.py", "import orjson\n", "import itertools\n\nimport orjson\n"), "islice"),
 ((RI + "parallel_reader.py", "            # Transform\n            record_iterator = map(self.columns, record_iterator)\n            # Filter\n            record_iterator = filter(self.filters, record_iterator)\n            # Reduce\n            record_iterator = self.reducer(record_iterator)\n            # Yield\n            yield from record_iterator\n", "            for record in self.reducer(self._wanted(record_iterator)):\n                yield record\n"), (RI + "parallel_reader.py", "    def __call__(self, blob_name, index_files):", "    def _wanted(self, records):\n        for record in records:\n            row = self.columns(record)\n            if self.filters(row):\n                yield row\n\n    def __call__(self, blob_name, index_files):"), "wanted helper"),
 (("data/readers/reader.py", "        supported_blobs = [b for b in blob_list if f\".{ b.split('.')[-1] }\" in KNOWN_EXTENSIONS]\n        readable_blobs = [\n            b\n            for b in supported_blobs\n            if KNOWN_EXTENSIONS[f\".{b.split('.')[-1]}\"][2] == EXTENSION_TYPE.DATA\n        ]\n", "        supported_blobs = []\n        readable_blobs = []\n        for b in blob_list:\n            extension = \".\" + b.rsplit(\".\", 1)[-1]\n            if extension not in KNOWN_EXTENSIONS:\n                continue\n            supported_blobs.append(b)\n            if KNOWN_EXTENSIONS[extension][2] == EXTENSION_TYPE.DATA:\n                readable_blobs.append(b)\n"), "one loop for both lists"),
 ((DI + "group_by.py", "            for func, col in aggregations:\n                if col != record[1]:\n                    continue\n\n                key = f\"{func}({col})\"\n\n                existing = collector[record[0]].get(key)\n                value = record[2]\n", "            group, column, seen = record\n            so_far = collector[group]\n            for func, col in [a for a in aggregations if a[1] == column]:\n                key = f\"{func}({col})\"\n\n                existing = so_far.get(key)\n                value = seen\n"), (DI + "group_by.py", "                collector[record[0]][key] = value\n\n        # the order of", "                so_far[key] = value\n\n        # the order of"), "unpacked"),
 ((DI + "display.py", "        htmlstring = htmlstring.replace(\"&\", \"&amp;\")\n        for seq, esc in escapes.items():\n            htmlstring = htmlstring.replace(seq, esc)\n        return htmlstring\n", "        escapes[\"&\"] = \"&amp;\"\n        return \"\".join(escapes.get(c, c) for c in htmlstring)\n"), "character by character"),
 ((DI + "expression.py", "        andTerm1 = self.parse_and_term()\n        while self.tokenizer.has_next() and self.tokenizer.next_token_type() == TOKENS.OR:\n            self.tokenizer.next()\n            andTermX = self.parse_and_term()\n            andTerm = TreeNode(TOKENS.OR, None)\n            andTerm.left = andTerm1\n            andTerm.right = andTermX\n            andTerm1 = andTerm\n        return andTerm1\n", "        tree = self.parse_and_term()\n        while self.tokenizer.has_next() and self.tokenizer.next_token_type() == TOKENS.OR:\n            self.tokenizer.next()\n            tree = self._joined(TOKENS.OR, tree, self.parse_and_term())\n        return tree\n\n    def _joined(self, kind, left, right):\n        node = TreeNode(kind, None)\n        node.left = left\n        node.right = right\n        return node\n"), "joined helper"),
 ((DI + "expression.py", "        if treeNode.token_type == TOKENS.AND:\n            return left and right\n        if treeNode.token_type == TOKENS.OR:\n            return left or right\n\n        raise", "        if treeNode.token_type == TOKENS.OR:\n            if left:\n                return left\n            return right\n        if treeNode.token_type == TOKENS.AND:\n            if not left:\n                return left\n            return right\n\n        raise"), "and or as ifs"),
 ((DI + "dnf_filters.py", "        key, op, value = predicate\n        record_value = record.get(key, None)\n        return record_value is not None and OPERATORS[op.lower()](record_value, value)\n", "        key, op, value = predicate\n        compare = OPERATORS[op.lower()]\n        found = record.get(key)\n        if found is None:\n            return False\n        return compare(found, value)\n"), "early return"),
 ((RI + "sql_reader.py", "            elif labeler.peek().upper() == \"WHERE\":\n                labeler.next()\n                self.where_expression = self.collector(labeler)\n            elif labeler.peek().upper() == \"GROUP BY\":\n                labeler.next()\n                self.group_by = self.collector(labeler)\n            elif labeler.peek().upper() == \"HAVING\":\n                labeler.next()\n                self.having = self.collector(labeler)\n", "            elif labeler.peek().upper() in (\"WHERE\", \"GROUP BY\", \"HAVING\"):\n                clause = labeler.peek().upper()\n                labeler.next()\n                text = self.collector(labeler)\n                if clause == \"WHERE\":\n                    self.where_expression = text\n                elif clause == \"HAVING\":\n                    self.having = text\n                else:\n                    self.group_by = text\n"), "three clauses at once"),
 ((RI + "sql_reader.py", "    # HAVING clause\n    # if we have a HAVING clause, filter the grouped data by it\n    if sql.having:\n        reader = reader.filter(sql.having)\n\n    # SELECT clause\n    renames = [\n        (get_function_name(t), t[\"as\"])\n        for t in sql.select_evaluator.tokens  # type:ignore\n        if t[\"as\"]\n    ]\n", "    # SELECT clause\n    renames = []\n    for t in sql.select_evaluator.tokens:  # type:ignore\n        if t[\"as\"]:\n            renames.append((get_function_name(t), t[\"as\"]))\n\n    # HAVING clause\n    # if we have a HAVING clause, filter the grouped data by it\n    if sql.having:\n        reader = reader.filter(sql.having)\n"), "having after the names"),
 ((RI + "inline_functions.py", "    if isinstance(input, str):\n        input = parse_iso(input)\n    if isinstance(input, (datetime.date, datetime.datetime)):\n        return input.year\n    return None  #\n", "    moment = _moment(input)\n    return None if moment is None else moment.year\n\n\ndef _moment(value):\n    if isinstance(value, str):\n        value = parse_iso(value)\n    if isinstance(value, datetime.date):\n        return value\n    return None\n"), "moment helper"),
 ((RI + "multiprocess_wrapper.py", "import", "import"), "skip") if False else
 ((U + "dates.py", "    for n in range(\n        int((end_date - start_date).total_seconds() // SECONDS_PER_HOUR)  # type:ignore\n        + 1  # type:ignore\n    ):  # type:ignore\n        yield start_date + datetime.timedelta(hours=n)  # type:ignore\n", "    hours = int((end_date - start_date).total_seconds() // SECONDS_PER_HOUR)\n    one_hour = datetime.timedelta(hours=1)\n    for n in range(hours + 1):\n        yield start_date + n * one_hour\n"), "n times an hour"),
]
