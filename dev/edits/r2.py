B="data/writers/internals/blob_writer.py"; W="data/writers/writer.py"; F="data/writers/batch_writer.py"; S="data/writers/stream_writer.py"; P="data/writers/internals/writer_pool.py"
D="data/writers/database_writer.py"; I="data/writers/internals/base_inner_writer.py"; K="adapters/disk/disk_writer.py"; M="adapters/minio/minio_writer.py"
R="data/readers/reader.py"; C="data/readers/internals/cursor.py"; BR="data/readers/internals/base_inner_reader.py"; PR="data/readers/internals/parallel_reader.py"
DS="data/internals/dictset.py"; DF="data/internals/dnf_filters.py"; G="data/internals/group_by.py"; E="data/internals/expression.py"; X="data/readers/internals/inline_evaluator.py"
T="utils/text.py"
BAD=[
 # writers
 ("C01",(B,"            self.buffer = bytearray()\n            self.byte_count = 0\n        self","            self.buffer.clear()\n            self.byte_count = 0\n        self"),"buffer shared between writers"),
 ("C01",(B,"        if self.records_in_buffer > 0:\n            lock","        if self.records_in_buffer > 1:\n            lock"),"one record is not enough"),
 ("C01",(B,"            self.commit()\n            self.open_buffer()\n\n        if isinstance","            self.commit()\n            self.open_buffer()\n            return self.records_in_buffer\n\n        if isinstance"),"record dropped on rollover"),
 ("C01",(B,"self.inner_writer.commit(\n                    byte_data=write_buffer,","self.inner_writer.commit(\n                    byte_data=write_buffer.strip(),"),"stripped payload"),
 ("C10",(B,"serialized = record.encode() + b\"\\n\"","serialized = record.encode()"),"text line not ended"),
 ("C02",(F,"        if has_failure:\n            self.seen_failures = True\n","        self.seen_failures = has_failure\n"),"failure forgotten"),
 ("C02",(F,"        final = super().finalize()\n\n        if has_failure:","        try:\n            final = super().finalize()\n        except OSError:\n            final = None\n\n        if has_failure:"),"commit failure swallowed"),
 ("C02",(F,"if self.records == 0 and not self.always_complete:","if self.records == 0 or not self.always_complete:"),"or"),
 ("C03",(W,"            raise e\n","            if not isinstance(e, OSError):\n                raise e\n"),"only some re-raised"),
 ("C03",(M,"        self.client.put_object(self.bucket, blob_name, io.BytesIO(byte_data), len(byte_data))\n","        try:\n            self.client.put_object(self.bucket, blob_name, io.BytesIO(byte_data), len(byte_data))\n        except ValueError:\n            return None\n"),"minio swallow"),
 ("C03",(S,"                    failure = err\n","                    failure = failure if isinstance(err, ValueError) else err\n"),"some failures forgotten"),
 ("C04",(S,"            value_combinations = {i for i in itertools.product(*values)}","            value_combinations = set(itertools.islice(itertools.product(*values), 10))"),"combinations capped"),
 ("C04",(S,"            value_combinations = {i for i in itertools.product(*values)}","            value_combinations = {i for i in zip(*values)}"),"zip for product"),
 ("C04",(S,"                    value = [value]\n                # an","                    value = [value]\n                value = value[:8]\n                # an"),"values capped"),
 ("C05",(W,"            self.schema.validate(record)\n","            self.schema.validate({k: v for k, v in record.items() if v is not None})\n"),"validates without nulls"),
 ("C05",(W,"        if self.expectations:\n            import","        if self.expectations and self.records < 1000:\n            import"),"expectations sampled"),
 ("C05",(D,"            de.evaluate_record(self.expectations, record)\n\n        self","            de.evaluate_record(self.expectations, record.copy() if self.records else {})\n\n        self"),"evaluates another record"),
 ("C07",(P,"w[\"identity\"] == identity","w[\"identity\"].rstrip(\"/\") == identity.rstrip(\"/\")"),"identities merged"),
 ("C07",(P,"w[\"identity\"] == identity","w[\"identity\"].lower() == identity.lower()"),"case merged"),
 ("C07",(P,"now - writer.get(\"last_access\") > seconds","now - writer.get(\"last_access\") < seconds"),"fresh ones"),
 ("C08",(K,"            return blob_name\n        except","            return path + str(stem) + str(ext)\n        except"),"basename returned"),
 ("C08",(K,"mode=\"wb\"","mode=\"ab\""),"append mode"),
 ("C08",(I,"        blob_id = f\"{time.time_ns():x}-{self._get_node()}\"\n        return self.filename.replace(STEM, f\"{blob_id}\")","        blob_id = f\"{time.time_ns():x}-{self._get_node()}\"\n        self.filename = self.filename.replace(STEM, f\"{blob_id}\")\n        return self.filename"),"template used up"),
 ("C09",(I,"{time.time_ns():x}","{time.time_ns() // 1000000000:x}"),"seconds only"),
 ("C09",(I,"-{self._get_node()}\"",'"'),"node dropped"),
 # readers
 ("C11",(BR,"as_ats = sorted(as_ats)\n","as_ats = sorted(as_ats, key=lambda a: a[:14])\n"),"by day only"),
 ("C11",(BR,"while not is_complete(partitioned_blobs) or is_invalid(partitioned_blobs):","while not is_complete(partitioned_blobs) and is_invalid(partitioned_blobs):"),"and for or"),
 ("C11",(BR,"if self._extract_as_at(blob) == as_at\n","if self._extract_as_at(blob) >= as_at\n"),"later frames too"),
 ("C13",(BR,"if \"BACKOUT\" not in blob]","if \"BACKOUT\" not in blob.split(\"/\")[-2]]"),"only the last folder"),
 ("C13",(BR,"if \"BACKOUT\" not in blob]","if not blob.startswith(\"BACKOUT\")]"),"starts with"),
 ("C14",(R,"str(dataset).startswith(prefix)","prefix in str(dataset)"),"contains prefix"),
 ("C14",(R,"    if valid_dataset_prefixes:\n","    if valid_dataset_prefixes and len(valid_dataset_prefixes) > 1:\n"),"single prefix ignored"),
 ("C14",(R,"    if inner_reader is None:\n        from","    dataset = dataset.strip(\"./\")\n    if inner_reader is None:\n        from"),"dataset changed after the check"),
 ("C16",(R,"enumerate(blob_reader, start=location)","enumerate(blob_reader)"),"counts from zero"),
 ("C16",(C,"        for index in range(self.location + 1):","        for index in range(self.location):"),"one record again"),
 ("C16",(C,"        return self.location + 1","        return self.location"),"location behind"),
 ("C16",(C,"        self.readable_blobs = sorted(readable_blobs)","        self.readable_blobs = list(readable_blobs)"),"order of the listing"),
 ("C17",(PR,"            logger.error(f\"{blob_name} had an error - {e}\\n{traceback.format_exc()}\")\n","            logger.error(f\"{e}\\n{traceback.format_exc()}\")\n"),"which blob is not said"),
 ("C18",(BR,"        self.end_date = max(start_date, end_date)","        self.end_date = max(start_date, end_date) - datetime.timedelta(seconds=1)"),"last day lost"),
 ("C18",(BR,"                    if partition_filter_op not in (\"=\", \"==\"):","                    if partition_filter_op != \"=\":"),"== refused"),
 ("C18",(BR,"        return sorted(blobs)","        return sorted(blobs)[:10000]"),"capped"),
 ("C19",(PR,"            record_iterator = filter(self.filters, record_iterator)\n","            record_iterator = filter(self.filters, filter(None, record_iterator))\n"),"empty records"),
 # dictset
 ("C19",(DS,"                    if func(item):","                    if item and func(item):"),"falsy items"),
 ("C25",(DS,"        if items == 0:\n            return\n","        if not items:\n            items = 1\n"),"take none"),
 ("C25",(DS,"if (count + 1) == items:","if (count + 1) >= items - 1:"),"one too few"),
 ("C21",(DS,"            return len(self._iterator)\n","            return len(self._iterator) or -1\n"),"empty is unknown"),
 ("C21",(DS,"yield {k: record.get(k, None) for k in columns}","yield {k: record.get(k) or None for k in columns}"),"falsy is none"),
 ("C21",(DS,"[record[key] for record in iter(self._iterator) if key in record]","[record[key] for record in iter(self._iterator) if record.get(key)]"),"falsy left out"),
 ("C22",(DS,"[(c, item.get(c)) for c in columns if c in item]","[(c, item.get(c)) for c in columns if item.get(c)]"),"falsy left out"),
 ("C22",(DS,"[(c, item.get(c)) for c in columns if c in item]","[item.get(c) for c in columns if c in item]"),"which column is forgotten"),
 ("C22",(G,"repr([record.get(column) for column in self._columns])","\"|\".join(str(record.get(column)) for column in self._columns)"),"joined text"),
 ("C23",(G,"    \"MAX\": max,","    \"MAX\": lambda x, y: max(x, y, key=str),"),"text order"),
 ("C23",(G,"                if col != record[1]:\n                    continue","                if col != record[1]:\n                    break"),"break"),
 ("C23",(G,"    \"COUNT\": lambda x, y: x + 1,","    \"COUNT\": lambda x, y: x + 1 if y else x,"),"falsy not counted"),
 ("C25",(DS,"                    del cache[take:]","                    del cache[take - 1 :]"),"one too few kept"),
 ("C25",(DS,"                x.get(column) is not None,","                bool(x.get(column)),"),"falsy first"),
 ("C25",(DS,"            cache.sort(key=safety_key(column), reverse=descending)\n            yield","            yield"),"not sorted last"),
 ("C27",(T,"    return re.compile(y).search(x) != None","    return re.compile(y).match(x) != None"),"match"),
 ("C27",(DF,"\"in\": lambda x, y: x in y","\"in\": lambda x, y: str(x) in str(y)"),"as text"),
 ("C27",(DF,"            return any(evaluate(p, record) for p in predicate)","            return any(evaluate(p, record) for p in predicate[:2])"),"first two alternatives"),
 ("C28",(E,"            return left and right\n","            return left and (right or right is None)\n"),"unknown is true"),
 ("C28",(E,"        if treeNode.token_type == TOKENS.NOT:\n            return not left\n","        if treeNode.token_type == TOKENS.NOT:\n            return left is not None and not left\n"),"not unknown"),
 ("C24",(DS,"ordered = map(lambda record: dict(sorted(record.items())), iter(self._iterator))","ordered = map(lambda record: record, iter(self._iterator))"),"fields not sorted"),
 ("C42",(G,"        aggregations = list(dict.fromkeys(aggregations))\n",""),"list added to"),
]
GOOD=[
 ((B,"        if len(self.buffer) > self.maximum_blob_size:","        if len(self.buffer) + len(serialized) > self.maximum_blob_size:"),"earlier rollover"),
 ((I,"        blob_id = f\"{time.time_ns():x}-{self._get_node()}\"\n        return self.filename.replace(STEM, f\"{blob_id}\")","        now = time.time_ns()\n        return self.filename.replace(STEM, \"-\".join([f\"{now:x}\", self._get_node()]))"),"joined name"),
 ((K,"            with open(blob_name, mode=\"wb\") as file:\n                file.write(byte_data)\n","            partial = f\"{blob_name}.{os.getpid()}.ignore\"\n            with open(partial, mode=\"wb\") as file:\n                file.write(byte_data)\n            os.replace(partial, blob_name)\n"),"replace"),
 ((BR,"        return sorted(blobs)","        blobs.sort()\n        return blobs"),"sort in place"),
 ((BR,"as_ats = sorted(as_ats)\n                        as_at = as_ats.pop()\n","as_ats = sorted(as_ats, reverse=True)\n                        as_at = as_ats.pop(0)\n"),(BR,"                                as_at = as_ats.pop()\n","                                as_at = as_ats.pop(0)\n"),"reverse"),
 ((DS,"            double_cache = max(take * 2, 1) + 1","            double_cache = take"),"cache smaller"),
 ((DS,"        return [record[key] for record in iter(self._iterator) if key in record]","        values = []\n        for record in iter(self._iterator):\n            if key in record:\n                values.append(record[key])\n        return values"),"loop"),
 ((E,"            return left and right\n","            return bool(left and right)\n"),"bool"),
 ((G,"                if col != record[1]:\n                    continue\n\n                key = f\"{func}({col})\"\n","                if col != record[1]:\n                    continue\n                key = \"{}({})\".format(func, col)\n"),"format"),
 ((S,"            value_combinations = {i for i in itertools.product(*values)}","            value_combinations = set(itertools.product(*values))"),"set"),
 ((DF,"        record_value = record.get(key, None)\n        return record_value is not None and OPERATORS[op.lower()](record_value, value)","        record_value = record.get(key)\n        if record_value is None:\n            return False\n        compare = OPERATORS[op.lower()]\n        return compare(record_value, value)"),"early out"),
 ((BR,"        self.start_date = min(start_date, end_date)\n        self.end_date = max(start_date, end_date)\n","        if end_date < start_date:\n            start_date, end_date = end_date, start_date\n        self.start_date = start_date\n        self.end_date = end_date\n"),"swap"),
 ((BR,"        self.start_date = min(start_date, end_date)\n        self.end_date = max(start_date, end_date)\n","        self.start_date, self.end_date = sorted([start_date, end_date])\n"),"sorted pair"),
 ((BR,"        start_date = dates.parse_iso(kwargs.get(\"start_date\")) or today\n","        start_date = dates.parse_iso(kwargs.get(\"start_date\"))\n        if start_date is None:\n            start_date = today\n"),"none today"),
 ((BR,"[blob for blob in cycle_blobs if \"BACKOUT\" not in blob]","[blob for blob in cycle_blobs if blob.find(\"BACKOUT\") == -1]"),"find"),
 ((BR,"[blob for blob in cycle_blobs if \"BACKOUT\" not in blob]","[blob for blob in cycle_blobs if \"BACKOUT\" not in blob.split(\"/\")]"),"components"),
]
