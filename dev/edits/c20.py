M="data/internals/storage_classes/storage_class_memory.py"; D="data/internals/storage_classes/storage_class_disk.py"; Z="data/internals/storage_classes/storage_class_compressed_memory.py"
BAD=[
 ("C20",(Z,"        if batch:\n            compressed_batch","        if len(batch) > 1:\n            compressed_batch"),"last single lost"),
 ("C20",(Z,"                batch.clear()\n","                batch = batch[-1:]\n"),"last kept again"),
 ("C20",(Z,"                batch.clear()\n",""),"never cleared"),
 ("C20",(Z,"            self.length += 1\n","            self.length += len(batch)\n"),"length"),
 ("C20",(Z,"            batch.append(item)\n            self.length += 1\n            if","            self.length += 1\n            if len(batch) < BATCH_SIZE:\n                batch.append(item)\n            if"),"dropped at batch boundary"),
 ("C20",(Z,"            batch.append(item)\n            self.length += 1\n            if len(batch) >= BATCH_SIZE:","            self.length += 1\n            if item:\n                batch.append(item)\n            if len(batch) >= BATCH_SIZE:"),"falsy dropped"),
 ("C20",(Z,"                    yield record\n","                    if record is not None:\n                        yield record\n"),"none skipped"),
 ("C20",(Z,"for batch in self.batches:","for batch in reversed(self.batches):"),"reverse"),
 ("C20",(Z,"for record in records:","for record in records[1:]:"),"first of batch"),
 ("C20",(Z,"i % BATCH_SIZE","(i - 1) % BATCH_SIZE"),"place off"),
 ("C20",(Z,"requested_batch = i // BATCH_SIZE","requested_batch = (i + 1) // BATCH_SIZE"),"batch off"),
 ("C20",(Z,"yield batch[i % BATCH_SIZE]","yield batch[i % len(batch)]"),"mod of len"),
 ("C20",(Z,"self.dump_json(batch)))\n                self","self.dump_json(batch[:BATCH_SIZE - 1])))\n                self") if False else (Z,"            if len(batch) >= BATCH_SIZE:\n                compressed_batch = self.compressor.compress(self.dump_json(batch))","            if len(batch) >= BATCH_SIZE:\n                compressed_batch = self.compressor.compress(self.dump_json(batch[:-1]))"),"cut"),
 ("C20",(Z,"self.batches.append(bytearray(compressed_batch))\n\n","self.batches.insert(0, bytearray(compressed_batch))\n\n"),"tail first"),
 ("C20",(D,"                    buffer = bytearray()\n            if","                    pass\n            if"),"not reset"),
 ("C20",(D,"                    f.write(buffer)\n                    buffer = bytearray()","                    buffer = bytearray()"),"not written"),
 ("C20",(D,"            if len(buffer) > 0:\n                f.write(buffer)\n","            if len(buffer) > BUFFER_SIZE:\n                f.write(buffer)\n"),"tail lost"),
 ("C20",(D,"        self.length += 1\n","        self.length += 2\n"),"length"),
 ("C20",(D,"        self.length += 1\n",""),"length not"),
 ("C20",(D,"        self.length = -1\n","        self.length = 0\n"),"length of nothing"),
 ("C20",(D,"enumerate(iterator)","enumerate(iterator, 1)"),"length from 1"),
 ("C20",(D,"                if len(buffer) > (BUFFER_SIZE):\n                    f.write(buffer)\n                    buffer = bytearray()","                if len(buffer) > (BUFFER_SIZE):\n                    f.write(buffer)\n                    buffer = bytearray()\n                    continue\n                if not row:\n                    break"),"break"),
 ("C20",(D,"        if self.length == 0:","        if self.length < 0:"),"empty"),
 ("C20",(D,"                line = mmap_obj.readline()\n                while line:\n                    yield line\n                    line = mmap_obj.readline()","                line = mmap_obj.readline()\n                while line:\n                    line = mmap_obj.readline()\n                    yield line"),"first skipped"),
 ("C20",(D,"for i, line in enumerate(reader, min_location):","for i, line in enumerate(reader):"),"place"),
 ("C20",(D,"for i in range(min_location):","for i in range(min_location + 1):"),"skip more"),
 ("C20",(D,"if i == max_location:","if i == min_location:"),"stops early"),
 ("C20",(D,"                yield self.parse_json(line)\n\n","                if len(line) > 3:\n                    yield self.parse_json(line)\n\n"),"short lines skipped"),
 ("C20",(M,"self.data = list(iterator)","self.data = [r for r in iterator if r]"),"falsy"),
 ("C20",(M,"self.length = len(self.data)","self.length = len(self.data) - 1"),"length") ,
 ("C20",(M,"yield from self.data\n","yield from filter(None, self.data)\n"),"falsy on read"),
 ("C20",(M,"yield from self.data\n","yield from self.data[1:]\n"),"first"),
 ("C20",(M,"self.data[l] for l","self.data[l - 1] for l"),"place"),
 ("C20",(M,"        self.iterator = self._inner_reader()\n        return self.iterator\n\n    def __next","        if not self.iterator:\n            self.iterator = self._inner_reader()\n        return self.iterator\n\n    def __next"),"not restarted"),
 ("C20",(D,"        self.iterator = iter(self._inner_reader())\n        return self.iterator\n\n    def __next","        if not self.iterator:\n            self.iterator = iter(self._inner_reader())\n        return self.iterator\n\n    def __next"),"not restarted disk"),
]
GOOD=[
 ((Z,"        batch = []\n        for item in iterable:\n            batch.append(item)\n            self.length += 1\n            if len(batch) >= BATCH_SIZE:\n                compressed_batch = self.compressor.compress(self.dump_json(batch))\n                self.batches.append(bytearray(compressed_batch))\n                batch.clear()\n\n        if batch:\n            compressed_batch = self.compressor.compress(self.dump_json(batch))\n            self.batches.append(bytearray(compressed_batch))\n",
     "        batch = []\n        for item in iterable:\n            batch.append(item)\n            self.length += 1\n            if len(batch) >= BATCH_SIZE:\n                self._flush(batch)\n                batch = []\n\n        if len(batch) > 0:\n            self._flush(batch)\n"),
     (Z,"    def _inner_reader(","    def _flush(self, batch):\n        self.batches.append(bytearray(self.compressor.compress(self.dump_json(batch))))\n\n    def _inner_reader("),"flush helper"),
 ((Z,"                for record in records:\n                    yield record\n","                yield from records\n"),"yield from"),
 ((Z,"        for item in iterable:\n            batch.append(item)\n            self.length += 1\n","        for count, item in enumerate(iterable, start=1):\n            batch.append(item)\n            self.length = count\n"),"enumerate"),
 ((D,"                if hasattr(row, \"mini\"):\n                    buffer.extend(row.mini + b\"\\n\")\n                else:\n                    buffer.extend(self.dump_json(row) + b\"\\n\")","                line = row.mini if hasattr(row, \"mini\") else self.dump_json(row)\n                buffer.extend(line + b\"\\n\")"),"ternary"),
 ((D,"                if hasattr(row, \"mini\"):\n                    buffer.extend(row.mini + b\"\\n\")\n                else:\n                    buffer.extend(self.dump_json(row) + b\"\\n\")","                line = row.mini if hasattr(row, \"mini\") else self.dump_json(row)\n                buffer += line\n                buffer += b\"\\n\""),"iadd"),
 ((D,"                if len(buffer) > (BUFFER_SIZE):\n                    f.write(buffer)\n                    buffer = bytearray()\n","                if len(buffer) > BUFFER_SIZE:\n                    f.write(buffer)\n                    buffer.clear()\n"),(D,"            if len(buffer) > 0:\n                f.write(buffer)\n","            f.write(buffer)\n"),"clear; always written"),
 ((D,"                line = mmap_obj.readline()\n                while line:\n                    yield line\n                    line = mmap_obj.readline()","                yield from iter(mmap_obj.readline, b\"\")"),"iter sentinel"),
 ((D,"            for line in self._read_file():\n                yield self.parse_json(line)\n","            yield from map(self.parse_json, self._read_file())\n"),"map"),
 ((D,"                while line:\n                    yield line\n                    line = mmap_obj.readline()","                while True:\n                    if not line:\n                        break\n                    yield line\n                    line = mmap_obj.readline()"),"while true"),
 ((M,"self.data = list(iterator)","self.data = [item for item in iterator]"),"comprehension"),
 ((M,"            yield from self.data\n","            for item in self.data:\n                yield item\n"),"for"),
 ((M,"yield from [self.data[l] for l in locations]","for l in locations:\n                yield self.data[l]"),"for places"),
 ((D,"            for i in range(min_location):\n                next(reader)\n\n            for i, line in enumerate(reader, min_location):\n                if i in locations:\n                    yield self.parse_json(line)\n                    if i == max_location:\n                        return","            for i, line in enumerate(reader):\n                if i in locations:\n                    yield self.parse_json(line)\n                if i >= max_location:\n                    return"),"no skip"),
 ((D,"        self.length = -1\n","        self.length = 0\n"),(D,"for self.length, row in enumerate(iterator):","for row in iterator:\n                self.length += 1"),(D,"        self.length += 1\n        self.iterator","        self.iterator"),"count up"),
]
