P="data/readers/internals/parallel_reader.py"; D="data/readers/internals/decompressors.py"; F="data/internals/dnf_filters.py"
DS="data/internals/dictset.py"; R="data/readers/reader.py"; RE="data/internals/records.py"; B="data/writers/internals/blob_writer.py"
I="data/writers/internals/base_inner_writer.py"
BAD=[
 ("C10",(P,'".jsonl": (decompressors.lines, parsers.json','".jsonl": (decompressors.lines, parsers.pass_thru'),"jsonl not parsed"),
 ("C10",(P,'".zstd": (decompressors.zstd','".zstd": (decompressors.lzma'),"zstd read as lzma"),
 ("C10",(P,'".jsonl": (decompressors.lines','".jsonl": (decompressors.block'),"jsonl as block"),
 ("C10",(B,'orjson.dumps(flatten(record)) + b"\\n"','orjson.dumps(flatten(record))'),"flat without newline"),
 ("C10",(B,'serialized = record.mini + b"\\n"','serialized = record.mini'),"mini without newline"),
 ("C10",(B,'serialized = json.dumps(record).encode() + b"\\n"','serialized = json.dumps(record, indent=2).encode() + b"\\n"'),"fallback over several lines"),
 ("C10",(B,'serialized = orjson.dumps(record) + b"\\n"','serialized = orjson.dumps(record, option=orjson.OPT_INDENT_2) + b"\\n"'),"indented"),
 ("C10",(B,'write_buffer = zstandard.compress(self.buffer)','write_buffer = bytes(self.buffer)'),"not compressed"),
 ("C19",(D,'file.read().split(b"\\n")[:-1]','file.read().split(b"\\n")[1:-1]'),"first dropped"),
 ("C19",(D,'yield from text.splitlines()','yield from text.splitlines()[:-1]'),"last dropped"),
 ("C19",(D,'yield from file\n','yield from file.read(1048576).splitlines()\n'),"only first MB"),
 ("C19",(D,'yield from table.to_pylist()','yield from table.slice(0, 100000).to_pylist()'),"first rows only"),
 ("C19",(D,'for line in decompressor(io.BytesIO(file)):','for line in decompressor(io.BytesIO(file[:65536])):'),"part of member"),
 ("C19",(D,'decompressor, parser, file_type = KNOWN_EXTENSIONS[ext]','decompressor, _, _ = KNOWN_EXTENSIONS[ext]\n                parser = KNOWN_EXTENSIONS[".json"][1]'),"member parsed as json"),
 ("C19",(P,'''            record_iterator = filter(self.filters, record_iterator)
''','''            if self.dnf_filter is not None:
                record_iterator = self.dnf_filter.filter_dictset(record_iterator)
'''),"only DNF part applied") if False else
 ("C19",(P,'''            record_iterator = filter(self.filters, record_iterator)
''','''            if self.columns == "*":
                record_iterator = filter(self.filters, record_iterator)
'''),"filtered only without select"),
 ("C19",(P,'record_iterator = filter(self.filters, record_iterator)','import itertools\n\n            record_iterator = itertools.takewhile(self.filters, record_iterator)'),"takewhile"),
 ("C19",(P,'record_iterator = filter(self.filters, record_iterator)','import itertools\n\n            record_iterator = itertools.filterfalse(self.filters, record_iterator)'),"negated"),
 ("C19",(P,'record_iterator = map(parser, record_iterator)','record_iterator = map(parser, filter(None, record_iterator))'),"empty lines dropped"),
 ("C19",(P,'def no_filter(x):\n    return True','def no_filter(x):\n    return bool(x)'),"no_filter drops empty"),
 ("C19",(F,'for record in dictset if evaluate(self.predicates, record))','for record in dictset if not evaluate(self.predicates, record))'),"dnf negated"),
 ("C19",(F,'for record in dictset if evaluate(self.predicates, record))','for record in dictset if record and evaluate(self.predicates, record))'),"empty records dropped"),
 ("C19",(F,'self.predicates = filters if filters else []','self.predicates = filters[:1] if filters else []'),"first predicate only"),
 ("C19",(DS,'''                    if q.evaluate(record):
                        yield record
''','''                    if not q.evaluate(record):
                        return
                    yield record
'''),"stops at the first rejected"),
 ("C19",(R,'''            self.filters = DnfFilters(filters)
''','''            self.filters = DnfFilters(filters[:1])
'''),"first filter only"),
 ("C19",(R,'''        elif isinstance(filters, (tuple, list)):
            self.filters''','''        elif isinstance(filters, list):
            self.filters'''),"tuple filter ignored"),
 ("C38",(RE,'items.append((new_key, value))','items.append((key, value))'),"leaf under own key"),
 ("C38",(RE,'        else:\n            items.append((new_key, value))','        elif value:\n            items.append((new_key, value))'),"falsy dropped"),
 ("C38",(RE,'separator=separator, parent_key=new_key','separator=separator, parent_key=key'),"chain lost"),
 ("C38",(RE,'flatten({str(k): v}, separator, new_key)','flatten({str(len(value)): v}, separator, new_key)'),"position lost"),
 ("C38",(RE,'flatten(dictionary=value, separator=separator, parent_key=new_key)','flatten(dictionary=value, parent_key=new_key)'),"separator lost"),
 ("C38",(RE,'new_key = str(parent_key) + separator + key if parent_key else key','new_key = str(parent_key) + key if parent_key else key'),"no separator"),
 ("C38",(RE,'for k, v in enumerate(value):','for k, v in enumerate(value[:10]):'),"ten elements") ,
]
GOOD=[
 ((D,'yield from file\n','for line in file:\n            yield line\n'),"lzma loop"),
 ((D,'yield from text.splitlines()','for line in text.splitlines():\n        yield line'),"lines loop"),
 ((D,'yield from file.read().split(b"\\n")[:-1]','content = file.read()\n        pieces = content.split(b"\\n")\n        yield from pieces[:-1]'),"zstd steps"),
 ((D,'yield from table.to_pylist()','rows = table.to_pylist()\n    yield from rows'),"parquet steps"),
 ((D,'with zipfile.ZipFile(stream, "r") as zip:\n        for file_name in zipfile.ZipFile.namelist(zip):','with zipfile.ZipFile(stream, "r") as zip:\n        for file_name in zip.namelist():'),"zip.namelist"),
 ((D,'for line in decompressor(io.BytesIO(file)):\n                    yield parser(line)','yield from map(parser, decompressor(io.BytesIO(file)))'),"zip map"),
 ((D,'            if ext in KNOWN_EXTENSIONS:\n                decompressor, parser, file_type = KNOWN_EXTENSIONS[ext]\n','            if ext not in KNOWN_EXTENSIONS:\n                continue\n            handlers = KNOWN_EXTENSIONS[ext]\n            if handlers:\n                decompressor, parser = handlers[0], handlers[1]\n'),"zip continue"),
 ((P,'''            record_iterator = map(parser, record_iterator)
''','''            record_iterator = (parser(line) for line in record_iterator)
'''),(P,'''            record_iterator = filter(self.filters, record_iterator)
''','''            record_iterator = (r for r in record_iterator if self.filters(r))
'''),"generators"),
 ((P,'''            record_iterator = filter(self.filters, record_iterator)
            # Reduce
            record_iterator = self.reducer(record_iterator)
            # Yield
            yield from record_iterator
''','''            record_iterator = filter(self.filters, record_iterator)
            for item in self.reducer(record_iterator):
                yield item
'''),"loop yield"),
 ((P,'def no_filter(x):\n    return True','no_filter = lambda x: True'),"no_filter lambda"),
 ((F,'yield from (record for record in dictset if evaluate(self.predicates, record))','for record in dictset:\n                if evaluate(self.predicates, record):\n                    yield record'),"dnf loop"),
 ((F,'yield from (record for record in dictset if evaluate(self.predicates, record))','yield from filter(self, dictset)'),"dnf filter builtin"),
 ((F,'''        if self.empty_filter:
            yield from dictset
        else:
            yield from (record for record in dictset if evaluate(self.predicates, record))''','''        for record in dictset:
            if not self.empty_filter and not evaluate(self.predicates, record):
                continue
            yield record'''),"dnf continue"),
 ((DS,'''                for record in dictset:
                    if q.evaluate(record):
                        yield record
''','''                yield from (record for record in dictset if q.evaluate(record))
'''),"dictset gen"),
 ((DS,'DnfFilters.filter_dictset(filter_set, iter(self._iterator))','filter_set.filter_dictset(iter(self._iterator))'),"bound method"),
 ((R,'''        if isinstance(filters, str):
            self.filters = Expression(filters)
        elif isinstance(filters, (tuple, list)):
            self.filters = DnfFilters(filters)
        else:
            self.filters = None
''','''        self.filters = None
        if isinstance(filters, str):
            self.filters = Expression(filters)
        if isinstance(filters, (tuple, list)):
            self.filters = DnfFilters(filters)
'''),"reader ifs"),
 ((RE,'''    items = []
    for key, value in dictionary.items():
        new_key = str(parent_key) + separator + key if parent_key else key
        if hasattr(value, "items"):
            items.extend(flatten(dictionary=value, separator=separator, parent_key=new_key).items())
        elif isinstance(value, list):
            for k, v in enumerate(value):
                items.extend(flatten({str(k): v}, separator, new_key).items())
        else:
            items.append((new_key, value))
    return dict(items)''','''    items = {}
    for key, value in dictionary.items():
        new_key = f"{parent_key}{separator}{key}" if parent_key else key
        if hasattr(value, "items"):
            items.update(flatten(value, separator, new_key))
        elif isinstance(value, list):
            for k, v in enumerate(value):
                items.update(flatten({str(k): v}, separator, new_key))
        else:
            items[new_key] = value
    return items'''),"flatten with a dict"),
 ((RE,'''        new_key = str(parent_key) + separator + key if parent_key else key
''','''        new_key = key
        if parent_key:
            new_key = separator.join([str(parent_key), key])
'''),"join"),
 ((RE,'items.extend(flatten({str(k): v}, separator, new_key).items())','nested = flatten({f"{k}": v}, separator=separator, parent_key=new_key)\n                items.extend(nested.items())'),"flatten nested var"),
 ((B,'''            if isinstance(record, bytes):
                serialized = record + b"\\n"
            elif isinstance(record, str):
                serialized = record.encode() + b"\\n"
            else:
                serialized = str(record).encode() + b"\\n"
''','''            if isinstance(record, bytes):
                serialized = record
            elif isinstance(record, str):
                serialized = record.encode()
            else:
                serialized = str(record).encode()
            serialized = serialized + b"\\n"
'''),"newline later"),
 ((B,'serialized = orjson.dumps(record) + b"\\n"','serialized = orjson.dumps(record, option=orjson.OPT_APPEND_NEWLINE)'),"append newline option"),
 ((P,'''KNOWN_EXTENSIONS = {
    ".txt"''','''LINES = decompressors.lines

KNOWN_EXTENSIONS = {
    ".txt"'''),(P,'".jsonl": (decompressors.lines,','".jsonl": (LINES,'),"alias decoder"),
]
