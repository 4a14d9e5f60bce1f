F = "data/internals/dictset.py"
BODY = '''        ordered = map(lambda record: dict(sorted(record.items())), iter(self._iterator))
        serialized = map(orjson.dumps, ordered)
        hashed = map(CityHash64, serialized)
        return reduce(lambda x, y: x ^ y, hashed, seed)
'''
BAD = [
 ("C24", (F, BODY, BODY.replace("x ^ y", "(x * 31) ^ y")), "order of the records"),
 ("C24", (F, BODY, BODY.replace("dict(sorted(record.items()))", "record")), "order of the fields"),
 ("C24", (F, BODY, BODY.replace("sorted(record.items())", "sorted(record.items(), key=lambda kv: str(kv[1]))")), "fields sorted by value"),
 ("C24", (F, BODY, BODY.replace("iter(self._iterator)", "itertools.islice(self._iterator, 1)")), "only the first record"),
 ("C24", (F, BODY, BODY.replace("dict(sorted(record.items()))", "sorted(record.keys())")), "values not hashed") if False else
 ("C24", (F, BODY, '''        result = seed
        for record in self._iterator:
            result = (result << 1) ^ CityHash64(orjson.dumps(dict(sorted(record.items()))))
        return result
'''), "loop, order of the records"),
 ("C24", (F, BODY, '''        return CityHash64(orjson.dumps([dict(sorted(record.items())) for record in self._iterator]))
'''), "hash of the whole list"),
 ("C24", (F, BODY, '''        return reduce(lambda x, y: x - y, (CityHash64(orjson.dumps(dict(sorted(r.items())))) for r in self._iterator), seed)
'''), "first record counts differently") if False else
 ("C24", (F, BODY, '''        hashes = [CityHash64(orjson.dumps(dict(sorted(r.items())))) for r in self._iterator]
        return reduce(lambda x, y: x - y, hashes) if hashes else seed
'''), "first record counts differently"),
]
GOOD = [
 ((F, BODY, '''        result = seed
        for record in self._iterator:
            result = result ^ CityHash64(orjson.dumps(dict(sorted(record.items()))))
        return result
'''), "loop"),
 ((F, BODY, '''        result = seed
        for record in self._iterator:
            fields = {name: record[name] for name in sorted(record)}
            result ^= CityHash64(orjson.dumps(fields))
        return result
'''), "loop, comprehension over sorted names"),
 ((F, BODY, BODY.replace("dict(sorted(record.items()))", "dict(sorted(record.items(), key=lambda kv: kv[0]))").replace("lambda x, y: x ^ y", "lambda x, y: y ^ x")), "key of the sort, operands swapped"),
 ((F, BODY, '''        hashed = (CityHash64(orjson.dumps(record, option=orjson.OPT_SORT_KEYS)) for record in self._iterator)
        for one in hashed:
            seed = seed ^ one
        return seed
'''), "sorted by the serializer"),
 ((F, BODY, '''        def _hash(record):
            return CityHash64(orjson.dumps(dict(sorted(record.items()))))

        return reduce(lambda x, y: x ^ y, [_hash(record) for record in self._iterator], seed)
'''), "inner function"),
]
