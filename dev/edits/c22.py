T="data/internals/dictset.py"; G="data/internals/group_by.py"; K="data/internals/collected_set.py"
MAPV="                    v = record.get(column)  # ignore nulls\n                    if v is not None:\n                        yield (group_key, column, record[column])"
FOLD="                if existing not in (None, \"\"):\n                    # zeros are values, blanks aren't\n                    if value != \"\" or func == \"COUNT\":\n                        value = AGGREGATORS[func](existing, value)\n                    else:\n                        value = existing\n                elif func == \"COUNT\":\n                    # the COUNT needs seeding with 1, the next cycles are just\n                    # adding 1 to the last value.\n                    value = 1\n"
AVGADD="        aggregations = list(dict.fromkeys(aggregations))\n        for func, col in requested_aggs:\n            if func == \"AVG\":\n                for agg in ((\"SUM\", col), (\"COUNT\", col)):\n                    if agg not in aggregations:\n                        aggregations.append(agg)\n"
GK="            group_key: int = xxh3_64_intdigest(\n                repr([record.get(column) for column in self._columns]),\n                HASH_SEED,\n            )\n"
DED="                if columns:\n                    values = [(c, item.get(c)) for c in columns if c in item]\n                else:\n                    values = sorted(item.items(), key=lambda i: str(i[0]))\n                hashed_item = hash(repr(values))\n                if hashed_item not in hash_list:\n                    yield item\n                    hash_list[hashed_item] = True\n"
BAD=[
 ("C22",(T,"hash(repr(values))","hash(\"\".join([str(v) for _, v in values]))"),"joined"),
 ("C22",(T,"hash(repr(values))","hash(str([str(v) for _, v in values]))"),"values as text"),
 ("C22",(T,"hash(repr(values))","sum(hash(repr(v)) for v in values)"),"summed"),
 ("C22",(T,"hash(repr(values))","len(repr(values))"),"length"),
 ("C22",(T,"values = [(c, item.get(c)) for c in columns if c in item]","values = [item.get(c) for c in columns if c in item]"),"names lost"),
 ("C22",(T,"values = [(c, item.get(c)) for c in columns if c in item]","values = [item.get(c) for c in columns if item.get(c)]"),"falsy lost"),
 ("C22",(T,"values = [(c, item.get(c)) for c in columns if c in item]","values = {item.get(c) for c in columns}"),"set of values"),
 ("C22",(T,"values = [(c, item.get(c)) for c in columns if c in item]","values = sorted([str(item.get(c)) for c in columns])"),"sorted values"),
 ("C22",(T,"values = [(c, item.get(c)) for c in columns if c in item]","values = [(c, item.get(c)) for c in columns[:1]]"),"first column"),
 ("C22",(T,"values = sorted(item.items(), key=lambda i: str(i[0]))","values = list(item.items())"),"order matters"),
 ("C22",(T,"values = sorted(item.items(), key=lambda i: str(i[0]))","values = sorted(str(v) for v in item.values())"),"values only"),
 ("C22",(T,"values = sorted(item.items(), key=lambda i: str(i[0]))","values = sorted(item.keys())"),"keys only"),
 ("C22",(T,"                if hashed_item not in hash_list:\n                    yield item\n                    hash_list[hashed_item] = True\n","                if hashed_item not in hash_list:\n                    yield item\n                hash_list = {hashed_item: True}\n" if False else "                if hashed_item not in hash_list:\n                    yield item\n                    hash_list[repr(item)] = True\n"),"other key kept"),
 ("C22",(T,"                    hash_list[hashed_item] = True\n","                    if len(hash_list) < 100000:\n                        hash_list[hashed_item] = True\n"),"bounded memory"),
 ("C22",(T,"                if hashed_item not in hash_list:\n","                if hashed_item not in hash_list or not item:\n"),"empty always"),
 ("C22",(G,"repr([record.get(column) for column in self._columns])","\"|\".join([str(record.get(column)) for column in self._columns])"),"group joined"),
 ("C22",(G,"repr([record.get(column) for column in self._columns])","repr({record.get(column) for column in self._columns})"),"group set"),
 ("C22",(G,"repr([record.get(column) for column in self._columns])","repr([str(record.get(column)) for column in self._columns])"),"group text"),
 ("C22",(G,"repr([record.get(column) for column in self._columns])","repr([record.get(column) for column in self._columns if record.get(column) is not None])"),"group nulls skipped"),
 ("C22",(G,"repr([record.get(column) for column in self._columns])","repr([record.get(column) for column in self._columns[:2]])"),"group two columns"),
 ("C22",(G,"repr([record.get(column) for column in self._columns])","repr(sorted([str(record.get(column)) for column in self._columns]))"),"group sorted"),
 ("C22",(G,"                    (column, record.get(column)) for column in self._columns\n","                    (column, record.get(column)) for column in self._columns if record.get(column)\n"),"kept truthy"),
 ("C22",(G,"                    (column, record.get(column)) for column in self._columns\n","                    (column, record.get(column, \"\")) for column in self._columns\n"),"kept blank"),
 ("C22",(G,"if group_key not in self._group_keys.keys():","if group_key not in self._group_keys.keys() and len(self._group_keys) < 1000:"),"group cap"),
 ("C22",(K,"            collections.setdefault(key, []).append(my_item)","            if my_item:\n                collections.setdefault(key, []).append(my_item)"),"empty rest dropped"),
 ("C22",(K,"            key = my_item.pop(column, None)","            key = str(my_item.pop(column, None))"),"text key"),
 ("C22",(K,"            key = my_item.pop(column, None)","            key = my_item.pop(column, None) or None"),"falsy key"),
 ("C22",(K,"            collections.setdefault(key, []).append(my_item)","            collections[key] = collections.get(key) or []\n            collections[key] += [my_item] if my_item not in collections[key] else []"),"only new"),
 ("C22",(K,"                if entry in self._collections:\n","                if self._collections.get(entry) and entry:\n"),"falsy names"),

 ("C23",(G,MAPV,MAPV.replace("if v is not None:","if v:")),"falsy ignored"),
 ("C23",(G,MAPV,MAPV.replace("if v is not None:","if True:")),"nulls"),
 ("C23",(G,MAPV,MAPV.replace("if v is not None:","if v is not None and v != 0:")),"zero ignored"),
 ("C23",(G,MAPV,MAPV.replace("                        yield (group_key, column, record[column])","                        yield (group_key, column, record[column])\n                        break")),"first column only"),
 ("C23",(G,FOLD,FOLD.replace("existing not in (None, \"\")","existing")),"zero reset"),
 ("C23",(G,FOLD,FOLD.replace("value != \"\" or func == \"COUNT\"","value or func == \"COUNT\"")),"zero skipped"),
 ("C23",(G,FOLD,FOLD.replace("value != \"\" or func == \"COUNT\"","value != \"\"")),"blank not counted"),
 ("C23",(G,FOLD,FOLD.replace("                    value = 1\n","                    value = 0\n")),"count from 0"),
 ("C23",(G,FOLD,FOLD.replace("                        value = existing\n","                        pass\n")),"blank replaces"),
 ("C23",(G,"                if col != record[1]:\n                    continue\n",""),"all columns"),
 ("C23",(G,"                if col != record[1]:\n                    continue\n","                if col != record[1]:\n                    break\n"),"break"),
 ("C23",(G,'key = f"{func}({col})"\n\n                existing','key = f"({col})"\n\n                existing'),"key without func"),
 ("C23",(G,"\"MAX\": max","\"MAX\": min"),"max is min"),
 ("C23",(G,"\"MIN\": min","\"MIN\": lambda x, y: x if x < y else x"),"min first"),
 ("C23",(G,"return decimal.Decimal(x) + decimal.Decimal(y)","return decimal.Decimal(x) - decimal.Decimal(y)"),"minus"),
 ("C23",(G,"return decimal.Decimal(x) + decimal.Decimal(y)","return decimal.Decimal(int(x)) + decimal.Decimal(y)"),"int sum"),
 ("C23",(G,"lambda x, y: x + 1","lambda x, y: x + 2"),"count by 2"),
 ("C23",(G,"lambda x, y: x + 1","lambda x, y: x + y"),"count sums"),
 ("C23",(G,AVGADD,AVGADD.replace("                    if agg not in aggregations:\n                        aggregations.append(agg)","                    aggregations.append(agg)")),"avg twice"),
 ("C23",(G,AVGADD,AVGADD.replace("aggregations = list(dict.fromkeys(aggregations))","pass")),"duplicates; caller"),
 ("C23",(G,AVGADD,AVGADD.replace("((\"SUM\", col), (\"COUNT\", col))","((\"SUM\", col),)")),"no count"),
 ("C23",(G,"results[f\"SUM({col})\"] / results[f\"COUNT({col})\"]","results[f\"SUM({col})\"] / len(results)"),"avg by other"),
 ("C23",(G,"                if func == \"AVG\" and results","                if func == \"AVG\" and len(requested_aggs) == 1 and results"),"avg only alone"),
 ("C23",(G,"f\"{func}({col})\": results.get(f\"{func}({col})\") for func, col in requested_aggs","f\"{func}({col})\": results.get(f\"{func}({col})\", 0) for func, col in requested_aggs"),"default 0"),
 ("C23",(G,"f\"{func}({col})\": results.get(f\"{func}({col})\") for func, col in requested_aggs\n","f\"{func}({col})\": results.get(f\"{func}({col})\") for func, col in requested_aggs if results.get(f\"{func}({col})\")\n"),"falsy left out"),
 ("C23",(G,"            for key in keys:\n                results[key[0]] = key[1]\n","            for key in keys:\n                if key[1]:\n                    results[key[0]] = key[1]\n"),"falsy group"),
 ("C23",(G,"return self.aggregate([(\"MIN\", column) for column in columns])","return self.aggregate([(\"MAX\", column) for column in columns])"),"min max"),
 ("C23",(G,"return self.aggregate([(\"SUM\", column) for column in columns])","return self.aggregate([(\"SUM\", column) for column in columns if column])"),"some columns"),
 ("C23",(G,"return self.aggregate((\"COUNT\", \"*\"))","return self.aggregate((\"COUNT\", self._columns[0]))"),"count of column"),
]
GOOD=[
 ((T,DED,"                if columns:\n                    key = repr([(c, item[c]) for c in columns if c in item])\n                else:\n                    key = repr(sorted(item.items(), key=lambda i: str(i[0])))\n                if key in hash_list:\n                    continue\n                hash_list[key] = True\n                yield item\n"),"continue"),
 ((T,"        hash_list = {}\n","        hash_list = set()\n"),(T,"hash_list[hashed_item] = True","hash_list.add(hashed_item)"),"set"),
 ((T,DED,"                hashed_item = _key(item)\n                if hashed_item not in hash_list:\n                    hash_list[hashed_item] = True\n                    yield item\n"),(T,"        hash_list = {}\n","        hash_list = {}\n\n        def _key(item):\n            if columns:\n                return hash(repr([(c, item.get(c)) for c in columns if c in item]))\n            return hash(repr(sorted(item.items(), key=lambda i: str(i[0]))))\n"),"key helper"),
 ((T,"values = [(c, item.get(c)) for c in columns if c in item]","values = []\n                    for c in columns:\n                        if c in item:\n                            values.append((c, item[c]))"),"values loop"),
 ((G,GK,"            values = [record.get(column) for column in self._columns]\n            group_key = xxh3_64_intdigest(repr(values), HASH_SEED)\n"),"values first"),
 ((G,GK,"            group_key = self._key_of(record)\n"),(G,"    def aggregate(self, agg","    def _key_of(self, record):\n        return xxh3_64_intdigest(repr([record.get(column) for column in self._columns]), HASH_SEED)\n\n    def aggregate(self, agg"),"group key helper"),
 ((G,"if group_key not in self._group_keys.keys():","if group_key not in self._group_keys:"),"in dict"),
 ((G,MAPV,"                    v = record.get(column)\n                    if v is None:\n                        continue\n                    yield (group_key, column, v)"),"continue null"),
 ((K,"            my_item = item.copy()\n            key = my_item.pop(column, None)\n","            key = item.get(column)\n            my_item = {k: v for k, v in item.items() if k != column}\n"),"without pop"),
 ((K,"            collections.setdefault(key, []).append(my_item)","            if key not in collections:\n                collections[key] = []\n            collections[key].append(my_item)"),"no setdefault"),
 ((G,FOLD,"                if func == \"COUNT\":\n                    value = 1 if existing is None else existing + 1\n                elif existing not in (None, \"\"):\n                    value = existing if value == \"\" else AGGREGATORS[func](existing, value)\n"),"count apart"),
 ((G,FOLD,FOLD.replace("existing not in (None, \"\")","existing is not None and existing != \"\"")),"spelled out"),
 ((G,FOLD,"                value = self._combine(func, existing, value)\n"),(G,"    def max(self, columns):","    @staticmethod\n    def _combine(func, existing, value):\n        if existing in (None, \"\"):\n            return 1 if func == \"COUNT\" else value\n        if value == \"\" and func != \"COUNT\":\n            return existing\n        return AGGREGATORS[func](existing, value)\n\n    def max(self, columns):"),"combine helper"),
 ((G,"            for func, col in aggregations:\n                if col != record[1]:\n                    continue\n\n                key = f\"{func}({col})\"\n\n                existing = collector[record[0]].get(key)\n                value = record[2]\n","            group, column, seen = record\n            for func, col in aggregations:\n                if col != column:\n                    continue\n\n                key = f\"{func}({col})\"\n\n                existing = collector[group].get(key)\n                value = seen\n"),"unpacked"),
 ((G,AVGADD,"        aggregations = []\n        for func, col in requested_aggs:\n            needed = [(func, col)]\n            if func == \"AVG\":\n                needed += [(\"SUM\", col), (\"COUNT\", col)]\n            for agg in needed:\n                if agg not in aggregations:\n                    aggregations.append(agg)\n"),"built up"),
 ((G,"            keys = self._group_keys[group]\n            for key in keys:\n                results[key[0]] = key[1]\n","            results.update(dict(self._group_keys[group]))\n"),"update"),
 ((G,"            keys = self._group_keys[group]\n            for key in keys:\n                results[key[0]] = key[1]\n","            for column, value in self._group_keys[group]:\n                results[column] = value\n"),"unpacked keys"),
 ((G,"        if not isinstance(columns, (tuple, list, set)):\n            columns = [columns]\n        return self.aggregate([(\"MAX\", column) for column in columns])","        return self._each(\"MAX\", columns)"),(G,"    def min(self, columns):","    def _each(self, func, columns):\n        if not isinstance(columns, (tuple, list, set)):\n            columns = [columns]\n        return self.aggregate([(func, column) for column in columns])\n\n    def min(self, columns):"),"each helper"),
]
