T="data/internals/dictset.py"
SEL="        else:\n\n            def inner_select(it):\n                for record in it:\n                    yield {k: record.get(k, None) for k in columns}\n"
ITAKE="        if items == 0:\n            return\n        for count, item in enumerate(iter(self._iterator)):\n            if isinstance(item, dict):\n                yield item\n            else:\n                yield item.as_dict()\n            # count is zero-based, if we've read the itemth item, quit\n            if (count + 1) == items:\n                return\n"
LOWMEM="            for record in iter(self._iterator):\n                cache.append(record)\n                if len(cache) > double_cache:\n                    cache.sort(key=safety_key(column), reverse=descending)\n                    del cache[take:]\n            cache.sort(key=safety_key(column), reverse=descending)\n            yield from cache[:take]"
KEYF="            return lambda x: (\n                x.get(column) is not None,\n                x.get(column),\n            )"
BAD=[
 ("C21",(T,"yield {k: record.get(k, None) for k in columns}","yield {k: record.get(k, None) for k in columns if k in record}"),"select drops absent"),
 ("C21",(T,"yield {k: record.get(k, None) for k in columns}","yield {k: record.get(k, 0) for k in columns}"),"select default 0"),
 ("C21",(T,"yield {k: record.get(k, None) for k in columns}","yield {k: record.get(k) or None for k in columns}"),"select falsy"),
 ("C21",(T,SEL,SEL.replace("                for record in it:\n","                for record in it:\n                    if not record:\n                        continue\n")),"select skips empty"),
 ("C21",(T,SEL,SEL.replace("                    yield {","                    if any(k in record for k in columns):\n                        yield {")),"select skips those without"),
 ("C21",(T,"return DictSet(inner_select(iter(self._iterator)), storage_class=self.storage_class)","return DictSet(inner_select(iter(self._iterator)))"),"select loses storage"),
 ("C21",(T,"            columns = list([columns])","            columns = list(columns)"),"column as letters"),
 ("C21",(T,"{k: v for k, v in record.items() if k != \"*\"}","{k: v for k, v in record.items() if v}"),"star falsy"),
 ("C21",(T,"return [record[key] for record in iter(self._iterator) if key in record]","return [record[key] for record in iter(self._iterator) if record.get(key)]"),"collect falsy"),
 ("C21",(T,"return [record[key] for record in iter(self._iterator) if key in record]","return [record[key] for record in iter(self._iterator) if record.get(key) is not None]"),"collect none"),
 ("C21",(T,"return [record[key] for record in iter(self._iterator) if key in record]","return list({record[key] for record in iter(self._iterator) if key in record})"),"collect set"),
 ("C21",(T,"return [record[key] for record in iter(self._iterator) if key in record]","return sorted([record[key] for record in iter(self._iterator) if key in record])"),"collect sorted"),
 ("C21",(T,"                if isinstance(l, dict):\n                    yield l\n","                if isinstance(l, dict) and l:\n                    yield l\n") if False else (T,"            for l in lst:\n","            for l in lst:\n                if not l:\n                    continue\n"),"list skips empty"),
 ("C21",(T,"            return reduce(lambda x, y: x + [a for a in y.keys() if a not in x], rows, [])\n        return reduce(\n            lambda x, y: x + [a for a in y.keys() if a not in x],","            return reduce(lambda x, y: x + [a for a in y.keys() if a not in x], rows, [])\n        return reduce(\n            lambda x, y: x or [a for a in y.keys() if a not in x],"),"keys of first") ,
 ("C21",(T,"            lambda x, y: x + [a for a in y.keys() if a not in x],\n            iter","            lambda x, y: x + [a for a in y.keys() if a not in x and y[a] is not None],\n            iter"),"keys of none"),
 ("C21",(T,"            return len(self._iterator)\n","            return len(self._iterator) - 1\n"),"count"),
 ("C21",(T,"            return len(self._iterator)\n","            return len([r for r in self._iterator if r])\n"),"count truthy"),
 ("C21",(T,"return next(iter(self._iterator), None)","return next((r for r in iter(self._iterator) if r), None)") ,"first truthy"),
 ("C21",(T,"yield from [self._iterator[i] for i in locations]","yield from [self._iterator[i - 1] for i in locations]"),"items off"),
 ("C21",(T,"                if i in locations:\n                    yield r\n","                if i in locations:\n                    yield i\n") ,"items index") if False else ("C21",(T,"enumerate(iter(self._iterator)):\n                if i in locations","enumerate(iter(self._iterator), 1):\n                if i in locations"),"items from 1"),
 ("C21",(T,"_inner_reader(*locations)","_inner_reader(*locations[1:])"),"items tail"),
 ("C21",(T,"return reduce(max, self.collect_list(key))","return reduce(min, self.collect_list(key))"),"max is min"),
 ("C21",(T,"return reduce(max, self.collect_list(key))","return max(self.collect_list(key)[:-1])"),"max of most"),
 ("C21",(T,"return statistics.mean(self","return statistics.median(self"),"median"),
 ("C21",(T,"return statistics.stdev(self","return statistics.pstdev(self"),"pstdev"),
 ("C21",(T,"return statistics.variance(self","return statistics.pvariance(self"),"pvariance"),
 ("C21",(T,"return reduce(lambda x, y: x + y, self.collect_list(key), 0)","return reduce(lambda x, y: x + y, self.collect_list(key), 1)"),"sum from 1"),
 ("C21",(T,"return min(a[0], b[0]), max(a[1], b[1])","return min(a[0], b[0]), min(a[1], b[1])"),"minmax"),
 ("C21",(T,"        if not hasattr(self._iterator, \"__next__\"):\n            # lists and the like can't be stepped through by __next__\n            return iter(self._iterator)\n        return self","        return self"),"list not stepped"),
 ("C21",(T,"            return iter(self._iterator)\n        return self","            return iter(self._iterator[1:])\n        return self"),"first skipped"),

 ("C25",(T,"        if items == 0:\n            return\n",""),"zero takes all"),
 ("C25",(T,"if (count + 1) == items:","if count == items:"),"one more"),
 ("C25",(T,"if (count + 1) == items:","if (count + 1) > items:"),"one more b"),
 ("C25",(T,"if (count + 1) == items:","if (count + 2) == items:"),"one less"),
 ("C25",(T,"for count, item in enumerate(iter(self._iterator)):","for count, item in enumerate(iter(self._iterator), 1):"),"from 1"),
 ("C25",(T,ITAKE,ITAKE.replace("            if isinstance(item, dict):\n","            if not item:\n                continue\n            if isinstance(item, dict):\n")),"empty skipped"),
 ("C25",(T,"return DictSet(self.itake(items), storage_class=self.storage_class)","return DictSet(self.itake(items))"),"take storage"),
 ("C25",(T,"return DictSet(self.itake(items), storage_class=self.storage_class)","return DictSet(self.itake(items - 1), storage_class=self.storage_class)"),"take less"),
 ("C25",(T,"key=safety_key(column), reverse=descending)[:take]","key=safety_key(column))[:take]"),"direction"),
 ("C25",(T,"key=safety_key(column), reverse=descending)[:take]","key=safety_key(column))[:take][::-1 if descending else 1]"),"sort then cut then turn"),
 ("C25",(T,"sorted(self._iterator, key=safety_key(column), reverse=descending)[:take]","sorted(list(self._iterator)[:take], key=safety_key(column), reverse=descending)"),"cut then sort"),
 ("C25",(T,KEYF,KEYF.replace("                x.get(column) is not None,\n","                x.get(column) is None,\n")) ,"none last") if False else ("C25",(T,KEYF,"            return lambda x: x.get(column)"),"bare key"),
 ("C25",(T,KEYF,"            return lambda x: (bool(x.get(column)), x.get(column) or 0)"),"falsy apart"),
 ("C25",(T,LOWMEM,LOWMEM.replace("                    del cache[take:]\n","                    del cache[take // 2:]\n")),"cut too much"),
 ("C25",(T,LOWMEM,LOWMEM.replace("                    cache.sort(key=safety_key(column), reverse=descending)\n                    del","                    del")),"cut unsorted"),
 ("C25",(T,LOWMEM,LOWMEM.replace("                    del cache[take:]\n            cache.sort","                    del cache[take:]\n            if len(cache) > take:\n              cache.sort")),"final sort skipped"),
 ("C25",(T,LOWMEM,LOWMEM.replace("                    cache.sort(key=safety_key(column), reverse=descending)\n                    del","                    cache.sort(key=safety_key(column))\n                    del")),"cut in the other direction"),
 ("C25",(T,LOWMEM,LOWMEM.replace("                cache.append(record)\n","                if record.get(column) is not None:\n                    cache.append(record)\n")),"without column dropped"),
 ("C25",(T,LOWMEM,LOWMEM.replace("                    del cache[take:]\n","                    cache.clear()\n")),"all dropped"),
]
GOOD=[
 ((T,"yield {k: record.get(k, None) for k in columns}","yield {column: record.get(column) for column in columns}"),"rename"),
 ((T,"yield {k: record.get(k, None) for k in columns}","selected = {}\n                    for k in columns:\n                        selected[k] = record.get(k)\n                    yield selected"),"loop"),
 ((T,"yield {k: record.get(k, None) for k in columns}","yield {k: (record[k] if k in record else None) for k in columns}"),"ternary"),
 ((T,"        if not isinstance(columns, (list, set, tuple)):\n            columns = list([columns])","        if not isinstance(columns, (list, set, tuple)):\n            columns = [columns]"),"list"),
 ((T,"return [record[key] for record in iter(self._iterator) if key in record]","values = []\n        for record in self._iterator:\n            if key in record:\n                values.append(record[key])\n        return values"),"collect loop"),
 ((T,"            return list(asdic(iter(self._iterator)))","            return [l if isinstance(l, dict) else l.as_dict() for l in self._iterator]"),"list comp"),
 ((T,"return next(iter(self._iterator), None)","for record in self._iterator:\n            return record\n        return None"),"first loop"),
 ((T,"            return reduce(lambda x, y: x + [a for a in y.keys() if a not in x], rows, [])\n        return reduce(\n            lambda x, y: x + [a for a in y.keys() if a not in x],\n            iter(self._iterator),\n            [],\n        )","        else:\n            rows = iter(self._iterator)\n        found = []\n        for row in rows:\n            for name in row.keys():\n                if name not in found:\n                    found.append(name)\n        return found"),"keys loop"),
 ((T,"            for r in self._iterator._inner_reader(*locations):\n                yield r\n            return","            yield from self._iterator._inner_reader(*locations)\n            return"),"yield from"),
 ((T,"yield from [self._iterator[i] for i in locations]","for location in locations:\n                yield self._iterator[location]"),"for items"),
 ((T,"return reduce(max, self.collect_list(key))","return max(self.collect_list(key))"),"max"),
 ((T,"return reduce(lambda x, y: x + y, self.collect_list(key), 0)","return sum(self.collect_list(key))"),"sum"),
 ((T,"return reduce(lambda x, y: x + y, self.collect_list(key), 0)","total = 0\n        for value in self.collect_list(key):\n            total += value\n        return total"),"sum loop"),
 ((T,"        return reduce(minmax, map(lambda x: (x, x), self.collect_list(key)))","        values = self.collect_list(key)\n        return min(values), max(values)"),"min max"),
 ((T,"        if hasattr(self._iterator, \"__len__\"):\n            return len(self._iterator)\n        else:\n            # we can't count the items in an non persisted DictSet\n            return -1","        if not hasattr(self._iterator, \"__len__\"):\n            return -1\n        return len(self._iterator)"),"count guard"),
 ((T,ITAKE,"        if items == 0:\n            return\n        taken = 0\n        for item in self._iterator:\n            yield item if isinstance(item, dict) else item.as_dict()\n            taken += 1\n            if taken >= items:\n                return\n"),"counter"),
 ((T,ITAKE,"        for count, item in enumerate(self._iterator):\n            if count == items:\n                return\n            yield item if isinstance(item, dict) else item.as_dict()\n"),"check first"),
 ((T,ITAKE,"        for item in islice(self._iterator, items):\n            yield item if isinstance(item, dict) else item.as_dict()\n"),(T,"from functools import reduce\n","from functools import reduce\nfrom itertools import islice\n"),"islice"),
 ((T,"        def safety_key(column):\n            # this returns a tuple where the first element is a boolean, and the\n            # second item is the value\n"+KEYF,"        def safety_key(column):\n            def key(record):\n                value = record.get(column)\n                return (value is not None, value)\n\n            return key"),"named key"),
 ((T,"            yield from sorted(self._iterator, key=safety_key(column), reverse=descending)[:take]\n","            ordered = list(self._iterator)\n            ordered.sort(key=safety_key(column), reverse=descending)\n            yield from ordered[:take]\n"),"list sort"),
 ((T,LOWMEM,LOWMEM.replace("                    del cache[take:]\n","                    cache = cache[:take]\n")),"slice"),
 ((T,LOWMEM,LOWMEM.replace("            cache.sort(key=safety_key(column), reverse=descending)\n            yield from cache[:take]","            yield from sorted(cache, key=safety_key(column), reverse=descending)[:take]")),"sorted at end"),
 ((T,LOWMEM,"            best = heapq.nlargest if descending else heapq.nsmallest\n            yield from best(take, self._iterator, key=safety_key(column))"),(T,"import os\n","import heapq\nimport os\n"),"heapq"),
 ((T,"            double_cache = max(take * 2, 1) + 1\n","            keep = max(take * 2, 1)\n            double_cache = keep + 1\n") if False else (T,"                    cache.sort(key=safety_key(column), reverse=descending)\n                    del cache[take:]\n            cache","                    shrink()\n            cache"),(T,"            cache = []\n            for record","            cache = []\n\n            def shrink():\n                cache.sort(key=safety_key(column), reverse=descending)\n                del cache[take:]\n\n            for record"),"shrink helper"),
]
