F="data/internals/collected_set.py"
BAD=[
 ("C39",(F,"        if collection is None:\n            return","        if not collection:\n            return"),"falsy name"),
 ("C39",(F,"if x == collection].pop()","if x == collection and y].pop() - 1"),"one too few"),
 ("C39",(F,"{x: len(y) for x, y in self._collections.items()}","{x: len(y) for x, y in self._collections.items() if x is not None}"),"none left out"),
 ("C39",(F,"if item.get(column) is not None]","if item.get(column)]"),"falsy left out"),
 ("C39",(F,"values = [item.get(column) for item in items if item.get(column) is not None]","values = {item.get(column) for item in items if item.get(column) is not None}"),"a set"),
 ("C39",(F,"values = [item.get(column) for item in items if item.get(column) is not None]","values = [item.get(column) for item in items[:1000] if item.get(column) is not None]"),"first thousand"),
 ("C39",(F,"            response[key] = method(values)","            if values:\n                response[key] = method(values)"),"empty ones left out"),
 ("C39",(F,"{key: method(items) for key, items in self._collections.items()}","{key: method(items) for key, items in self._collections.items() if len(items) > 1}"),"single ones left out"),
 ("C39",(F,"{key: method(items) for key, items in self._collections.items()}","{key: method(items[1:]) for key, items in self._collections.items()}"),"first left out"),
 ("C39",(F,"                yield collection, item","                yield item"),"no name"),
 ("C39",(F,"            for item in self._collections[collection]:\n","            for item in self._collections[collection][:10]:\n"),"ten items"),
 ("C39",(F,"        return len(self._collections)","        return sum(len(c) for c in self._collections)"),"wrong length"),
 ("C39",(F,"self.values.select(item)","self.values.select(item[0])"),"one of several"),
 ("C39",(F,"        if len(values) == 0 or values is None:","        if len(values) <= 1 or values is None:"),"one is none"),
 ("C39",(F,"SubCollection(self._collections.get(item))","SubCollection(self._collections.get(str(item)))"),"text name"),
]
GOOD=[
 ((F,"            try:\n                return [len(y) for x, y in self._collections.items() if x == collection].pop()\n            except IndexError:\n                return 0\n","            if collection not in self._collections:\n                return 0\n            return len(self._collections[collection])\n"),"direct"),
 ((F,"            try:\n                return [len(y) for x, y in self._collections.items() if x == collection].pop()\n            except IndexError:\n                return 0\n","            return len(self._collections.get(collection, []))\n"),"default"),
 ((F,"        response = {}\n        for key, items in self._collections.items():\n            values = [item.get(column) for item in items if item.get(column) is not None]\n            response[key] = method(values)\n        return response","        response = {}\n        for key in self._collections:\n            values = []\n            for item in self._collections[key]:\n                value = item.get(column)\n                if value is None:\n                    continue\n                values.append(value)\n            response[key] = method(values)\n        return response"),"loops"),
 ((F,"        for collection in self._collections:\n            for item in self._collections[collection]:\n                yield collection, item","        for name, members in self._collections.items():\n            for member in members:\n                yield name, member"),"items loop"),
 ((F,"        if len(values) == 0 or values is None:\n            return None\n        return values","        return values if len(values) > 0 else None"),"ternary"),
 ((F,"        if len(values) == 0 or values is None:\n            return None\n        return values","        return values or None"),"or"),
]
