R = "data/internals/records.py"
D = "data/internals/dictset.py"
G = "data/internals/group_by.py"
CS = "data/internals/collected_set.py"
BW = "data/writers/internals/blob_writer.py"
W = "data/writers/writer.py"
E_ = "data/readers/internals/inline_evaluator.py"
V = "data/validator/__init__.py"
S_ = "data/writers/stream_writer.py"
BAD = [
 ("C42", (R, "    copy = record.copy()\n", "    copy = record\n"), "set_value on the record itself"),
 ("C42", (R, "    for key, value in dictionary.items():\n", "    for key in list(dictionary):\n        value = dictionary.pop(key)\n"), "flatten empties the record"),
 ("C42", (R, "            items.extend(flatten(dictionary=value, separator=separator, parent_key=new_key).items())\n", "            items.extend(flatten(dictionary=value, separator=separator, parent_key=new_key).items())\n            value.clear()\n"), "flatten empties nested objects"),
 ("C42", (CS, "            my_item = item.copy()\n", "            my_item = item\n"), "collecting takes the column out of the record"),
 ("C42", (G, "        requested_aggs = aggregations.copy()\n\n        # averages need the sum and the count, each is only worked out once\n        aggregations = list(dict.fromkeys(aggregations))\n", "        requested_aggs = aggregations.copy()\n\n"), "aggregations added to the caller's list"),
 ("C42", (BW, "        # serialize the record\n        if self.format", "        # serialize the record\n        if isinstance(record, dict):\n            record.setdefault(\"_format\", self.format)\n        if self.format"), "the writer stamps the record"),
 ("C42", (W, "        if self.schema:\n            self.schema.validate(record)\n", "        if self.schema:\n            if isinstance(record, dict):\n                for column in self.schema.columns:\n                    record[column.name] = record.get(column.name)\n            self.schema.validate(record)\n"), "missing columns added to the caller's record"),
 ("C42", (E_, "                builder = dic.copy()\n", "                builder = dic\n"), "SELECT * writes into the record"),
 ("C42", (V, "        definition = definition.copy()\n", ""), "schema changed"),
 ("C42", (D, "                    yield {k: record.get(k, None) for k in columns}\n", "                    for k in columns:\n                        record.setdefault(k, None)\n                    yield {k: record[k] for k in columns}\n"), "select fills the record"),
 ("C42", (S_, "            for placeholder in placeholders:\n                value = record.get(placeholder)\n", "            for placeholder in placeholders:\n                value = record.pop(placeholder, None)\n"), "partition columns taken from the record"),
 ("C42", (D, "            for record in iter(self._iterator):\n                cache.append(record)\n", "            for record in iter(self._iterator):\n                record[\"_key\"] = record.get(column)\n                cache.append(record)\n"), "sort key stored in the record"),
]
GOOD = [
 ((R, "    copy = record.copy()\n    if callable(setter):\n        copy[field_name] = setter(copy)\n    else:\n        copy[field_name] = setter\n    return copy\n", "    value = setter(record.copy()) if callable(setter) else setter\n    return {**record, field_name: value}\n"), "set_value with a literal"),
 ((CS, "            my_item = item.copy()\n            key = my_item.pop(column, None)\n", "            key = item.get(column)\n            my_item = {k: v for k, v in item.items() if k != column}\n"), "collecting with a comprehension"),
 ((V, "        definition = definition.copy()\n        if definition.get(\"fields\"):  # type:ignore\n            definition[\"columns\"] = definition.pop(\"fields\")  # type:ignore\n", "        definition = {**definition}\n        fields = definition.get(\"fields\")\n        if fields:\n            del definition[\"fields\"]\n            definition[\"columns\"] = fields\n"), "copy by unpacking"),
 ((E_, "                builder = dic.copy()\n", "                builder.update(dic)\n"), "update of a new dict"),
 ((R, "    items = []\n    for key, value in dictionary.items():\n", "    items = []\n    for key in dictionary:\n        value = dictionary[key]\n"), "flatten by key"),
]
