DI = "data/internals/"
U = "utils/"
BAD = [
 ("C45", (DI + "display.py", "        if count == limit:\n            break\n\n        cache.append(row)", "        cache.append(row)\n        if count == limit:\n            break\n"), "one row more"),
 ("C45", (DI + "display.py", "        if count == limit:\n            break\n", "        if count + 1 == limit:\n            break\n"), "one row less"),
 ("C45", (DI + "display.py", "for k, v in columns.items()]) + \"│\")\n    result.append(\"├\"", "for k, v in sorted(columns.items())]) + \"│\")\n    result.append(\"├\""), "names sorted"),
 ("C45", (DI + "display.py", "record.get(column, \"\")", "list(record.values())[columns.index(column)] if False else record.get(column, column)"), "name where none"),
 ("C45", (DI + "display.py", "        if (i + 1) == limit:", "        if i == limit:"), "html one more"),
 ("C45", (DI + "display.py", "    columns = set(columns)  # type:ignore\n", "    columns = set(rows[0].keys()) if rows else set()  # type:ignore\n"), "columns of the first"),
 ("C45", (DI + "display.py", "            for column in columns:\n                sanitized = sanitize(record.get(column, \"\"))", "            for column in record:\n                sanitized = sanitize(record.get(column, \"\"))"), "order of the record"),
 ("C45", (DI + "dictset.py", "return ascii_table(iter(self._iterator), limit)", "return ascii_table(iter(self._iterator), limit + 1)"), "limit plus one"),
 ("C47", (U + "dates.py", "value[14:16],  # MM", "value[11:13],  # MM"), "minutes are hours"),
 ("C47", (U + "dates.py", "if val_len >= 19 and", "if val_len > 19 and"), "no seconds at 19"),
 ("C47", (U + "dates.py", "if not 10 <= len(value) <= 28:", "if not 12 <= len(value) <= 28:"), "short with offset"),
 ("C47", (U + "dates.py", "if input_type in (int, float):", "if isinstance(value, (int, float)):"), "booleans are times"),
 ("C47", (U + "dates.py", "            if val_len >= 16:\n", "            if val_len >= 13:\n"), "index error"),
 ("C47", (U + "dates.py", "return datetime.datetime.combine(value, datetime.time.min)", "return datetime.datetime.combine(value, datetime.time.max)"), "end of the day"),
 ("C47", (U + "dates.py", "if not value[4] in DATE_SEPARATORS or not value[7] in DATE_SEPARATORS:", "if not value[4] in DATE_SEPARATORS and not value[7] in DATE_SEPARATORS:"), "either separator"),
]
GOOD = [
 ((DI + "display.py", "    for count, row in enumerate(dictset):\n        if count == limit:\n            break\n\n        cache.append(row)", "    count = 0\n    for row in dictset:\n        if count == limit:\n            break\n        count += 1\n        cache.append(row)"), "counted by hand"),
 ((DI + "display.py", "    columns = set(columns)  # type:ignore\n", "    columns = list(dict.fromkeys(columns))  # type:ignore\n"), "in the order seen"),
 ((DI + "display.py", "<th>{sanitize(column)}<th>", "<th>{sanitize(column)}</th>"), "closed heading") if False else
 ((DI + "display.py", "            yield \"<tr>\"\n            for column in columns:\n                sanitized", "            yield \"<tr>\"\n            for column in list(columns):\n                sanitized"), "columns listed"),
 ((DI + "display.py", "    bars = []\n    for header, width in columns.items():\n        bars.append(\"─\" * (width + 2))\n", "    bars = [\"─\" * (width + 2) for width in columns.values()]\n"), "bars listed"),
 ((U + "dates.py", "            if val_len == 10:\n", "            digits = int\n            if val_len == 10:\n"), "nothing done"),
 ((U + "dates.py", "            if value[-1] == \"Z\":\n                value = value[:-1]\n            if \"+\" in value:\n                value = value.split(\"+\")[0]\n", "            if value.endswith(\"Z\"):\n                value = value[:-1]\n            if \"+\" in value:\n                value, _ = value.split(\"+\", 1)\n"), "ends with z"),
 ((U + "dates.py", "            if value[-1] == \"Z\":\n                value = value[:-1]\n            if \"+\" in value:\n                value = value.split(\"+\")[0]\n", "            if value[-1] == \"Z\":\n                value = value[:-1]\n            if \"+\" in value:\n                value = value.partition(\"+\")[0]\n"), "partition"),
]
