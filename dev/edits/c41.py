F = "data/readers/internals/inline_functions.py"
HEAD = "    if isinstance(input, str):\n        input = parse_iso(input)\n    if isinstance(input, (datetime.date, datetime.datetime)):\n"
BOTH = "    if isinstance(input, str) or type(input) is datetime.date:\n        input = parse_iso(input)\n    if isinstance(input, (datetime.date, datetime.datetime)):\n"
BAD = [
 ("C41", (F, BOTH + "        return input.hour\n", HEAD + "        return input.hour\n"), "hour of a plain date"),
 ("C41", (F, HEAD + "        return ((input.month - 1) // 3) + 1\n", HEAD + "        return (input.month // 3) + 1\n"), "quarter off by a month"),
 ("C41", (F, HEAD + "        return int(input.strftime(\"%V\"))\n", HEAD + "        return int(input.strftime(\"%W\"))\n"), "week of the year not ISO"),
 ("C41", (F, HEAD + "        return input.month\n", "    if isinstance(input, str):\n        input = parse_iso(input)\n    if isinstance(input, datetime.datetime):\n        return input.month\n"), "month of plain dates unknown"),
 ("C41", (F, BOTH + "        return input.minute\n", BOTH + "        return input.second\n"), "minute gives seconds"),
 ("C41", (F, "        return start_date + datetime.timedelta(days=day_count)\n", "        return start_date + datetime.timedelta(hours=day_count)\n"), "adds hours"),
 ("C41", (F, "        return (end_date - start_date).days\n", "        return abs((end_date - start_date).days)\n"), "difference without sign"),
 ("C41", (F, "    if isinstance(end_date, str) or type(end_date) is datetime.date:\n", "    if isinstance(end_date, str):\n"), "end date not made a timestamp"),
 ("C41", (F, "str(x)[-int(y) :] if int(y) else \"\"", "str(x)[-int(y) :]"), "RIGHT 0 is everything"),
 ("C41", (F, "str(x)[int(y) :][: int(z)]", "str(x)[int(y) : int(z)]"), "MID takes an end instead of a length"),
 ("C41", (F, "        if val is None:\n            return None\n        return coerce(parser(val))\n", "        if not val:\n            return None\n        return coerce(parser(val))\n"), "numbers that are zero are missing"),
 ("C41", (F, "low < val < high", "low < val <= high"), "between takes the upper bound"),
 ("C41", (F, "def get_md5(item):\n", "@__import__('functools').lru_cache(8)\ndef get_md5(item):\n"), "MD5 remembered"),
 ("C41", (F, "lambda x: str(x).upper() != \"FALSE\"", "lambda x: str(x).upper() == \"TRUE\""), "boolean of other text"),
 ("C41", (F, HEAD + "        return input.year\n    return None  #\n", "    input = parse_iso(input)\n    if isinstance(input, (datetime.date, datetime.datetime)):\n        return input.year\n    return None  #\n"), "numbers read as dates"),
]
GOOD = [
 ((F, HEAD + "        return input.year\n    return None  #\n", "    if isinstance(input, str):\n        input = parse_iso(input)\n    if not isinstance(input, datetime.date):\n        return None\n    return input.year\n"), "early return, date covers datetime"),
 ((F, "def get_year(input):", "def _as_timestamp(value):\n    \"\"\" text and plain dates as timestamps, None when it is neither \"\"\"\n    if type(value) is datetime.date or isinstance(value, str):\n        value = parse_iso(value)\n    return value if isinstance(value, datetime.datetime) else None\n\n\ndef get_year(input):"),
  (F, BOTH + "        return input.hour\n    return None\n", "    stamp = _as_timestamp(input)\n    return stamp.hour if stamp is not None else None\n"),
  (F, BOTH + "        return input.time()\n    return None\n", "    stamp = _as_timestamp(input)\n    if stamp is None:\n        return None\n    return stamp.time()\n"), "helper"),
 ((F, HEAD + "        return ((input.month - 1) // 3) + 1\n", HEAD + "        return (input.month + 2) // 3\n"), "quarter written otherwise"),
 ((F, HEAD + "        return int(input.strftime(\"%V\"))\n", HEAD + "        return input.isocalendar()[1]\n"), "isocalendar"),
 ((F, "        return start_date + datetime.timedelta(days=day_count)\n", "        delta = datetime.timedelta(days=day_count)\n        return delta + start_date\n"), "delta first"),
 ((F, "        if val is None:\n            return None\n        return coerce(parser(val))\n", "        return None if val is None else coerce(parser(val))\n"), "conditional"),
 ((F, "    \"RIGHT\": lambda x, y: str(x)[-int(y) :] if int(y) else \"\",\n", "    \"RIGHT\": get_right,\n"), (F, "def get_md5(item):\n", "def get_right(value, count):\n    count = int(count)\n    if count == 0:\n        return \"\"\n    return str(value)[-count:]\n\n\ndef get_md5(item):\n"), "RIGHT as a function"),
 ((F, "lambda val, low, high: low < val < high", "lambda val, low, high: val > low and val < high"), "between spelled out"),
 ((F, "    if isinstance(start_date, (datetime.date, datetime.datetime)) and isinstance(\n        end_date, (datetime.date, datetime.datetime)\n    ):\n        return (end_date - start_date).days\n    return None\n", "    for moment in (start_date, end_date):\n        if not isinstance(moment, (datetime.date, datetime.datetime)):\n            return None\n    return (end_date - start_date).days\n"), "loop over both"),
 ((F, "def get_hour(input):", "def _read(value):\n    return parse_iso(value) if isinstance(value, (str, datetime.date)) else value\n\n\ndef get_hour(input):"), (F, BOTH + "        return input.hour\n", "    input = _read(input)\n    if isinstance(input, datetime.datetime):\n        return input.hour\n"), "dates and timestamps both parsed"),
]
