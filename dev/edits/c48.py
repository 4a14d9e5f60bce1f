P = "utils/paths.py"; T = "utils/text.py"
BAD = [
 ("C48", (P, '"{mm}", f"{date.month:02d}"', '"{mm}", f"{date.month}"'), "month unpadded"),
 ("C48", (P, '"{MM}", f"{date.minute:02d}")', '"{MM}", f"{date.minute:02d}", 1)'), "one minute"),
 ("C48", (P, 'path_string = path_string.replace("{yyyy}"', 'path_string = path_string.lower().replace("{yyyy}"'), "lowered"),
 ("C48", (P, 'date.timetuple()[:6]', 'date.timetuple()[:5]'), "no seconds"),
 ("C48", (P, '    if not date:\n        date =', '    if not isinstance(date, datetime.datetime):\n        date ='), "dates are now"),
 ("C49", (T, '.replace("_", ".") + r"\\Z", re.DOTALL', '.replace("_", ".") + r"\\Z"'), "no dotall"),
 ("C49", (T, '+ r"\\Z", re', '+ r"$", re'), "dollar"),
 ("C49", (T, 'r"\\A" + safe_fragment.replace', 'safe_fragment.replace'), "still match") if False else
 ("C49", (T, '".^$*+?{}[]|()\\\\"}\n\n\ndef tok', '".^$*+?{}[]|()"}\n\n\ndef tok'), "backslash"),
 ("C49", (T, '"%", ".*?"', '"%", ".+?"'), "one at least"),
 ("C49", (T, 'y.lower()).match(str(x).lower())', 'y.lower()).match(str(x))'), "case of the value"),
 ("C49", (T, 'y.lower()).match(', 'y.lower()).search('), "search is anchored") if False else
 ("C49", (T, '.replace("_", ".") + r"\\Z"', '.replace("_", r"\\w") + r"\\Z"'), "word only"),
 ("C49", (T, '    if x is None:\n        return False\n    return _sql', '    return _sql'), "none is text"),
 ("C49", (T, 'return not like(x, y)', 'return x is not None and not like(x, y)'), "nulls not unlike"),
]
GOOD = [
 ((P, '    if not path[-1] in ["/"]:', '    if not path.endswith("/"):'), "endswith"),
 ((P, '        parts = pathlib.PurePosixPath("/".join(path.parts[1:-1])) / path.stem  # type:ignore', '        parts = pathlib.PurePosixPath("/".join(path.parts[1:]))  # type:ignore'), "join all"),
 ((P, '        bucket, path_string, filename, extension = get_parts(path)\n        if path_string != "/":\n            path_string = bucket + "/" + path_string\n    else:\n        path_string = path\n', '        parts = get_parts(path)\n        path_string = f"{parts[0]}/{parts[1]}" if parts[1] != "/" else "/"\n    else:\n        path_string = path\n'), "parts by index"),
 ((P, '    elif path.suffix == "":\n', '    elif not path.suffix:\n'), "not suffix"),
 ((P, '    bucket = path.parts[0]\n\n    if len(path.parts) == 1:', '    bucket, *rest = path.parts\n\n    if not rest:'), "unpacked"),
 ((T, '"".join([REGEX_CHARACTERS.get(ch, ch) for ch in fragment])', 're.escape(fragment)'), "escape"),
 ((T, '    safe_fragment = "".join([REGEX_CHARACTERS.get(ch, ch) for ch in fragment])\n    return re.compile(\n        r"\\A" + safe_fragment.replace("%", ".*?").replace("_", ".") + r"\\Z", re.DOTALL\n    )', '    pattern = ""\n    for ch in fragment:\n        if ch == "%":\n            pattern += ".*"\n        elif ch == "_":\n            pattern += "."\n        else:\n            pattern += REGEX_CHARACTERS.get(ch, ch)\n    return re.compile("^" + pattern + r"\\Z", re.S)'), "in a loop"),
 ((T, 'y.lower()).match(str(x).lower())', 'y.lower()).fullmatch(str(x).lower()) is not None'), "fullmatch"),
 ((T, '    if x is None:\n        return False\n    return _sql_like_fragment_to_regex(y.lower()).match(str(x).lower())', '    return x is not None and bool(_sql_like_fragment_to_regex(y.lower()).match(str(x).lower()))'), "bool"),
 ((P, '    path_string = path_string.replace("{yyyy}", f"{date.year}")\n    path_string = path_string.replace("{mm}", f"{date.month:02d}")\n    path_string = path_string.replace("{dd}", f"{date.day:02d}")\n    path_string = path_string.replace("{HH}", f"{date.hour:02d}")\n    path_string = path_string.replace("{MM}", f"{date.minute:02d}")  # not recommended\n    path_string = path_string.replace("{SS}", f"{date.second:02d}")  # not recommended\n', '    parts = {"{yyyy}": f"{date.year}", "{mm}": f"{date.month:02d}", "{dd}": "%02d" % date.day, "{HH}": str(date.hour).zfill(2), "{MM}": "{:02d}".format(date.minute), "{SS}": date.strftime("%S")}\n    for placeholder, value in parts.items():\n        path_string = path_string.replace(placeholder, value)\n'), "table"),
 ((P, '    args = date.timetuple()[:6]\n    date = datetime.datetime(*args)\n', '    if not isinstance(date, datetime.datetime):\n        date = datetime.datetime.combine(date, datetime.time.min)\n'), "combine"),
]
