F = "utils/token_labeler.py"
BAD = [
 ("C46", (F, "match.group(1) or \" \"", "\" \""), "quoted collapsed"),
 ("C46", (F, "match.group(1) or \" \"", "re.sub(r\"\\s+\", \" \", match.group(0))"), "quoted collapsed 2"),
 ("C46", (F, "keywords.append(r\"\\b\" + item + r\"\\b\")\n        else:", "keywords.append(item)\n        else:"), "operators in words"),
 ("C46", (F, "    keywords = []\n    for item in FUNCTIONS:\n        keywords.append(r\"\\b\" + item + r\"\\b\")", "    keywords = []\n    for item in FUNCTIONS:\n        keywords.append(r\"\\b\" + item)"), "functions begin words"),
 ("C46", (F, "                TOKENS.LITERAL,\n", ""), "literals uppercased"),
 ("C46", (F, "                TOKENS.VARIABLE,\n                TOKENS.SUBQUERY", "                TOKENS.SUBQUERY"), "variables uppercased"),
 ("C46", (F, "if t.strip() != \"\"]", "if len(t.strip()) > 1 or not t.strip().isalpha() and t.strip()]"), "single letters"),
 ("C46", (F, "    \"<>\": operator.ne,\n    \">=\": operator.ge,\n    \"<=\": operator.le,\n    \">\": operator.gt,\n    \"<\": operator.lt,", "    \">\": operator.gt,\n    \"<\": operator.lt,\n    \"<>\": operator.ne,\n    \">=\": operator.ge,\n    \"<=\": operator.le,"), "order of operators"),
 ("C46", (F, "    \"IS NOT\": operator.is_not,\n    \"IS\": operator.is_,", "    \"IS\": operator.is_,\n    \"IS NOT\": operator.is_not,"), "is first"),
 ("C46", (F, "        if parse_iso(token[1:-1]):", "        if parse_iso(token[1:-1]) is None:"), "dates are literals"),
 ("C46", (F, "    try:\n        num = int(token)\n        return TOKENS.INTEGER\n    except ValueError:\n        pass\n\n    try:\n        num = float(token)\n        return TOKENS.FLOAT\n", "    try:\n        num = float(token)\n        return TOKENS.FLOAT\n"), "no integers"),
 ("C46", (F, "    if token[0] == token[-1] == \"`\":", "    if token[0] == token[-1] == \"`\" and token[1:-1].upper() not in OPERATORS:"), "quoted operators"),
 ("C46", (F, "        if token_upper in (\"TRUE\", \"FALSE\"):", "        if token in (\"TRUE\", \"FALSE\"):"), "lower case true"),
 ("C46", (F, "        if token_upper == \"AND\":", "        if token_upper.startswith(\"AND\"):"), "android is and"),
 ("C46", (F, "(?![\\w'])|", "|"), "closing quote"),
]
GOOD = [
 ((F, "\"\".join([REGEX_CHARACTERS.get(ch, ch) for ch in item]))\n    splitter", "re.escape(item))\n    splitter"), "escape"),
 ((F, "        tokens = [t.strip() for t in tokens if t.strip() != \"\"]\n        tokens = list(self._case_correction(tokens))\n        return tokens", "        cleaned = []\n        for part in tokens:\n            part = part.strip()\n            if part:\n                cleaned.append(part)\n        return list(self._case_correction(cleaned))"), "loop"),
 ((F, "            if get_token_type(token) in (\n                TOKENS.LITERAL,\n                TOKENS.VARIABLE,\n                TOKENS.SUBQUERY,\n            ):\n                yield token\n            else:\n                yield token.upper()", "            kind = get_token_type(token)\n            keep = kind == TOKENS.LITERAL or kind == TOKENS.VARIABLE or kind == TOKENS.SUBQUERY\n            yield token if keep else token.upper()"), "conditional"),
 ((F, "        tokens = list(self._fix_special_chars(tokens))\n        tokens = [t.strip() for t in tokens if t.strip() != \"\"]\n        tokens = list(self._case_correction(tokens))\n        return tokens", "        joined = self._fix_special_chars(tokens)\n        stripped = (t.strip() for t in joined)\n        return list(self._case_correction(filter(None, stripped)))"), "generators"),
 ((F, "    for item in [\"(\", \")\", \"[\", \"]\", \",\", \"*\"]:\n        keywords.append(\"\".join([REGEX_CHARACTERS.get(ch, ch) for ch in item]))", "    keywords.extend(\"\".join(map(lambda ch: REGEX_CHARACTERS.get(ch, ch), item)) for item in (\"(\", \")\", \"[\", \"]\", \",\", \"*\"))"), "extend"),
 ((F, "    try:\n        num = int(token)\n        return TOKENS.INTEGER\n    except ValueError:\n        pass\n\n    try:\n        num = float(token)\n        return TOKENS.FLOAT\n    except ValueError:\n        pass\n", "    for make, kind in ((int, TOKENS.INTEGER), (float, TOKENS.FLOAT)):\n        try:\n            make(token)\n            return kind\n        except ValueError:\n            continue\n"), "numbers in a loop"),
 ((F, "    if token_upper in FUNCTIONS:\n        return TOKENS.FUNCTION\n    if token_upper in OPERATORS:\n        return TOKENS.OPERATOR\n    if token_upper in AGGREGATORS:\n        return TOKENS.AGGREGATOR\n", "    for names, kind in ((FUNCTIONS, TOKENS.FUNCTION), (OPERATORS, TOKENS.OPERATOR), (AGGREGATORS, TOKENS.AGGREGATOR)):\n        if token_upper in names:\n            return kind\n"), "names in a loop"),
 ((F, "        for token in tokens:\n            stripped_token = token.strip()\n            if len(stripped_token) == 0:\n                # the splitter creates unwanted empty strings\n                pass\n\n            elif not looking", "        for token in tokens:\n            stripped_token = token.strip()\n            if not stripped_token:\n                # the splitter creates unwanted empty strings\n                continue\n\n            if not looking"), "continue"),
 ((F, "        expression = self.clean_statement(expression)\n        tokens = build_splitter().split(expression)", "        cleaned = self.clean_statement(expression)\n        pattern = build_splitter()\n        tokens, at = [], 0\n        for match in pattern.finditer(cleaned):\n            tokens.append(cleaned[at : match.start()])\n            tokens.append(match.group(0))\n            at = match.end()\n        tokens.append(cleaned[at:])"), "finditer"),
]
