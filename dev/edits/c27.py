D="data/internals/dnf_filters.py"
T="utils/text.py"
ALL="            return all(evaluate(p, record) for p in predicate)\n"
ANY="            return any(evaluate(p, record) for p in predicate)\n"
TUP="        return record_value is not None and OPERATORS[op.lower()](record_value, value)\n"
FIL="            yield from (record for record in dictset if evaluate(self.predicates, record))\n"
LIKE='''    return re.compile(
        r"\\A" + safe_fragment.replace("%", ".*?").replace("_", ".") + r"\\Z", re.DOTALL
    )
'''
SAFE='''    safe_fragment = "".join([REGEX_CHARACTERS.get(ch, ch) for ch in fragment])
'''
BAD=[
 ("C27",(D,'"<=": operator.le','"<=": operator.lt'),"le is lt"),
 ("C27",(D,'"<>": operator.ne','"<>": operator.is_not'),"ne is identity"),
 ("C27",(D,'"!contains": lambda x, y: y not in x','"!contains": lambda x, y: x not in y'),"contains swapped"),
 ("C27",(D,'"!in": lambda x, y: x not in y','"!in": lambda x, y: y not in x'),"!in swapped"),
 ("C27",(D,'"in": lambda x, y: x in y','"in": lambda x, y: str(x) in map(str, y)'),"in by text"),
 ("C27",(D,'"in": lambda x, y: x in y','"in": lambda x, y: x in y or x == y'),"in or equal"),
 ("C27",(D,TUP,TUP.replace("record_value is not None","record_value")),"falsy value dropped"),
 ("C27",(D,TUP,TUP.replace("record_value is not None and ","")),"null compared"),
 ("C27",(D,TUP,TUP.replace("(record_value, value)","(value, record_value)")),"operands swapped"),
 ("C27",(D,TUP,TUP.replace("op.lower()","op")),"case"),
 ("C27",(D,TUP,'''        try:
            return record_value is not None and OPERATORS[op.lower()](record_value, value)
        except TypeError:
            return True
'''),"type errors kept"),
 ("C27",(D,ALL,ALL.replace("all(e","any(e")),"list any"),
 ("C27",(D,ANY,ANY.replace("any(e","all(e")),"lists all"),
 ("C27",(D,ALL,ALL.replace("in predicate)","in predicate[:8])")),"first eight"),
 ("C27",(D,ALL,"            return len(predicate) > 0 and all(evaluate(p, record) for p in predicate)\n"),"empty list drops"),
 ("C27",(D,FIL,FIL.replace(" if evaluate"," if not self.predicates or evaluate").replace("self.predicates or","self.predicates[1:] or")),"one filter ignored"),
 ("C27",(D,FIL,'''            seen = None
            for record in dictset:
                if record != seen and evaluate(self.predicates, record):
                    yield record
                seen = record
'''),"repeats dropped"),
 ("C27",(D,FIL,'''            for record in dictset:
                if not evaluate(self.predicates, record):
                    break
                yield record
'''),"stops at first"),
 ("C27",(D,FIL,FIL.replace("yield from (record for","yield from (dict(record, matched=True) for")),"changed record"),
 ("C27",(T,LIKE,LIKE.replace(", re.DOTALL","")),"no dotall"),
 ("C27",(T,LIKE,LIKE.replace("\\Z","$")),"dollar"),
 ("C27",(T,LIKE,LIKE.replace('r"\\A" + ',"")),"match still anchors"),
 ("C27",(T,LIKE,LIKE.replace('"_", "."','"_", ".?"')),"underscore optional"),
 ("C27",(T,LIKE,LIKE.replace('"%", ".*?"','"%", ".+?"')),"percent some"),
 ("C27",(T,SAFE,'''    safe_fragment = fragment\n'''),"not escaped"),
 ("C27",(T,'".^$*+?{}[]|()\\\\"}','"^$*+?{}[]|()\\\\"}'),"dot not escaped"),
 ("C27",(T,"    return _sql_like_fragment_to_regex(y.lower()).match(str(x).lower())","    return _sql_like_fragment_to_regex(y.lower()).match(str(x))"),"case kept"),
 ("C27",(T,"    return _sql_like_fragment_to_regex(y.lower()).match(str(x).lower())","    return _sql_like_fragment_to_regex(y.lower()).search(str(x).lower())"),"ok search anchored"),
 ("C27",(T,"re.compile(y).search(x)","re.compile(y).match(x)"),"matches anchored"),
]
BAD=[b for b in BAD if b[-1] not in ("match still anchors","ok search anchored")]
GOOD=[
 ((T,LIKE,LIKE.replace('r"\\A" + ',"")),"match anchors"),
 ((T,"    return _sql_like_fragment_to_regex(y.lower()).match(str(x).lower())","    return _sql_like_fragment_to_regex(y.lower()).search(str(x).lower())"),"search anchored"),
 ((T,SAFE,'''    safe_fragment = re.escape(fragment)\n'''),"re.escape"),
 ((T,SAFE,'''    safe_fragment = ""
    for ch in fragment:
        safe_fragment += REGEX_CHARACTERS.get(ch, ch)
'''),"loop"),
 ((T,LIKE,'''    pattern = safe_fragment.replace("_", ".").replace("%", ".*")
    return re.compile("^" + pattern + r"\\Z", flags=re.S)
'''),"flags keyword"),
 ((T,"    return re.compile(y).search(x) != None","    return re.search(y, x) is not None"),"re.search"),
 ((T,"    return re.compile(y).search(x) != None","    found = re.search(y, x)\n    return bool(found)"),"bool"),
 ((D,'"!in": lambda x, y: x not in y','"!in": lambda x, y: not operator.contains(y, x)'),"operator.contains"),
 ((D,'">": operator.gt','">": lambda x, y: y < x'),"gt swapped"),
 ((D,TUP,'''        if record_value is None:
            return False
        compare = OPERATORS[op.lower()]
        return compare(record_value, value)
'''),"early return"),
 ((D,TUP,'''        if record_value is None:
            return False
        if OPERATORS[op.lower()](record_value, value):
            return True
        return False
'''),"if true"),
 ((D,ALL,'''            for p in predicate:
                if not evaluate(p, record):
                    return False
            return True
'''),"all loop"),
 ((D,ANY,'''            for p in predicate:
                if evaluate(p, record):
                    return True
            return False
'''),"any loop"),
 ((D,FIL,'''            for record in dictset:
                if self(record):
                    yield record
'''),"call self"),
 ((D,FIL,'''            yield from filter(self, dictset)
'''),"filter builtin"),
 ((D,FIL,'''            for record in dictset:
                if not evaluate(self.predicates, record):
                    continue
                yield record
'''),"continue"),
 ((D,'''        self.empty_filter = filters is None
''','''        self.empty_filter = filters is None or len(filters) == 0
'''),"empty"),
]
