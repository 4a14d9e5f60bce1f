E_ = "data/readers/internals/inline_evaluator.py"
Q = "data/readers/internals/sql_reader.py"
REN = '''        return {**row, **{name: row[column] for column, name in renames if column in row}}
'''
LIST = '''    renames = [
        (get_function_name(t), t["as"])
        for t in sql.select_evaluator.tokens  # type:ignore
        if t["as"]
    ]
'''
CALL = '''        builder = {}
        if any(t["type"] == TOKENS.EVERYTHING for t in self.tokens):
            if hasattr(dic, "as_dict"):
                builder = dic.as_dict()
            else:
                builder = dic.copy()
        for field in self.tokens:
            (k, v) = evaluate_field(dic, field)
            builder[k] = v
        return builder
'''
FIELDS = '''            elif token["type"] in (
                TOKENS.VARIABLE,
                TOKENS.INTEGER,
                TOKENS.LITERAL,
                TOKENS.DATE,
                TOKENS.FLOAT,
                TOKENS.BOOLEAN,
                TOKENS.NULL,
            ):
                if token["as"]:
                    yield token["as"]
                else:
                    yield token["value"]
'''
COLL = '''                if ts.token()["type"] == TOKENS.RIGHTPARENTHESES:
                    open_parentheses -= 1
                    if open_parentheses != 0:
                        collector.append(ts.token())
                elif ts.token()["type"] == TOKENS.LEFTPARENTHESES:
                    open_parentheses += 1
                    collector.append(ts.token())
                else:
                    collector.append(ts.token())
                ts.step()
'''
ASB = '''        if not ts.finished() and ts.token()["type"] == TOKENS.AS:
            ts.step()
            if ts.finished():
                raise InvalidEvaluator("Incomplete statement after AS")
            token["as"] = ts.token()["value"]
            ts.step()

        response.append(token)
'''
VAR = '''        variable = token["value"]
        if variable[0] == variable[-1] == "`":
            variable = variable[1:-1]
        return (
            token["value"],
            dict.get(variable),
        )
'''
FUN = '''        if not token["as"]:
            label = get_fields([token]).pop()
            token["as"] = label
        else:
            label = token["as"]
        return (
            label,
            FUNCTIONS[str(token["value"]).upper()](
                *[evaluate_field(dict, t)[1] for t in token["parameters"]]
            ),
        )
'''
BAD = [
 ("C33",(Q,REN,REN.replace("**row, ","")),"only named"),
 ("C33",(Q,REN,'        for column, name in renames:\n            row[name] = row.pop(column, row.get(name))\n        return row\n'),"sequential"),
 ("C33",(Q,REN,'        for column, name in renames:\n            if column in row:\n                row[name] = row[column]\n        return row\n'),"sequential, kept"),
 ("C33",(Q,REN,REN.replace("if column in row","if row.get(column)")),"falsy lost"),
 ("C33",(Q,LIST,LIST.replace('get_function_name(t), t["as"]','t["value"], t["as"]')),"value label"),
 ("C33",(Q,LIST,LIST.replace('if t["as"]','if t["as"] and t["type"] == TOKENS.VARIABLE')),"only variables"),
 ("C33",(E_,"                TOKENS.NULL,\n            ):","            ):"),"null no field"),
 ("C33",(E_,FIELDS,FIELDS.replace('                if token["as"]:\n                    yield token["as"]\n                else:\n                    yield token["value"]\n','                yield token["value"]\n')),"field as ignored"),
 ("C33",(E_,CALL,CALL.replace("dic.copy()","dic")),"record changed"),
 ("C33",(E_,CALL,CALL.replace("            builder[k] = v","            if v is not None:\n                builder[k] = v")),"nulls dropped"),
 ("C33",(E_,CALL,CALL.replace("in self.tokens:\n            (k","in self.tokens[:10]:\n            (k")),"first ten"),
 ("C33",(E_,CALL,CALL.replace("            builder[k] = v","            builder.setdefault(k, v)")),"setdefault"),
 ("C33",(E_,CALL,CALL.replace("any(t[\"type\"] == TOKENS.EVERYTHING for t in self.tokens)","self.tokens[0][\"type\"] == TOKENS.EVERYTHING")),"star first"),
 ("C33",(E_,COLL,COLL.replace("                    open_parentheses += 1\n","")),"nested not counted"),
 ("C33",(E_,COLL,COLL.replace("                    if open_parentheses != 0:\n                        collector.append(ts.token())\n","")),"nested closing lost"),
 ("C33",(E_,COLL,COLL.replace("                    if open_parentheses != 0:\n","                    if open_parentheses > 1:\n")),"nested closing lost 2"),
 ("C33",(E_,ASB,ASB.replace('token["as"] = ts.token()["value"]','token["as"] = ts.token()["value"]\n            token["value"] = token["as"]')),"as replaces value"),
 ("C33",(E_,ASB,ASB.replace('        response.append(token)\n','        if token["as"] or token not in response:\n            response.append(token)\n')),"dups dropped"),
 ("C33",(E_,VAR,VAR.replace("dict.get(variable)","dict.get(variable, token[\"value\"])")),"missing is name"),
 ("C33",(E_,VAR,VAR.replace('''        if variable[0] == variable[-1] == "`":
            variable = variable[1:-1]
''','''        variable = variable.strip("`'")
''')),"strip more"),
 ("C33",(E_,VAR,VAR.replace('''        if variable[0] == variable[-1] == "`":
            variable = variable[1:-1]
''','')),"quotes kept"),
 ("C33",(E_,FUN,FUN.replace('for t in token["parameters"]','for t in token["parameters"][::-1]')),"reversed"),
 ("C33",(E_,FUN,FUN.replace('for t in token["parameters"]','for t in token["parameters"] if t["type"] != TOKENS.NULL')),"null param lost"),
 ("C33",(E_,FUN,FUN.replace('            label,\n','            token["value"],\n')),"function label"),
 ("C33",(E_,"            if ts.finished() or not ts.token()","            if not ts.token()"),"no parens"),
 ("C33",(E_,"            float(token[\"value\"]),","            int(float(token[\"value\"])),"),"float int"),
 ("C33",(E_,"            str(token[\"value\"])[1:-1],","            str(token[\"value\"]).strip(\"'\"),"),"literal strip"),
 ("C33",(E_,"            str(token[\"value\"]).upper() == \"TRUE\",","            bool(token[\"value\"]),"),"bool of text"),
 ("C33",(E_,"            parse_iso(token[\"value\"][1:-1]),","            token[\"value\"][1:-1],"),"date text"),
]
GOOD = [
 ((Q,REN,'        result = dict(row)\n        for column, name in renames:\n            if column in row:\n                result[name] = row[column]\n        return result\n'),"dict copy"),
 ((Q,REN,'        named = {name: row[column] for column, name in renames if column in row}\n        return {**row, **named}\n'),"named"),
 ((Q,REN,'        named = {name: row[column] for column, name in renames if column in row}\n        result = row.copy()\n        result.update(named)\n        return result\n'),"update"),
 ((Q,"        reader = DictSet(map(_perform_renames, reader))","        reader = DictSet(_perform_renames(row) for row in reader)"),"gen"),
 ((Q,LIST,'''    renames = []
    for t in sql.select_evaluator.tokens:
        if t["as"]:
            renames.append((get_function_name(t), t["as"]))
'''),"loop"),
 ((E_,FIELDS,FIELDS.replace('''                if token["as"]:
                    yield token["as"]
                else:
                    yield token["value"]
''','                yield token["as"] or token["value"]\n')),"or"),
 ((E_,CALL,CALL.replace('            (k, v) = evaluate_field(dic, field)\n            builder[k] = v','            name, value = evaluate_field(dic, field)\n            builder[name] = value')),"names"),
 ((E_,CALL,CALL.replace('''            if hasattr(dic, "as_dict"):
                builder = dic.as_dict()
            else:
                builder = dic.copy()
''','''            builder = dic.as_dict() if hasattr(dic, "as_dict") else dict(dic)
''')),"ternary"),
 ((E_,CALL,'''        everything = any(t["type"] == TOKENS.EVERYTHING for t in self.tokens)
        builder = {}
        if everything:
            builder.update(dic.as_dict() if hasattr(dic, "as_dict") else dic)
        builder.update(evaluate_field(dic, field) for field in self.tokens)
        return builder
'''),"update all"),
 ((E_,COLL,'''                inner = ts.token()
                if inner["type"] == TOKENS.RIGHTPARENTHESES:
                    open_parentheses -= 1
                elif inner["type"] == TOKENS.LEFTPARENTHESES:
                    open_parentheses += 1
                if open_parentheses != 0:
                    collector.append(inner)
                ts.step()
'''),"one append"),
 ((E_,VAR,'''        name = token["value"]
        variable = name[1:-1] if name[0] == name[-1] == "`" else name
        return name, dict.get(variable)
'''),"var ternary"),
 ((E_,VAR,VAR.replace('variable[0] == variable[-1] == "`"','variable.startswith("`") and variable.endswith("`")')),"startswith"),
 ((E_,FUN,'''        label = token["as"] or get_fields([token])[0]
        token["as"] = label
        function = FUNCTIONS[str(token["value"]).upper()]
        parameters = [evaluate_field(dict, t)[1] for t in token["parameters"]]
        return label, function(*parameters)
'''),"function"),
 ((E_,FUN,FUN.replace('*[evaluate_field(dict, t)[1] for t in token["parameters"]]','*(evaluate_field(dict, t)[1] for t in token["parameters"])')),"gen params"),
 ((E_,"            str(token[\"value\"]).upper() == \"TRUE\",","            token[\"value\"].lower() == \"true\","),"lower"),
]
