Q="data/readers/internals/sql_reader.py"
FIRST='''        if not dataset[0].isalpha():
            raise InvalidSqlError("Malformed FROM clause - must start with a letter.")
'''
REPEAT='''        if ".." in dataset or "//" in dataset or "--" in dataset:
'''
CHARS='''        if (
            not dataset.replace(".", "")
            .replace("/", "")
            .replace("-", "")
            .replace("_", "")
            .isalnum()
        ):
'''
CALL='''        if isinstance(self.dataset, str):
            self.validate_dataset(self.dataset)
'''
NEED='''        if self.dataset is None or self.select_expression is None:
'''
LOOP='''            if labeler.next_token_value().upper() not in SQL_PARTS:
                collection.append(labeler.next_token_value())
                labeler.next()
            else:
                break
'''
DIRECTION='''                if labeler.has_next() and labeler.next_token_value().upper() in (
                    "ASC",
                    "DESC",
                ):
                    self.order_descending = labeler.next_token_value().upper() == "DESC"
                    labeler.next()
'''
SUBLOOP='''                        if labeler.next_token_type() == TOKENS.RIGHTPARENTHESES:
                            open_parentheses -= 1
                            if open_parentheses != 0:
                                collector.append(labeler.peek())
                        elif labeler.next_token_type() == TOKENS.LEFTPARENTHESES:
                            open_parentheses += 1
                            collector.append(labeler.peek())
                        else:
                            collector.append(labeler.peek())
                        labeler.next()
'''
DIST='''                if labeler.next_token_value().upper() == "DISTINCT":
                    labeler.next()
                    self.distinct = True
                    while labeler.has_next() and labeler.next_token_type() == TOKENS.EMPTY:
                        labeler.next()
'''
SUBQ='''        reader = SqlReader("".join(sql.dataset), **kwargs)
        if actual_select != "*":
            reader = DictSet(map(Evaluator(actual_select), reader))
        if sql.where_expression:
            reader = reader.filter(sql.where_expression)
'''
GROUPS='''            groups = [group.strip() for group in sql.group_by.split(",") if group.strip() != ""]
'''
AGGS='''            if t["type"] == TOKENS.AGGREGATOR:
                aggregations.append((t["value"], t["parameters"][0]["value"]))
                if t["as"]:
                    t["raw"] = get_function_name(t)
                    renames.append(t)
            elif t["type"] == TOKENS.VARIABLE and t["value"] not in groups:
'''
ORDER='''        take = 10000  # the Query UI is currently set to 2000
        if sql.limit is not None:
            take = int(sql.limit)
'''
SELECT='''    if not sql.distinct:
        reader = reader.select(sql.select_evaluator.fields())  # type:ignore
'''
LIMIT='''    if sql.limit is not None:
        reader = reader.take(sql.limit)
'''
DISTINCT='''    if sql.distinct:
        reader = reader.select(sql.select_evaluator.fields())  # type:ignore
        reader = reader.distinct()
'''
HAVING='''    if sql.having:
        reader = reader.filter(sql.having)
'''
ANY='''    if sql.group_by or any(
        [t["type"] == TOKENS.AGGREGATOR for t in sql.select_evaluator.tokens]  # type:ignore
    ):
'''
BAD=[
 ("C30",(Q,FIRST,""),"no first letter check"),
 ("C30",(Q,'if not dataset[0].isalpha()','if dataset[0] == "/"'),"only a slash refused first"),
 ("C30",(Q,'if not dataset[0].isalpha()','if not dataset[-1].isalpha()'),"last char checked"),
 ("C30",(Q,REPEAT,'        if ".." in dataset and "//" in dataset or "--" in dataset:\n'),"and"),
 ("C30",(Q,REPEAT,'        if ".." in dataset or "--" in dataset:\n'),"// allowed"),
 ("C30",(Q,REPEAT,'        if dataset.startswith("..") or "//" in dataset or "--" in dataset:\n'),".. only first"),
 ("C30",(Q,'            .replace("_", "")\n','            .replace("_", "")\n            .replace(" ", "")\n'),"spaces allowed"),
 ("C30",(Q,'            .replace("_", "")\n            .isalnum()','            .replace("_", "")\n            .isprintable()'),"printable"),
 ("C30",(Q,CALL,"        if isinstance(self.dataset, str) and self.where_expression is None:\n            self.validate_dataset(self.dataset)\n"),"only without where"),
 ("C30",(Q,CALL,""),(Q,'self.dataset = self.collector(labeler).replace(".", "/")','dataset = self.collector(labeler)\n                    self.validate_dataset(dataset)\n                    self.dataset = dataset.replace(".", "/")'),"validated before replacing dots: a. . -> fine? // from .."),
 ("C30",(Q,CALL,"        if isinstance(self.dataset, str):\n            self.validate_dataset(self.dataset.strip('/'))\n"),"checks something else"),
 ("C30",(Q,NEED,"        if self.dataset is None and self.select_expression is None:\n"),"and required"),
 ("C30",(Q,"            dataset=sql.dataset,\n","            dataset=sql.dataset.strip(),\n            \n" if 0 else "            dataset=sql_statement.upper().split('FROM')[1].split()[0],\n"),"reads another name"),
 ("C31",(Q,'self.where_expression = self.collector(labeler)','self.having = self.collector(labeler)'),"where kept as having"),
 ("C31",(Q,'self.having = self.collector(labeler)','self.having = self.where_expression = self.collector(labeler)'),"having overwrites where"),
 ("C31",(Q,'self.group_by = self.collector(labeler)','self.group_by = self.collector(labeler).upper()'),"group by upper"),
 ("C31",(Q,'self.dataset = self.collector(labeler).replace(".", "/")','self.dataset = self.collector(labeler).replace(".", "/").lower()'),"dataset lower"),
 ("C31",(Q,'self.order_descending = labeler.next_token_value().upper() == "DESC"','self.order_descending = labeler.next_token_value() == "DESC"'),"desc lower case ignored"),
 ("C31",(Q,'self.order_descending = labeler.next_token_value().upper() == "DESC"','self.order_descending = labeler.next_token_value().upper() != "DESC"'),"desc inverted"),
 ("C31",(Q,'                    self.distinct = True\n','                    self.distinct = not self.distinct\n'),"distinct toggles"),
 ("C31",(Q,DIST,DIST+'                self.distinct = True\n'),"always distinct"),
 ("C31",(Q,'self.limit = int(self.collector(labeler))','self.limit = self.collector(labeler)'),"limit text"),
 ("C31",(Q,'self.limit = int(self.collector(labeler))','self.limit = min(int(self.collector(labeler)), 10000)'),"limit capped"),
 ("C31",(Q,'''            else:
                raise InvalidSqlError(f"Invalid statement - unexpected `{labeler.peek()}`.")
''','''            else:
                labeler.next()
'''),"unexpected skipped"),
 ("C31",(Q,'''            else:
                raise InvalidSqlError(f"Invalid statement - unexpected `{labeler.peek()}`.")
''',''),"unexpected hangs"),
 ("C31",(Q,LOOP,LOOP.replace("not in SQL_PARTS","not in SQL_PARTS[2:]")),"collector reads over SELECT"),
 ("C31",(Q,'    r"HAVING",\n    r"ORDER BY",\n','    r"ORDER BY",\n'),"having not a part"),
 ("C31",(Q,'        return "".join(collection).strip()','        return " ".join(collection).strip()'),"space join"),
 ("C31",(Q,'                collection.append(labeler.next_token_value())','                collection.append(labeler.next_token_value().lower())'),"text lowered"),
 ("C31",(Q,LOOP,LOOP.replace("                collection.append(labeler.next_token_value())\n","                if labeler.next_token_value() != '(':\n                    collection.append(labeler.next_token_value())\n")),"drops parentheses"),
 ("C31",(Q,SUBLOOP,SUBLOOP.replace("                            open_parentheses += 1\n","")),"nested not counted"),
 ("C31",(Q,SUBLOOP,SUBLOOP.replace("                            if open_parentheses != 0:\n                                collector.append(labeler.peek())\n","                            collector.append(labeler.peek())\n")),"last paren kept"),
 ("C31",(Q,SUBLOOP,SUBLOOP.replace("                            open_parentheses += 1\n                            collector.append(labeler.peek())\n","                            open_parentheses += 1\n")),"nested paren lost"),
 ("C31",(Q,'            elif labeler.peek().upper() == "HAVING":','            elif labeler.peek() == "HAVING":'),"having upper only"),
 ("C32",(Q,SUBQ,SUBQ.replace("        if sql.where_expression:\n            reader = reader.filter(sql.where_expression)\n","")),"subquery where ignored"),
 ("C32",(Q,"            filters=sql.where_expression,\n",""),"where ignored"),
 ("C32",(Q,"            filters=sql.where_expression,\n","            filters=sql.where_expression or sql.having,\n"),"having as where"),
 ("C32",(Q,'        actual_select = sql.select_expression + ", *"','        actual_select = sql.select_expression'),"select only the columns before where"),
 ("C32",(Q,GROUPS,'            groups = [sql.group_by.split(",")[0].strip()]\n'),"only first group"),
 ("C32",(Q,GROUPS,'            groups = [group.strip() for group in sql.group_by.split(",") if group.strip() in sql.select_expression]\n'),"only selected groups"),
 ("C32",(Q,AGGS,AGGS.replace('if t["type"] == TOKENS.AGGREGATOR:','if t["type"] == TOKENS.AGGREGATOR and not t["as"]:')),"renamed aggs lost"),
 ("C32",(Q,AGGS,AGGS.replace('t["parameters"][0]["value"]','t["parameters"][-1]["value"]')),"last param"),
 ("C32",(Q,AGGS,AGGS.replace('            elif t["type"] == TOKENS.VARIABLE and t["value"] not in groups:','            elif t["type"] == TOKENS.VARIABLE and t["value"] not in groups and not sql.having:')),"ungrouped allowed with having"),
 ("C32",(Q,ORDER,'        take = 10000\n        if sql.limit:\n            take = int(sql.limit)\n'),"limit 0 sorts 10000? still taken 0"),
 ("C32",(Q,ORDER,'        take = 10000\n        if sql.limit is not None:\n            take = min(int(sql.limit), 1000)\n'),"cap"),
 ("C32",(Q,ORDER,'        take = 1000\n        if sql.limit is not None:\n            take = int(sql.limit)\n'),"cap 1000"),
 ("C32",(Q,"take=take, descending=sql.order_descending","take=take, descending=not sql.order_descending"),"inverted"),
 ("C32",(Q,"take=take, descending=sql.order_descending","take=take"),"direction ignored"),
 ("C32",(Q,LIMIT,"    if sql.limit:\n        reader = reader.take(sql.limit)\n"),"limit 0 ignored"),
 ("C32",(Q,LIMIT,"    if sql.limit is not None and not sql.distinct:\n        reader = reader.take(sql.limit)\n"),"limit ignored with distinct"),
 ("C32",(Q,LIMIT,""),(Q,"    # GROUP BY clause\n",LIMIT+"    # GROUP BY clause\n"),"limit before grouping"),
 ("C32",(Q,DISTINCT,"    if sql.distinct:\n        reader = reader.distinct()\n        reader = reader.select(sql.select_evaluator.fields())\n"),"distinct before select"),
 ("C32",(Q,DISTINCT,DISTINCT.replace("if sql.distinct:","if sql.distinct and not sql.order_by:")),"distinct ignored with order"),
 ("C32",(Q,HAVING,""),"having ignored"),
 ("C32",(Q,HAVING,HAVING.replace("if sql.having:","if sql.having and sql.group_by:")),"having only with group by"),
 ("C32",(Q,HAVING,""),(Q,LIMIT,LIMIT+HAVING),"having after limit"),
 ("C32",(Q,SELECT,"    if not sql.distinct and not sql.limit:\n        reader = reader.select(sql.select_evaluator.fields())\n"),"select missing with limit"),
 ("C32",(Q,ANY,"    if sql.group_by:\n"),"aggregation without group by"),
 ("C32",(Q,ANY,ANY.replace("any(","all(")),"all aggregators"),
 ("C32",(Q,"        if aggregations:\n","        if aggregations and sql.group_by:\n"),"no aggregation w/o group by"),
 ("C32",(Q,"    if renames:\n        reader = DictSet(map(_perform_renames, reader))\n",""),"no renames"),
 ("C32",(Q,'        reader = SqlReader("".join(sql.dataset), **kwargs)\n','        reader = SqlReader("".join(sql.dataset), **kwargs).take(10000)\n'),"subquery capped"),
]
GOOD=[
 ((Q,FIRST,'        if dataset == "" or not dataset[0].isalpha():\n            raise InvalidSqlError("Malformed FROM clause - must start with a letter.")\n'),"empty"),
 ((Q,REPEAT,'        if any(bad in dataset for bad in ("..", "//", "--")):\n'),"any"),
 ((Q,REPEAT,'        invalid = ["..", "//", "--"]\n        if [1 for bad in invalid if bad in dataset]:\n'),"list"),
 ((Q,CHARS,'        if any(not (c.isalnum() or c in "./-_") for c in dataset):\n'),"each char"),
 ((Q,CHARS,'        if not all(c.isalnum() or c in (".", "/", "-", "_") for c in dataset):\n'),"all char"),
 ((Q,CHARS,'        reduced = dataset\n        for allowed in (".", "/", "-", "_"):\n            reduced = reduced.replace(allowed, "")\n        if not reduced.isalnum():\n'),"loop"),
 ((Q,CALL+"\n",""),(Q,NEED+'''            raise InvalidSqlError(
                "Invalid statement - all statements require SELECT and FROM clauses."
            )
''',NEED+'''            raise InvalidSqlError(
                "Invalid statement - all statements require SELECT and FROM clauses."
            )
        if not isinstance(self.dataset, list):
            self.validate_dataset(self.dataset)
'''),"validated last"),
 ((Q,LOOP,'''            part = labeler.next_token_value()
            if part.upper() in SQL_PARTS:
                break
            collection.append(part)
            labeler.next()
'''),"collector rewritten"),
 ((Q,LOOP,'''            if labeler.peek().upper() in SQL_PARTS:
                break
            collection.append(labeler.next())
'''),"collector rewritten 2"),
 ((Q,DIRECTION,'''                if labeler.has_next():
                    direction = labeler.next_token_value().upper()
                    if direction in ("ASC", "DESC"):
                        self.order_descending = direction == "DESC"
                        labeler.next()
'''),"direction"),
 ((Q,SUBLOOP,'''                        kind = labeler.next_token_type()
                        if kind == TOKENS.RIGHTPARENTHESES:
                            open_parentheses -= 1
                        elif kind == TOKENS.LEFTPARENTHESES:
                            open_parentheses += 1
                        if open_parentheses > 0:
                            collector.append(labeler.peek())
                        labeler.next()
'''),"sub loop"),
 ((Q,"        while labeler.has_next():\n            if labeler.peek().strip() == \"\":\n                labeler.next()\n            elif labeler.peek().upper() == \"SELECT\":","        while labeler.has_next():\n            keyword = labeler.peek().upper()\n            if not keyword.strip():\n                labeler.next()\n            elif keyword == \"SELECT\":"),"keyword var"),
 ((Q,'            elif labeler.peek().upper() == "WHERE":\n                labeler.next()\n                self.where_expression = self.collector(labeler)\n',''),(Q,'            elif labeler.peek().upper() == "GROUP BY":','            elif labeler.peek().upper() == "WHERE":\n                labeler.next()\n                text = self.collector(labeler)\n                self.where_expression = text\n            elif labeler.peek().upper() == "GROUP BY":'),"where"),
 ((Q,ORDER,'        take = 10000 if sql.limit is None else int(sql.limit)\n'),"ternary"),
 ((Q,SELECT+"\n    # LIMIT clause\n"+LIMIT,LIMIT+"\n"+SELECT),"take then select"),
 ((Q,GROUPS,'            groups = []\n            for group in sql.group_by.split(","):\n                if group.strip():\n                    groups.append(group.strip())\n'),"groups loop"),
 ((Q,GROUPS,'            groups = [g for g in (group.strip() for group in sql.group_by.split(",")) if g]\n'),"groups nested"),
 ((Q,AGGS,AGGS.replace('aggregations.append((t["value"], t["parameters"][0]["value"]))','column = t["parameters"][0]["value"]\n                aggregations.append((t["value"], column))')),"column"),
 ((Q,ANY,'''    aggregating = any(t["type"] == TOKENS.AGGREGATOR for t in sql.select_evaluator.tokens)
    if sql.group_by or aggregating:
'''),"any gen"),
 ((Q,DISTINCT,'''    if sql.distinct:
        fields = sql.select_evaluator.fields()
        reader = reader.select(fields).distinct()
'''),"chained"),
 ((Q,SUBQ,'''        reader = SqlReader("".join(sql.dataset), **kwargs)
        if actual_select != "*":
            evaluator = Evaluator(actual_select)
            reader = DictSet(evaluator(row) for row in reader)
        if sql.where_expression is not None:
            reader = reader.filter(sql.where_expression)
'''),"sub gen"),
 ((Q,'    actual_select = sql.select_expression\n    if sql.select_expression is None:\n        actual_select = "*"\n    elif sql.select_expression != "*":\n        actual_select = sql.select_expression + ", *"\n','    actual_select = "*" if sql.select_expression in (None, "*") else f"{sql.select_expression}, *"\n'),"select"),
]
