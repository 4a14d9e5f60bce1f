X="data/internals/expression.py"
L="utils/token_labeler.py"
NOTE="        if treeNode.token_type == TOKENS.NOT:\n            return not left\n"
AND="            return left and right\n"
OR="            return left or right\n"
OPS='''            try:
                return OPERATORS[treeNode.value](left, right)
            except (TypeError, ValueError):
                return None
'''
VAR='''            if treeNode.value in variable_dict:
                value = variable_dict[treeNode.value]
                return self.interpret_value(value)
            return None
'''
INT='''        if not isinstance(value, str):
            return value
        if value.upper() in ("TRUE", "FALSE"):
            return value.upper() == "TRUE"

        try:
            num = int(value)
            return num
        except ValueError:
            pass

        try:
            num = float(value)
            return num
        except ValueError:
            pass

        return parse_iso(value) or value
'''
CHAIN='''        andTerm1 = self.parse_and_term()
        while self.tokenizer.has_next() and self.tokenizer.next_token_type() == TOKENS.OR:
            self.tokenizer.next()
            andTermX = self.parse_and_term()
            andTerm = TreeNode(TOKENS.OR, None)
            andTerm.left = andTerm1
            andTerm.right = andTermX
            andTerm1 = andTerm
        return andTerm1
'''
LISTP='''                    if self.tokenizer.next_token_type() != TOKENS.COMMA:
                        collector.append(self.interpret_value(self.tokenizer.next()))
                    else:
                        self.tokenizer.next()
'''
COND='''                self.tokenizer.next()
                terminal2 = self.parse_terminal()
                condition.left = terminal1
                condition.right = terminal2
                return condition
'''
BAD=[
 ("C28",(X,AND,"            return left or right\n",),(X,OR,"            return left and right\n"),"x"),
 ("C28",(X,AND,"            return bool(left) == bool(right)\n"),"and equal"),
 ("C28",(X,OR,"            return left ^ right\n"),"or xor"),
 ("C28",(X,NOTE,"        if treeNode.token_type == TOKENS.NOT:\n            return left is False\n"),"not is false"),
 ("C28",(X,NOTE,"        if treeNode.token_type == TOKENS.NOT:\n            return None if left is None else not left\n"),"not null"),
 ("C28",(X,"            except (TypeError, ValueError):\n","            except ValueError:\n"),"no typeerror"),
 ("C28",(X,OPS,OPS.replace("return None","return treeNode.value != '='")),"cannot compare true"),
 ("C28",(X,"(left, right)\n            except","(right, left)\n            except"),"swapped"),
 ("C28",(X,VAR,VAR.replace("            return None","            return treeNode.value")),"missing is name"),
 ("C28",(X,"            if treeNode.value in variable_dict:\n","            if variable_dict.get(treeNode.value):\n"),"falsy missing"),
 ("C28",(X,INT,INT.replace('''        if value.upper() in ("TRUE", "FALSE"):
            return value.upper() == "TRUE"

''','''        if value in ("True", "False"):
            return value == "True"

''')),"bool case"),
 ("C28",(X,INT,INT.replace("int(value)","int(float(value))")),"int truncates"),
 ("C28",(X,INT,INT.replace("parse_iso(value) or value","parse_iso(value)")),"text none"),
 ("C28",(X,INT,INT.replace("num = float(value)\n            return num","num = float(value)\n            return round(num, 6)")),"rounded"),
 ("C28",(L,'">=": operator.ge','">=": operator.gt'),"ge gt"),
 ("C28",(L,'"NOT LIKE": not_like','"NOT LIKE": like'),"not like like"),
 ("C28",(L,'"IS NOT": operator.is_not','"IS NOT": operator.ne'),"is not ne"),
 ("C28",(L,'''    return y in x
''','''    return str(y) in str(x)
'''),"contains text"),
 ("C28",(L,'''if str(i).strip() != ","]''','''if str(i).strip() not in (",", "0")]'''),"zero not in"),
 ("C28",(L,'''if str(i).strip() != ","]''','''if i and str(i).strip() != ","]'''),"falsy not in"),
 ("C28",(L,'''    return x in candidates
''','''    return x in candidates[:100]
'''),"hundred"),
 ("C28",(L,'''        value = value[1:-1]
    return parse_iso''','''        value = value[1:]
    return parse_iso'''),"quote kept"),
 ("C29",(X,CHAIN,CHAIN.replace("while","if")),"two ors only"),
 ("C29",(X,CHAIN,CHAIN.replace("andTerm.left = andTerm1","andTerm.left = andTermX").replace("andTerm.right = andTermX","andTerm.right = andTerm1")),"or swapped"),
 ("C29",(X,CHAIN,CHAIN.replace("andTermX = self.parse_and_term()","andTermX = self.parse_condition()")),"and after or"),
 ("C29",(X,CHAIN,CHAIN.replace("            andTerm1 = andTerm\n","            andTerm1 = andTerm if andTerm1 else andTermX\n            break\n")),"or break"),
 ("C29",(X,"            condition = TreeNode(TOKENS.AND, None)\n","            condition = TreeNode(TOKENS.OR, None)\n"),"and is or"),
 ("C29",(X,"            child_condition = self.parse_condition()\n","            child_condition = self.parse_and_term()\n"),"not takes and"),
 ("C29",(X,"            child_condition = self.parse_condition()\n","            child_condition = self.parse_expression()\n"),"not takes all"),
 ("C29",(X,COND,COND.replace("condition.left = terminal1","condition.left = terminal2").replace("condition.right = terminal2","condition.right = terminal1")),"sides swapped"),
 ("C29",(X,COND,COND.replace("                condition.left","                if self.tokenizer.has_next() and self.tokenizer.next_token_type() == TOKENS.COMMA:\n                    self.tokenizer.next()\n                condition.left")),"comma skipped"),
 ("C29",(X,LISTP,LISTP.replace("                        self.tokenizer.next()\n","                        self.tokenizer.next()\n                        self.tokenizer.next()\n")),"list skips"),
 ("C29",(X,'''        if self.tokenizer.has_next():
            raise InvalidExpression(f"Unexpected token, got `{self.tokenizer.next()}`")

    def parse_expression''','''
    def parse_expression'''),"leftover"),
 ("C29",(X,'''        if self.tokenizer.has_next():
            raise InvalidExpression(f"Unexpected token, got `{self.tokenizer.next()}`")

    def parse_expression''','''        if self.tokenizer.has_next() and self.tokenizer.next_token_type() != TOKENS.RIGHTPARENTHESES:
            raise InvalidExpression(f"Unexpected token, got `{self.tokenizer.next()}`")

    def parse_expression'''),"leftover )"),
 ("C29",(X,'''                n = TreeNode(token_type, str(self.tokenizer.next()[1:-1]))''','''                n = TreeNode(token_type, self.tokenizer.next().strip("'\\""))'''),"literal strip"),
 ("C29",(X,'''self.tokenizer.next().lower() == "true")''','''self.tokenizer.next() == "true")'''),"boolean case"),
 ("C29",(X,'''parse_iso(self.tokenizer.next()[1:-1])''','''parse_iso(self.tokenizer.next()[1:11])'''),"date cut"),
 ("C29",(X,'''                collector.append(self.tokenizer.next())

            if open''','''                token = self.tokenizer.next()
                if token != ",":
                    collector.append(token)

            if open'''),"function commas"),
 ("C29",(L,'''                TOKENS.LITERAL,
                TOKENS.VARIABLE,
                TOKENS.SUBQUERY,''','''                TOKENS.VARIABLE,
                TOKENS.SUBQUERY,'''),"literal upper"),
 ("C29",(L,"    NOT = 17\n","    NOT = 16\n"),"kinds"),
]
BAD=[b for b in BAD if b[-1]!="x"]
GOOD=[
 ((X,AND,"            return bool(left) and bool(right)\n"),"and bool"),
 ((X,OR,"            return True if left else right\n"),"or if"),
 ((X,NOTE,"        if treeNode.token_type == TOKENS.NOT:\n            return False if left else True\n"),"not if"),
 ((X,OPS,'''            operation = OPERATORS[treeNode.value]
            try:
                result = operation(left, right)
            except (TypeError, ValueError):
                result = None
            return result
'''),"result var"),
 ((X,VAR,'''            if treeNode.value not in variable_dict:
                return None
            return self.interpret_value(variable_dict[treeNode.value])
'''),"not in"),
 ((X,VAR,'''            value = variable_dict.get(treeNode.value)
            return self.interpret_value(value)
'''),"get"),
 ((X,INT,'''        if not isinstance(value, str):
            return value
        upper = value.upper()
        if upper == "TRUE":
            return True
        if upper == "FALSE":
            return False
        for kind in (int, float):
            try:
                return kind(value)
            except ValueError:
                continue
        parsed = parse_iso(value)
        return parsed if parsed else value
'''),"kind loop"),
 ((X,CHAIN,'''        left = self.parse_and_term()
        while self.tokenizer.has_next():
            if self.tokenizer.next_token_type() != TOKENS.OR:
                break
            self.tokenizer.next()
            joined = TreeNode(TOKENS.OR, None)
            joined.left, joined.right = left, self.parse_and_term()
            left = joined
        return left
'''),"or while break"),
 ((X,CHAIN,'''        return self._chain(TOKENS.OR, self.parse_and_term)

    def _chain(self, kind, part):
        first = part()
        while self.tokenizer.has_next() and self.tokenizer.next_token_type() == kind:
            self.tokenizer.next()
            node = TreeNode(kind, None)
            node.left = first
            node.right = part()
            first = node
        return first
'''),"or helper"),
 ((X,CHAIN,'''        left = self.parse_and_term()
        if self.tokenizer.has_next() and self.tokenizer.next_token_type() == TOKENS.OR:
            self.tokenizer.next()
            node = TreeNode(TOKENS.OR, None)
            node.left = left
            node.right = self.parse_expression()
            return node
        return left
'''),"or recursion"),
 ((X,LISTP,'''                    token = self.tokenizer.peek()
                    if self.tokenizer.next_token_type() == TOKENS.COMMA:
                        self.tokenizer.next()
                        continue
                    collector.append(self.interpret_value(token))
                    self.tokenizer.next()
'''),"list continue"),
 ((X,COND,'''                self.tokenizer.next()
                condition.left = terminal1
                condition.right = self.parse_terminal()
                return condition
'''),"inline right"),
 ((L,'''    candidates = [interpret_value(i) for i in y if str(i).strip() != ","]

    return x in candidates
''','''    candidates = []
    for i in y:
        if str(i).strip() == ",":
            continue
        candidates.append(interpret_value(i))
    return x in candidates
'''),"in loop"),
 ((L,'''    return y in x
''','''    return operator.contains(x, y)
'''),"contains operator"),
 ((L,'''            if get_token_type(token) in (
                TOKENS.LITERAL,
                TOKENS.VARIABLE,
                TOKENS.SUBQUERY,
            ):
                yield token
            else:
                yield token.upper()
''','''            kind = get_token_type(token)
            keep = kind in (TOKENS.LITERAL, TOKENS.VARIABLE, TOKENS.SUBQUERY)
            yield token if keep else token.upper()
'''),"case ite"),
]
