"""C29 the shape of filter expressions."""
from ..rulelib import *
from .filters import EXP, LAB, bare

E = EXP + ".Expression"
TOK = S("=exp", "list")
SUB = ("parse", "parse_expression", "parse_and_term", "parse_condition", "parse_terminal")


def plus(i, n=1):
    """the position n after i"""
    for _ in range(n):
        i = C(i[2] + 1) if i[0] == "c" else ("bin", "+", i, C(1))
    return i


def token(i):
    return ("item", TOK, i)


class Parser:
    """one of the parser's methods, on any tokens, with the others standing for themselves"""

    def __init__(self, ck):
        self.ck, self.mode = ck, "build"
        self.I = ck.interp(keep_facts=True, ret_max=400, max_states=400, extra_pure=(), on_call=self.oc, stop={"interpret_value", "parse_iso"},
                           watch=lambda k, n: k in ("call", "mut", "iter", "enditer"))
        self.kind = {n: self.I.value(LAB + ".TOKENS." + n) for n in ("INTEGER", "FLOAT", "LITERAL", "VARIABLE", "BOOLEAN", "DATE", "NULL", "LEFTPARENTHESES", "RIGHTPARENTHESES",
                                                                      "COMMA", "FUNCTION", "AGGREGATOR", "OPERATOR", "AND", "OR", "NOT")}
        self.s0, self.r = build(self.I, self.I.value(E), (TOK,), {})[0]

    def at(self, st, ref=None):
        tk = st.get((ref or self.r)[1]).d["tokenizer"]
        return self.I.freeze(st, st.get(tk[1]).d["i"])

    def oc(self, I, st, f, args, kw, fr, node):
        if f[0] != "fn":
            return None
        q = I.callee_name(f)
        if q == LAB + ".get_token_type":
            return [(st, "v", ("type", I.freeze(st, args[0])))]
        if not q.startswith(E + "."):
            return None
        n = q.split(".")[-1]
        if self.mode == "build":
            return None if n == "__init__" else [(st, "v", NONE)]
        if self.mode == n:
            self.mode = "run"
            return None
        if n in SUB:
            i = self.at(st, args[0])
            v = ("opq", "sub:" + n, I.site(node, fr))
            st = I.emit(st, "call", "#" + n, None, (i,), {}, v, fr, node)
            st = havoc(I, st, st.get(args[0][1]).d["tokenizer"], prefix=f"after:{n}:{I.site(node, fr)}:")[0]
            return [(st, "v", v)]

    def outcomes(self, name):
        self.ck.saw(E + "." + name)
        self.mode = name
        for s, k, v in self.ck.took(self.I.method(self.I.clear(self.s0), self.r, name, ())):
            if k == "ret" and not impossible(s):
                yield s, v

    def types(self, s, i):
        """(what the token at i is, what it is not)"""
        yes, no = set(), set()
        for f, b in s.facts.items():
            if f[0] == "cmp" and f[1] in ("eq", "is") and ("type", token(i)) in f[2:]:
                o = f[3] if f[2] == ("type", token(i)) else f[2]
                (yes if b else no).update(n for n, c in self.kind.items() if c == o)
        return yes, no

    def is_(self, s, i, *kinds):
        return bool(self.types(s, i)[0] & set(kinds))

    def isnt(self, s, i, *kinds):
        yes, no = self.types(s, i)
        return ended(s, i) or set(kinds) <= no or bool(yes - set(kinds))

    def node(self, s, v):
        """(kind, value, left, right) of a node"""
        if v[0] != "ref" or s.get(v[1]) is None or s.get(v[1]).kind not in ("obj", "inst", "instance"):
            return None
        d = s.get(v[1]).d
        if not {"token_type", "value", "left", "right"} <= set(d):
            return None
        t = self.I.freeze(s, d["token_type"])
        names = [n for n, c in self.kind.items() if c == t]
        if t[0] == "type":
            for f, b in s.facts.items():
                if b and f[0] == "cmp" and f[1] == "eq" and t in f[2:]:
                    names += [n for n, c in self.kind.items() if c in f[2:]]
        return names[0] if names else None, d["value"], d["left"], d["right"]


def impossible(s):
    """a token was looked at although there was none"""
    for f, b in s.facts.items():
        for y in walk(f):
            if y[0] == "item" and y[1] == TOK and ended(s, y[2]):
                return True
    return False


def ended(s, i):
    n = ("call", ("ext", "builtins.len"), (TOK,), (), None)
    if i == C(0) and s.facts.get(("truth", TOK)) is False:
        return True
    return s.facts.get(("cmp", "lt", i, n)) is False or s.facts.get(("cmp", "le", n, i)) is True or s.facts.get(("cmp", "ge", i, n)) is True or s.facts.get(("cmp", "eq", i, n)) is True


def subs(s):
    return [e for e in s.trace if e.kind == "call" and e.name and e.name.startswith("#")]


def shape(ck):
    P = Parser(ck)
    chain(ck, P, "parse_expression", "OR", "parse_and_term")
    chain(ck, P, "parse_and_term", "AND", "parse_condition")
    condition(ck, P)
    terminal(ck, P)
    whole(ck, P)
    kinds = list(P.kind.values())
    ck.ob("kinds", "TOKENS", all(k[0] == "c" for k in kinds) and len(set(kinds)) == len(kinds), "two kinds of token are the same", None)
    cases(ck)
    ck.need("joined", 6)
    ck.need("condition", 8)
    ck.need("terminal", 10)
    ck.need("whole", 2)


def chain(ck, P, name, kind, part):
    """one part, or several with `kind` between them"""
    for s, v in P.outcomes(name):
        ss, end = subs(s), P.at(s)
        after = {e.res: f"after:{e.name[1:]}:{e.res[2]}:i" for e in ss}
        ok = bool(ss) and ss[0].name == "#" + part and ss[0].args[0] == C(0) and all(e.name in ("#" + part, "#" + name) for e in ss)
        why = "the first part is not read first"
        if ok and len(ss) == 1 and not ss[0].loops:
            ok, why = v == ss[0].res, "the only part is not the result"
            ok = ok and end[0] == "sym" and end[1] == after[v] and P.isnt(s, end, kind)
            if v[0] == "phi" and v[-1] == ss[0].res:   # what the turns so far have made
                ok = end[0] == "phi" and P.isnt(s, end, kind)
        elif ok:
            more = ss[1:]
            e = more[-1]
            i = e.args[0]
            at = i[2] if i[0] == "bin" and i[3] == C(1) else None
            why = f"a part is not read right after the {kind}"
            ok = len(more) == 1 and at is not None and P.is_(s, at, kind)
            n = P.node(s, v)
            if ok:
                why = f"the parts are not the sides of an {kind}"
                first = n and n[2] == ss[0].res or n and n[2][0] == "phi" and ss[0].res in n[2]
                ok = n is not None and n[0] == kind and bool(first) and n[3] == e.res and end[0] == "sym" and end[1] == after[e.res]
            if ok and e.name == "#" + part:
                why, ok = f"an {kind} may be left unread", P.isnt(s, end, kind)
        ck.ob("joined", name, ok, why, ss[-1] if ss else None, [show(P.I.freeze(s, v))] + facts_of(s))


def facts_of(s):
    return [("" if b else "not ") + show(f, 6) for f, b in s.facts.items()]


def condition(ck, P):
    for s, v in P.outcomes("parse_condition"):
        ss, end, n = subs(s), P.at(s), P.node(s, v)
        nm = [e.name[1:] for e in ss]

        def after(e):
            return S(f"after:{e.name[1:]}:{e.res[2]}:i", "nat")
        if P.is_(s, C(0), "NOT"):
            ok = nm == ["parse_condition"] and ss[0].args[0] == C(1) and n is not None and n[0] == "NOT" and n[2] == ss[0].res and end == after(ss[0])
            ck.ob("condition", "not", ok, "NOT is not followed by the condition it turns round", None, [str(nm)] + facts_of(s))
        elif nm == ["parse_expression"]:
            ok = P.is_(s, C(0), "LEFTPARENTHESES") and ss[0].args[0] == C(1) and v == ss[0].res and P.is_(s, after(ss[0]), "RIGHTPARENTHESES") and end == plus(after(ss[0]))
            ck.ob("condition", "parentheses", ok, "what is in parentheses is not read as one", None, [show(end)] + facts_of(s))
        else:
            if nm == ["parse_terminal", "parse_terminal"]:
                p, left = after(ss[0]), ss[0].res
                ok = ss[0].args[0] == C(0) and P.isnt(s, C(0), "FUNCTION") and P.isnt(s, C(0), "AGGREGATOR")
            elif nm == ["parse_terminal"]:
                ok = P.is_(s, C(0), "FUNCTION", "AGGREGATOR") and P.is_(s, C(1), "LEFTPARENTHESES")
                i = ss[0].args[0]
                p, left = (i[2] if i[0] == "bin" and i[3] == C(1) else None), None
                ln = P.node(s, n[2]) if n else None
                ok = ok and p is not None and ln is not None and ln[0] == "VARIABLE"
                ck.ob("condition", "function", ok and function_text(P, s, ln[1]), "the text of a function is not the name of its column", None, [show(P.I.freeze(s, ln[1]), 9)] if ln else [])
                turns(ck, s)
            else:
                ck.ob("condition", "sides", False, "a condition is not two values with an operator between them", None, [str(nm)] + facts_of(s))
                continue
            ck.ob("condition", "first", bool(ok), "the left side is not read first", None, facts_of(s))
            if p is None or n is None:
                ck.ob("condition", "sides", False, "a condition is not made of its two sides", None, facts_of(s))
                continue
            val = P.I.freeze(s, n[1])
            val = val[1][1] if val[0] == "call" and val[1][0] == "attr" and val[1][2] in ("upper", "strip") else val
            ok = n[0] == "OPERATOR" and val == token(p) and P.is_(s, p, "OPERATOR") and ss[-1].args[0] == plus(p) and n[3] == ss[-1].res and (left is None or n[2] == left) and end == after(ss[-1])
            ck.ob("condition", "sides", ok, "a condition is not its two sides with the operator between them", None, [show(val)] + facts_of(s))


def function_text(P, s, v):
    t = P.I.freeze(s, v)
    if not (t[0] == "call" and t[1] == ("attr", C(""), "join") and len(t[2]) == 1 and t[2][0][0] == "list" and not t[2][0][3]):
        return False
    parts = t[2][0][2]
    if not parts or parts[0] != ("one", token(C(0))) or parts[1][0] != "one" or parts[1][1] not in (C("("), token(C(1))):
        return False
    return all(p[0] in ("one", "rep") and p[1][0] == "item" and p[1][1] == TOK for p in parts[2:]) and len(parts) > 2


def turns(ck, s):
    """every token up to the closing parenthesis is kept"""
    for j, e in enumerate(s.trace):
        if e.kind == "iter":
            ins = []
            for x in s.trace[j + 1:]:
                if x.kind == "enditer":
                    break
                ins.append(x)
            adds = [x for x in ins if x.kind == "mut" and x.name in ("append", "extend", "insert")]
            ck.ob("condition", "function-token", len(adds) == 1, "a token of a function is lost or repeated", adds[0] if adds else None)


def terminal(ck, P):
    tok = token(C(0))
    for s, v in P.outcomes("parse_terminal"):
        n, end = P.node(s, v), P.at(s)
        yes, _ = P.types(s, C(0))
        kind = next(iter(yes)) if len(yes) == 1 else None
        if n is None or kind is None:
            ck.ob("terminal", "kind", False, "a value is read without knowing what it is", None, facts_of(s))
            continue
        val = P.I.freeze(s, n[1])
        inner = val[2][0] if val[0] == "call" and len(val[2]) == 1 else None
        if kind == "LEFTPARENTHESES":
            listing(ck, P, s, n, val, end)
            continue
        if kind == "NOT":
            continue
        if kind in ("INTEGER", "FLOAT"):
            ok = val[0] == "call" and val[1] == ("ext", "builtins." + {"INTEGER": "int", "FLOAT": "float"}[kind]) and inner == tok
        elif kind == "VARIABLE":
            ok = val == tok
        elif kind == "LITERAL":
            ok = bare(val, tok) or inner is not None and val[1] == ("ext", "builtins.str") and bare(inner, tok)
        elif kind == "DATE":
            ok = inner is not None and val[1][0] == "fn" and P.I.callee_name(val[1]).endswith(".parse_iso") and bare(inner, tok)
        elif kind == "NULL":
            ok = val == NONE
        elif kind == "BOOLEAN":
            ok = val[0] == "cmp" and val[1] == "eq" and any(y[0] == "call" and y[1] == ("attr", tok, w) and C(t) in val[2:] for y in val[2:] for w, t in (("lower", "true"), ("upper", "TRUE"), ("casefold", "true")))
        else:
            ok = False
        ck.ob("terminal", kind, ok and n[0] == kind, f"what is written as {kind} is not its value", None, [str(n[0]), show(val)] + facts_of(s))
        ck.ob("terminal", "read-once", end == C(1), "a value is not one token", None, [kind, show(end)])


def listing(ck, P, s, n, val, end):
    """( a, b, ... )"""
    loops, j = [], 0
    for j, e in enumerate(s.trace):
        if e.kind == "iter":
            ins = []
            for x in s.trace[j + 1:]:
                if x.kind == "enditer":
                    break
                ins.append(x)
            loops.append(ins)
    last = end[2] if end[0] == "bin" and end[3] == C(1) else C(end[2] - 1) if end[0] == "c" and end[2] else None
    ok = n[0] == "LITERAL" and val[0] == "list" and last is not None and P.is_(s, last, "RIGHTPARENTHESES") and (loops or last == C(1))
    ck.ob("terminal", "list", bool(ok), "a list is not what is between its parentheses", None, [str(n[0]), show(val), show(end)] + facts_of(s))
    for ins in loops:
        adds = [x for x in ins if x.kind == "mut"]
        at = last[2] if last is not None and last[0] == "bin" and last[3] == C(1) else None
        if at is None:
            continue
        comma = P.is_(s, at, "COMMA")
        ok = not adds if comma else P.isnt(s, at, "COMMA") and len(adds) == 1 and adds[0].name == "append" and any(here(y, at) for y in walk(adds[0].args[0]))
        ck.ob("terminal", "listed", ok, "an item of a list is lost, repeated or made up", adds[0] if adds else None, [show(x.args[0]) for x in adds] + facts_of(s))


def here(y, at):
    return y == token(at) or y == token(("bin", "-", plus(at), C(1)))


def whole(ck, P):
    for s, v in P.outcomes("parse"):
        ss = subs(s)
        ok = [e.name for e in ss] == ["#parse_expression"] and ss[0].args[0] == C(0) and s.get(P.r[1]).d.get("root") == ss[0].res
        ck.ob("whole", "root", ok, "the expression is not what is evaluated", ss[0] if ss else None, [e.name for e in ss])
        ck.ob("whole", "all-read", ended(s, P.at(s)), "tokens may be left unread", None, facts_of(s))
    P.mode = "run"
    I = P.I
    for s, k, v in ck.took(I.call(I.fresh(), I.value(E), (S("=text", "str"),))):
        if k == "ret":
            ck.ob("whole", "parsed", "#parse" in [e.name for e in subs(s)] or "#parse_expression" in [e.name for e in subs(s)], "an expression is not parsed when it is made", None)


def cases(ck):
    """names and texts keep their case"""
    I = ck.interp(keep_facts=True, ret_max=400, max_states=400, extra_pure=(), stop={"get_token_type"}, watch=lambda k, n: k in ("out", "iter", "enditer", "call"))
    kinds = {I.value(LAB + ".TOKENS." + n): n for n in ("LITERAL", "VARIABLE", "OPERATOR", "FUNCTION", "AND", "OR", "NOT")}
    s0, r = build(I, I.value(LAB + ".Tokenizer"), (TOK,), {})[0]
    ck.saw(LAB + ".Tokenizer._case_correction")
    n = 0
    for s1, k1, v in I.method(I.clear(s0), r, "_case_correction", (S("=tokens", "list"),)):
        for s, k, _ in ck.took(I.drain(s1, v)) if k1 == "ret" else []:
            for e in s.trace:
                if e.kind == "out":
                    t = e.args[0]
                    el = [y for y in walk(t) if y[0] == "elem"]
                    same = bool(el) and t == el[0]
                    up = bool(el) and t == ("call", ("attr", el[0], "upper"), (), (), None)
                    kept = any(b and f[0] == "cmp" and f[1] == "eq" and any(c in f[2:] and kinds[c] in ("LITERAL", "VARIABLE") for c in kinds) for f, b in s.facts.items())
                    not_ = {kinds[c] for f, b in s.facts.items() if not b and f[0] == "cmp" and f[1] == "eq" for c in kinds if c in f[2:]}
                    n += 1
                    ck.ob("case", "kept" if kept else "upper", same if kept or same and not up else up and {"LITERAL", "VARIABLE"} <= not_, "a token is changed", e, [show(t)] + facts_of(s))
    ck.ob("case", "all", n > 0, "tokens are lost", None)
