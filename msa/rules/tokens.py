"""C46 statements and expressions are cut into tokens without losing anything."""
import re
from ..rulelib import *
from .dating import fold

LAB = "mabel.utils.token_labeler"
FLAGS = {"re.IGNORECASE": re.I, "re.I": re.I, "re.DOTALL": re.S, "re.S": re.S, "re.MULTILINE": re.M, "re.M": re.M, "re.VERBOSE": re.X, "re.X": re.X, "re.ASCII": re.A, "re.A": re.A}


def flags_of(t):
    if t[0] == "c" and isinstance(t[2], int):
        return int(t[2])
    if t[0] == "ext" and t[1] in FLAGS:
        return int(FLAGS[t[1]])
    if t[0] == "bin" and t[1] in ("|", "+"):
        a, b = flags_of(t[2]), flags_of(t[3])
        return a | b if a is not None and b is not None else None
    return None


def pattern_of(I, st, t):
    """the regular expression a term stands for, when it is known"""
    t = I.freeze(st, t) if t[0] == "ref" else t
    if t[0] == "c" and isinstance(t[2], str):
        return re.compile(t[2])
    if t[0] == "call" and t[1] == ("ext", "re.compile") and t[2] and t[2][0][0] == "c":
        fl = t[2][1] if len(t[2]) > 1 else dict(t[3]).get("flags", C(0))
        fl = flags_of(fl)
        return re.compile(t[2][0][2], fl) if fl is not None else None
    return None


def regexes(I, st, f, args, kw, fr, node):
    """what a known regular expression makes of a known text"""
    if f == ("ext", "re.escape") and len(args) == 1 and args[0][0] == "c" and isinstance(args[0][2], str):
        return [(st, "v", C(re.escape(args[0][2])))]
    if f[0] == "ext" and f[1].startswith("re.") and f[1] not in ("re.compile", "re.escape") and args:
        fl = kw.get("flags", args[2 if f[1][3:] != "sub" else 4] if len(args) > (2 if f[1][3:] != "sub" else 4) else C(0))
        p = pattern_of(I, st, args[0])
        fl = flags_of(fl)
        if p is None or fl is None:
            return None
        p, name, args = re.compile(p.pattern, fl | (p.flags & ~re.U)), f[1][3:], args[1:3 if f[1][3:] == "sub" else 2]
    elif f[0] == "attr" and f[2] in ("split", "match", "search", "fullmatch", "findall", "finditer", "sub"):
        p, name = pattern_of(I, st, f[1]), f[2]
        if p is None or f[1][0] == "c":
            return None
    elif f[0] == "attr" and f[1][0] == "c" and isinstance(f[1][2], re.Match) and f[2] in ("group", "groups", "start", "end", "span") and all(a[0] == "c" for a in args):
        r = getattr(f[1][2], f[2])(*[a[2] for a in args])
        return [(st, "v", ("tuple", tuple(C(x) for x in r)) if isinstance(r, tuple) else C(r))]
    else:
        return None
    if not args or args[-1][0] != "c" or not isinstance(args[-1][2], str) and args[-1][2] is not None:
        return None
    text = args[-1][2]
    if name == "sub":
        outs, at = [(st, "")], 0
        for m in p.finditer(text):
            nxt = []
            for s, sofar in outs:
                if args[0][0] == "c":
                    nxt.append((s, sofar + text[at:m.start()] + m.expand(args[0][2])))
                    continue
                for s2, k, v in I.call(s, args[0], (C(m),)):
                    if k != "ret" or v[0] != "c":
                        return None
                    nxt.append((s2, sofar + text[at:m.start()] + v[2]))
            outs, at = nxt, m.end()
        return [(s, "v", C(x + text[at:])) for s, x in outs]
    r = getattr(p, name)(text)
    if name == "finditer":
        r = list(r)
    if isinstance(r, list):
        if any(isinstance(x, tuple) for x in r):
            return None
        st, ref = I.new_list(st, ("cut", text), "list", tuple(("one", C(x)) for x in r))
        return [(st, "v", ref)]
    return [(st, "v", C(r))]


def tokenized(I, text):
    """[(tokens or None, 'ret' or 'raise')] for the text"""
    out = []
    for s, k, r in I.call(I.fresh(), I.value(LAB + ".Tokenizer"), (C(text),)):
        toks = None
        if k == "ret" and r[0] == "ref" and s.get(r[1]) is not None:
            t = s.get(r[1]).d.get("tokens")
            t = I.freeze(s, t) if t is not None else NONE
            if t[0] == "list" and all(p[0] == "one" and p[1][0] == "c" for p in t[2]):
                toks = [p[1][2] for p in t[2]]
            else:
                toks = show(t)
        out.append((toks, k, r, s))
    return out


def oc(I, st, f, args, kw, fr, node):
    if f == ("ext", "builtins.float") and len(args) == 1 and args[0][0] == "c" and not kw:
        try:
            return [(st, "v", C(float(args[0][2])))]
        except (ValueError, TypeError, OverflowError) as e:
            return [(st, "raise", ("exc", "builtins." + type(e).__name__, ()))]
    if f[0] == "fn" and I.callee_name(f).split(".")[-1] == "parse_iso" and len(args) == 1 and args[0][0] == "c" and isinstance(args[0][2], str):
        # dates in quotes are C47's; here only that they stay in quotes counts
        import datetime
        return [(st, "v", C(datetime.datetime(2021, 1, 2) if re.fullmatch(r"\d{4}-\d\d-\d\d", args[0][2]) else None))]
    return regexes(I, st, f, args, kw, fr, node)


# statements and expressions in pieces: each piece is one token, in this order
Q = ["'x'", "''", "' '", "'b  c'", "'a and b'", "'%or%'", "'1 = 2'", "'(a, b)'", "'*'", "'it\"s'", "'select'", "'a `b` c'", "'A\tB'", "'is not'", "'x\ny'", "'10'", "'2021-01-02'", "'group by'", "'<>'", "'count('"]
BQ = ["`a b`", "`from`", "`x=y`", "`a  b`", "`10`", "`Order By`", "`it's`"]
TEXTS = [["a", "=", q] for q in Q] + [["a", "<>", q.replace('"', "~").replace("'", '"') if "'" not in q[1:-1] else q, "and", "b", ">=", "10"] for q in Q]
TEXTS += [[b, "==", "1"] for b in BQ] + [["1.5", "<", b, "or", "Name", "is not", "null"] for b in BQ]
TEXTS += [[q, "=", b, "AND", r, "!=", q] for q, b, r in zip(Q, BQ * 3, Q[3:] + Q[:3])]
TEXTS += [["Name", op, "'x'"] for op in ("<>", ">=", "<=", ">", "<", "==", "!=", "=", "is not", "IS", "not like", "Like", "matches", "in", "contains")]
TEXTS += [["(", "a", "=", "1", ")", "or", "not", "(", "B", "in", "(", "1", ",", "2", ",", "'three'", ")", ")"],
          ["select", "*", "from", "a.b", "where", "x", "like", "'%and%'", "limit", "10"],
          ["SELECT", "Name", ",", "count", "(", "*", ")", "FROM", "tests.data", "GROUP BY", "Name", "ORDER BY", "`Name 2`", "DESC"],
          ["select", "distinct", "Planet", "from", "`odd name`", "where", "brand", "<", "1.25"],
          ["yearly", "=", "1", "and", "UpperLimit", ">", "2", "or", "Minimum", "<", "3", "and", "country", "=", "4", "or", "is_not", "=", "intro"],
          ["last_year", "=", "1", "and", "data.planets", ">", "2", "or", "flower", "like", "'x'", "and", "discount", "=", "account"],
          ["information", "=", "1", "and", "oracle", "=", "2", "or", "notes", "=", "3"],
          ["android", "<=", "'''", "or", "order_id", ">", "-1"],
          ["a", "=", "'x'", "and", "b", "=", "'y'", "and", "c", "=", "'z'"],
          ["a", "=", "\"it's\"", "and", "b", "=", "\"'\""],
          ["TRUE", "=", "a", "and", "None", "is", "b"],
          ["a-b", "=", "1", "and", "c.d_e", ">", "2"]]
# a quote that is opened and never closed
OPEN = ["a = 'b", "a > 'b and c", "`a", "'a' 'b", "\"", "(a = 1) 'and b = 2", "a = \"x' and b = 1", "(a) `b or c", "a = 'b' or `c"]
GLUE = ("=", "<>", ">=", "<=", ">", "<", "==", "!=", "(", ")", ",")


def spellings(pieces):
    yield " ".join(pieces)
    yield " \n ".join(pieces)
    tight, prev = "", None
    for p in pieces:
        tight += ("" if prev is None or prev in GLUE or p in GLUE else " ") + p
        prev = p
    yield tight


def squash(t):
    return re.sub(r"\s+", "", t).casefold()


def kept(text, toks, pieces):
    """what is lost of the pieces in the tokens"""
    if squash("".join(toks)) != squash(text):
        return "not all of the text is in its tokens"
    i = 0
    for p in pieces:
        while i < len(toks) and not (toks[i] == p if p[0] in "'\"`" or re.fullmatch(r"[A-Za-z]\w*(\.\w+)?", p) and p.upper() not in WORDS else toks[i].upper() == p.upper()):
            i += 1
        if i == len(toks):
            return f"{p} is not a token of its own"
        i += 1
    return None


WORDS = {"AND", "OR", "NOT", "SELECT", "FROM", "WHERE", "LIMIT", "DISTINCT", "ASC", "DESC", "IN", "IS", "LIKE", "MATCHES", "CONTAINS", "COUNT", "TRUE", "FALSE", "NULL", "NONE"}


def tokens(ck):
    """known statements are cut where their words and quotes say, and nothing of them is lost"""
    I = ck.interp(keep_facts=True, ret_max=200, max_states=200, on_call=oc, watch=lambda k, n: False)
    I.while_turns, I.recursion = 80, 2
    ck.saw(LAB + ".Tokenizer.tokenize")
    n = 0
    for pieces in TEXTS:
        for text in dict.fromkeys(spellings(pieces)):
            got = list(ck.took(tokenized(I, text)))
            n += 1
            ck.ob("one-token-each", "Tokenizer", len(got) > 0, f"nothing is made of {text!r}", None)
            for toks, k, r, s in got:
                why = f"it is refused: {show(r)[:60]}" if k != "ret" else f"its tokens are not known: {str(toks)[:200]}" if not isinstance(toks, list) else kept(text, toks, pieces)
                ck.ob("one-token-each", "Tokenizer", why is None, f"{text!r}: {why}", None, [str(toks)[:200]])
    for text in OPEN:
        for toks, k, r, s in ck.took(tokenized(I, text)):
            ok = k == "raise" or isinstance(toks, list) and squash("".join(toks)) == squash(text)
            ck.ob("nothing-dropped", "Tokenizer", ok, f"{text!r} has a quote that is not closed: part of it is dropped without an error", None, [str(toks)[:200]])
    ck.need("one-token-each", n)
    ck.need("nothing-dropped", len(OPEN))


KINDS = [("10", "INTEGER"), ("-3", "INTEGER"), ("0", "INTEGER"), ("1.5", "FLOAT"), ("-0.25", "FLOAT"), ("1e3", "FLOAT"), ("'x'", "LITERAL"), ('"x y"', "LITERAL"), ("'10'", "LITERAL"), ("'and'", "LITERAL"), ("'='", "LITERAL"), ("'true'", "LITERAL"), ("'count'", "LITERAL"),
         ("'2021-01-02'", "DATE"), ("`a`", "VARIABLE"), ("`10`", "VARIABLE"), ("`and`", "VARIABLE"), ("`=`", "VARIABLE"), ("`a b`", "VARIABLE"), ("`count`", "VARIABLE"), ("abc", "VARIABLE"), ("a.b", "VARIABLE"), ("a_b", "VARIABLE"), ("a-b", "VARIABLE"), ("a1", "VARIABLE"), ("_id", "VARIABLE"), ("android", "VARIABLE"), ("Notes", "VARIABLE"), ("truest", "VARIABLE"),
         ("*", "EVERYTHING"), ("COUNT", "AGGREGATOR"), ("count", "AGGREGATOR"), ("Max", "AGGREGATOR"), ("true", "BOOLEAN"), ("FALSE", "BOOLEAN"), ("null", "NULL"), ("None", "NULL"), ("and", "AND"), ("AND", "AND"), ("Or", "OR"), ("not", "NOT"), ("as", "AS"), ("(", "LEFTPARENTHESES"), (")", "RIGHTPARENTHESES"), (",", "COMMA"), ("", "EMPTY"), ("  ", "EMPTY"),
         ("=", "OPERATOR"), ("==", "OPERATOR"), ("!=", "OPERATOR"), ("<>", "OPERATOR"), (">", "OPERATOR"), (">=", "OPERATOR"), ("<", "OPERATOR"), ("<=", "OPERATOR"), ("like", "OPERATOR"), ("NOT LIKE", "OPERATOR"), ("is", "OPERATOR"), ("IS NOT", "OPERATOR"), ("in", "OPERATOR"), ("matches", "OPERATOR"), ("contains", "OPERATOR"), ("#?!", "UNKNOWN")]


def kinds(ck):
    """each known token is labelled as what it is"""
    I = ck.interp(keep_facts=True, ret_max=200, max_states=200, on_call=oc, watch=lambda k, n: False)
    I.while_turns, I.recursion = 80, 2
    ck.saw(LAB + ".get_token_type")
    f, ts = I.value(LAB + ".get_token_type"), I.value(LAB + ".TOKENS")
    for tok, kind in KINDS + [(t + " ", k) for t, k in KINDS if t.strip()]:
        want, _ = I.class_attr(I.fresh(), ts[1], kind)
        if want is None:
            raise AnalysisError(f"TOKENS has no {kind}")
        for s, k, v in ck.took(I.call(I.fresh(), f, (C(tok),))):
            ck.ob("right-kind", "get_token_type", k == "ret" and v == want, f"{tok!r} is not labelled as {kind}", None, [k, show(v)[:100]])
    ck.need("right-kind", len(KINDS))


def cut(ck):
    tokens(ck)
    kinds(ck)
