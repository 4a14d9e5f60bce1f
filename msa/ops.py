"""Conditions, attributes, items, containers."""
import builtins as _py
import datetime

from .terms import *
from .terms import _deep  # noqa
from .state import Obj, Ev

STR_METHODS = {
    "replace", "lower", "upper", "strip", "lstrip", "rstrip", "startswith", "endswith", "split", "rsplit",
    "encode", "decode", "isalpha", "isalnum", "isdigit", "isnumeric", "isidentifier", "splitlines", "casefold", "title", "center", "ljust", "rjust",
    "zfill", "partition", "rpartition", "find", "rfind", "index", "count", "translate", "hex",
    "removeprefix", "removesuffix", "format", "capitalize", "swapcase", "expandtabs", "timetuple", "date", "time", "strftime",
    "isoformat", "total_seconds", "groupdict", "group", "groups", "with_suffix", "as_posix", "astimezone",
}
PURE_METHODS = STR_METHODS | {"get", "keys", "items", "values", "copy", "union", "intersection", "difference",
                              "issubset", "issuperset"}
BUILTIN_PURE = {
    "len", "str", "int", "float", "bool", "bytes", "list", "tuple", "dict", "set", "frozenset", "sorted", "min",
    "max", "sum", "abs", "round", "isinstance", "issubclass", "hasattr", "getattr", "type", "repr", "any", "all",
    "callable", "range", "enumerate", "zip", "map", "filter", "reversed", "hash", "ord", "chr", "divmod", "pow",
    "format", "slice", "iter", "bin", "hex", "ascii", "memoryview", "vars", "dir", "id",
}
PURE_MODULES = ("re.", "itertools.", "operator.", "math.", "functools.", "statistics.", "string.", "orjson.", "json.",
                "datetime.timedelta", "datetime.date", "os.path.join", "os.path.split", "os.path.dirname",
                "os.path.basename", "os.path.splitext", "pathlib.Pure", "xxhash.", "orso.cityhash.", "typing.",
                "collections.", "bitarray.", "html.", "base64.", "hashlib.", "orso.schema.", "copy.", "pathlib.Path", "posixpath.")
IMPURE_EXACT = {"datetime.datetime.now", "datetime.datetime.utcnow", "datetime.date.today"}
# types that are known to be different from each other
DATED = {"date", "datetime", "time", "timedelta"}
TYPENAMES = {"builtins." + n for n in "str int float bool bytes bytearray list dict tuple set frozenset NoneType complex".split()} | \
    {"datetime." + n for n in "date datetime time timedelta".split()} | {"something else"}
NORAISE = {"len", "str", "isinstance", "hasattr", "list", "dict", "set", "type", "print", "tuple", "bool", "id",
           "repr", "callable", "enumerate", "zip", "map", "filter", "range", "sorted", "any", "all", "iter"}


def is_nat(t):
    k = t[0]
    if k == "c":
        return isinstance(t[2], int) and not isinstance(t[2], bool) and t[2] >= 0
    if k == "sym":
        return t[2] == "nat"
    if k == "phi":
        return t[3] == "nat"
    if k == "idx":
        return True
    if k == "call":
        return t[1] == ("ext", "builtins.len")
    if k == "bin" and t[1] in ("+", "*", "//"):
        return is_nat(t[2]) and is_nat(t[3])
    return False


def is_pos(t):
    if t[0] == "c":
        return is_nat(t) and t[2] > 0
    if t[0] == "bin" and t[1] == "+":
        return is_nat(t) and (is_pos(t[2]) or is_pos(t[3]))
    return False


class Ops:
    # ------------------------------------------------------------------ freeze
    def freeze(self, st, v, depth=5, seen=()):
        """Immutable snapshot of a value: containers become terms, instances stay references."""
        k = v[0]
        if k == "ref":
            oid = v[1]
            if oid in seen or depth <= 0:
                return v
            o = st.get(oid)
            if o is None:
                return v
            seen = seen + (oid,)
            if o.kind in ("list", "set", "buf"):
                parts = []
                for p in o.d:
                    if p[0] == "one":
                        parts.append(("one", self.freeze(st, p[1], depth - 1, seen)))
                    elif p[0] == "star":
                        parts.append(("star", self.freeze(st, p[1], depth - 1, seen)))
                    elif p[0] == "rep":
                        fs = p[2]
                        if any(a[0] == "cmp" and a[3][0] == "list" and any(q[0] == "rep" for q in a[3][2]) for a, b in fs if a[0] == "cmp"):
                            # not a snapshot of a snapshot of ... of the collection itself
                            fs = frozenset((a, b) for a, b in fs if not (a[0] == "cmp" and a[3][0] == "list"))
                        q = ("rep", self.freeze(st, p[1], depth - 1, seen), fs, frozenset(), p[4])
                        if not (q in parts if o.kind == "set" else parts and parts[-1] == q):
                            parts.append(q)
                    else:
                        parts.append(p)
                return ("list", o.kind, tuple(parts), o.x[1])
            if o.kind == "dict":
                if len(o.d) > 12 and isinstance(oid, tuple) and oid in st.base:
                    return v
                return ("dict", tuple((a, self.freeze(st, b, depth - 1, seen)) for a, b in o.d.items()),
                        o.x[1] if o.x[1] is not None else NONE, o.x[2])
            return v
        if k == "tuple":
            return ("tuple", tuple(self.freeze(st, x, depth, seen) for x in v[1]))
        if k in ("cat",):
            return cat([self.freeze(st, x, depth, seen) for x in v[1]])
        return v

    def kind_of(self, st, v):
        """Python type name when known, else None"""
        k = v[0]
        if k == "c":
            return v[1]
        if k == "cat":
            return "str"
        if k == "tuple":
            return "tuple"
        if k in ("fn", "bm"):
            return "function"
        if k == "sym":
            t = v[2]
            return "int" if t == "nat" else t
        if k in ("cmp", "not", "exists", "truth"):
            return "bool"
        if k == "ref":
            o = st.get(v[1])
            if o is None:
                return None
            return {"list": "list", "set": "set", "buf": "bytearray", "dict": "dict", "inst": "inst",
                    "gen": "generator", "lazy": "lazy"}.get(o.kind)
        if k == "call" and v[1][0] == "ext":
            n = v[1][1]
            if n in ("builtins.str", "builtins.repr"):
                return "str"
            if n in ("builtins.len", "builtins.int"):
                return "int"
            if n in ("builtins.sorted", "builtins.list"):
                return "list"
            if n in ("builtins.tuple", "builtins.dict", "builtins.set", "builtins.bytes", "builtins.float"):
                return n[9:]
        if k == "call" and v[1][0] == "attr" and v[1][2] in ("lower", "upper", "strip", "replace", "decode", "strftime", "isoformat"):
            return None if v[1][2] in ("replace", "strip", "lower", "upper") else "str"
        return None

    # --------------------------------------------------------------- comparisons
    def mkcmp(self, st, op, a, b):
        """Canonical comparison; may return a constant."""
        neg = False
        if op in ("!=", "is not", "not in"):
            neg = True
            op = {"!=": "==", "is not": "is", "not in": "in"}[op]
        if op == ">":
            op, a, b = "<", b, a
        elif op == ">=":
            op, neg = "<", not neg
        elif op == "<=":
            op, a, b, neg = "<", b, a, not neg
        r = self._cmp(st, op, a, b)
        if neg:
            if r[0] == "c":
                return C(not r[2])
            if r[0] == "not":
                return r[1]
            return ("not", r)
        return r

    def _cmp(self, st, op, a, b):
        if a[0] == "enum" and b[0] == "enum" and op in ("==", "is"):
            if a[1] == b[1]:
                return C(a[2] == b[2])
        if a[0] == "c" and b[0] == "c":
            try:
                if op == "==":
                    return C(a[2] == b[2])
                if op == "<":
                    return C(a[2] < b[2])
                if op == "is":
                    return C(a[1] == b[1] and a[2] == b[2])
                if op == "in":
                    return C(a[2] in b[2])
            except TypeError:
                pass
        if a[0] == "ext" and b[0] == "ext" and op in ("==", "is") and a[1] in TYPENAMES and b[1] in TYPENAMES:
            return C(a[1] == b[1])
        if op == "is":
            if b[0] in ("c", "enum") and a[0] not in ("c", "enum"):
                pass
            elif a[0] == "c":
                a, b = b, a
            if b == NONE and (a[0] in ("ref", "cat", "tuple", "fn", "bm", "cls", "mod", "exc", "c", "enum")
                              or self.kind_of(st, a) not in (None, "NoneType")):
                return FALSE
            if a == b:
                return TRUE
            if b == TRUE or b == FALSE:
                return ("cmp", "is", self.freeze(st, a), b)
            return ("cmp", "is", self.freeze(st, a), self.freeze(st, b))
        if op == "==":
            if a == b and a[0] not in ("ref",):
                return TRUE
            if a == NONE or b == NONE:
                return self._cmp(st, "is", a, b)
            for x, y in ((a, b), (b, a)):
                if x[0] == "cat" and y[0] == "c" and isinstance(y[2], str):
                    h, t = x[1][0], x[1][-1]
                    if (h[0] == "c" and isinstance(h[2], str) and not y[2].startswith(h[2])) or \
                            (t[0] == "c" and isinstance(t[2], str) and not y[2].endswith(t[2])):
                        return FALSE
            # sizes
            for x, y in ((a, b), (b, a)):
                if y == C(0) and is_nat(x):
                    if is_pos(x):
                        return FALSE
                    return ("not", self._size_truth(x))
            if a[0] == "tuple" and b[0] == "tuple" and not any(x[0] == "star" for x in a[1] + b[1]):
                if len(a[1]) != len(b[1]):
                    return FALSE
                each = [self._cmp(st, "==", x, y) for x, y in zip(a[1], b[1])]
                if FALSE in each:
                    return FALSE
                if all(x == TRUE for x in each):
                    return TRUE
            if a[0] == "cat" and b[0] == "cat":
                for i, fn in ((0, str.startswith), (-1, str.endswith)):
                    x, y = a[1][i], b[1][i]
                    if x[0] == y[0] == "c" and isinstance(x[2], str) and isinstance(y[2], str) and not fn(x[2], y[2]) and not fn(y[2], x[2]):
                        return FALSE
            ka, kb = self.kind_of(st, a), self.kind_of(st, b)
            if ka and kb and ka != kb and {ka, kb} <= {"str", "bytes", "list", "dict", "set", "tuple", "NoneType"}:
                return FALSE
            fa, fb = self.freeze(st, a), self.freeze(st, b)
            if fa == fb and a[0] != "ref":
                return TRUE
            if repr(fb) < repr(fa) if (fa[0] == "c") == (fb[0] == "c") else fa[0] == "c":
                fa, fb = fb, fa
            return ("cmp", "eq", fa, fb)
        if op == "<":
            if a == C(0) and is_nat(b):
                return TRUE if is_pos(b) else self._size_truth(b)
            if b == C(1) and is_nat(a):
                return FALSE if is_pos(a) else ("not", self._size_truth(a))
            if b == C(0) and is_nat(a):
                return FALSE
            if a == C(-1) and is_nat(b):
                return TRUE
            return ("cmp", "lt", self.freeze(st, a), self.freeze(st, b))
        if op == "in":
            if a[0] == "c" and b[0] == "cat":
                for p in b[1]:
                    if p[0] == "c" and isinstance(a[2], str) and a[2] in p[2]:
                        return TRUE
            if b[0] == "call" and b[1][0] == "attr" and b[1][2] == "keys" and not b[2]:
                b = b[1][1]
            if b[0] == "ref":
                o = st.get(b[1])
                if o is not None and o.kind == "dict" and a[0] in ("c", "enum") and o.x[1] is None and not o.x[2] \
                        and all(x[0] in ("c", "enum") for x in o.d):
                    return C(a in o.d)
                if o is not None and o.kind == "dict" and a in o.d:
                    return TRUE
                if o is not None and o.kind == "dict" and not o.d and not o.x[2] and o.x[1] is None:
                    return FALSE
                if o is not None and o.kind in ("list", "set") and not o.d:
                    return FALSE
                if o is not None and o.kind in ("list", "set") and any(p == ("one", a) for p in o.d):
                    return TRUE
                return ("cmp", "in", self.freeze(st, a), self.freeze(st, b))
            return ("cmp", "in", self.freeze(st, a), self.freeze(st, b))
        raise AssertionError(op)

    def _size_truth(self, n):
        if n[0] == "call" and n[1] == ("ext", "builtins.len"):
            return ("truth", n[2][0])
        return ("truth", n)

    # --------------------------------------------------------------- truth / branch
    def split(self, st, v):
        """[(state, bool)] : the two ways the condition can go, with the assumptions each implies."""
        k = v[0]
        if k == "c":
            return [(st, bool(v[2]))]
        if k == "not":
            return [(s, not b) for s, b in self.split(st, v[1])]
        if k in ("fn", "bm", "cls", "mod", "ext", "exc", "partial"):
            return [(st, True)]
        if k == "enum":
            return [(st, bool(v[3][2]) if v[3][0] == "c" else True)]
        if k == "tuple":
            return [(st, bool(v[1]))]
        if k == "cat":
            if any(p[0] == "c" for p in v[1]):
                return [(st, True)]
            return self._split_term(st, ("truth", v))
        if k == "ref":
            return self._split_ref(st, v)
        if k == "bin" and v[1] == "+" and any(x[0] == "c" and isinstance(x[2], (str, bytes)) and x[2] for x in v[2:4]):
            return [(st, True)]
        if k == "list":
            return self._split_parts(st, v[2], v)
        if k == "cmp" and v[1] == "in":
            return self._split_in(st, v)
        if k == "cmp":
            return self._split_term(st, v)
        if k == "exists":
            if not v[2]:
                return self._split_term(st, ("truth", v[1]))
            return self._split_term(st, v)
        if k == "truth":
            if v[1][0] in ("list", "tuple", "c", "cat") :
                return self.split(st, v[1])
            if v[1][0] == "dict":
                if v[1][1]:
                    return [(st, True)]
            return self._split_term(st, v)
        if k == "call" and v[1][0] == "ext":
            n = v[1][1]
            if n in ("builtins.bool", "builtins.len") and len(v[2]) == 1:
                return self.split(st, v[2][0])
            if n == "builtins.isinstance":
                return self._split_isinstance(st, v)
            if n == "builtins.hasattr":
                return self._split_term(st, v)
            if n in ("builtins.list", "builtins.sorted", "builtins.tuple", "builtins.set") and len(v[2]) == 1:
                return self.split(st, v[2][0]) if v[2][0][0] != "ref" else self._split_term(st, ("truth", v))
            if n == "builtins.callable":
                return self._split_term(st, v)
        if k == "call" and v[1][0] == "attr" and v[1][2] in ("startswith", "endswith") and len(v[2]) == 1:
            return self._split_startswith(st, v)
        if is_pos(v):
            return [(st, True)]
        return self._split_term(st, ("truth", v))

    def _split_term(self, st, t):
        f = st.fact(t)
        if f is not None:
            return [(st, f)]
        if t[0] == "truth" and t[1][0] == "elem":
            # something non-empty is in it
            for k, p in st.facts.items():
                if p is True and k[0] == "cmp" and k[1] == "in" and k[3] == t[1] and (
                        (k[2][0] == "c" and k[2][2]) or (k[2][0] == "cat" and any(x[0] == "c" for x in k[2][1]))):
                    return [(st, True)]
        out = []
        a = st.assume(t, True)
        if a is not None:
            out.append((a, True))
        b = st.assume(t, False)
        if b is not None:
            out.append((b, False))
        return out

    def _split_startswith(self, st, v):
        recv, arg = v[1][1], v[2][0]
        if arg[0] == "tuple":
            cur, out = st, []
            for a in arg[1]:
                nxt = None
                for s, b in self._split_term(cur, ("truth", ("call", v[1], (a,), (), None))):
                    if b:
                        out.append((s, True))
                    else:
                        nxt = s
                if nxt is None:
                    return out
                cur = nxt
            return out + [(cur, False)]
        if arg[0] == "call" and arg[1] == ("ext", "builtins.tuple") and len(arg[2]) == 1:
            coll = arg[2][0]
            e = ("elem", coll, "_")
            return self.split(st, ("exists", coll, frozenset({(("truth", ("call", v[1], (e,), (), None)), True)})))
        if arg[0] == "list" and arg[1] == "tuple" and len(arg[2]) == 1 and arg[2][0][0] == "star":
            coll = arg[2][0][1]
            e = ("elem", coll, "_")
            return self.split(st, ("exists", coll, frozenset({(("truth", ("call", v[1], (e,), (), None)), True)})))
        return self._split_term(st, ("truth", v))

    def _split_in(self, st, v):
        a, b = v[2], v[3]
        items = None
        if b[0] == "tuple":
            items = b[1]
        elif b[0] == "c" and isinstance(b[2], str):
            items = None
        elif b[0] == "list":
            if all(p[0] == "one" for p in b[2]):
                items = [p[1] for p in b[2]]
            elif len(b[2]) == 1 and b[2][0][0] == "rep":
                p = b[2][0]
                s0 = st
                conds = set(p[2])
                eqv = self.mkcmp(st, "==", p[1], a)
                if eqv[0] != "c":
                    conds.add((eqv[1], False) if eqv[0] == "not" else (eqv, True))
                    ek = self.exists_key(p[1], conds, p[4])
                    if ek is not None:
                        return self.split(st, ek)
            elif len(b[2]) == 1 and b[2][0][0] == "star":
                return self._split_term(st, ("cmp", "in", a, b[2][0][1]))
        elif b[0] == "dict" and not b[3] and b[2] == NONE and len(b[1]) <= 8:
            items = [x for x, _ in b[1]]
        if items is not None and len(items) <= 10:
            cur, out = st, []
            for it in items:
                nxt = None
                for s, r in self.split(cur, self.mkcmp(cur, "==", a, it)):
                    if r:
                        out.append((s, True))
                    else:
                        nxt = s
                if nxt is None:
                    return out
                cur = nxt
            return out + [(cur, False)]
        return self._split_term(st, v)

    def _split_isinstance(self, st, v):
        x, ty = v[2]
        tys = list(ty[1]) if ty[0] == "tuple" else [ty]
        flat = []
        for t in tys:
            flat.extend(t[1] if t[0] == "tuple" else [t])
        cur, out = st, []
        for t in flat:
            d = self.isinst(cur, x, t)
            if d is True:
                return out + [(cur, True)]
            if d is False:
                continue
            term = ("call", ("ext", "builtins.isinstance"), (x, t), (), None)
            nxt = None
            for s, b in self._split_term(cur, term):
                if b:
                    out.append((s, True))
                else:
                    nxt = s
            if nxt is None:
                return out
            cur = nxt
        return out + [(cur, False)]

    def isinst(self, st, x, t):
        if t[0] == "cls":
            if x[0] == "ref":
                o = st.get(x[1])
                if o is not None and o.kind == "inst":
                    m = self.mro(st, o.cls)
                    if t[1] in m:
                        return True
                    return None if self.opaque_base(st, o.cls) else False
                return False
            if x[0] == "enum":
                return x[1] == t[1]
            if x[0] == "exc":
                return self.exc_is(st, x, t)
            if self.kind_of(st, x) is not None:
                return False
            return None
        if t[0] == "ext":
            n = t[1]
            k = self.kind_of(st, x)
            if n.startswith("builtins."):
                n = n[9:]
                if n == "object":
                    return True
                if k is None:
                    return None
                if k == "inst":
                    return None if self.opaque_base(st, st.get(x[1]).cls) else False
                if k == n or (k == "bool" and n == "int"):
                    return True
                if k in CONC or k in DATED or k in ("function", "generator", "lazy", "bytearray"):
                    return False
                return None
            if n == "types.GeneratorType":
                if k == "generator":
                    return True
                if k in CONC or k == "inst":
                    return False
            if k in DATED and x[0] == "c" and n in ("datetime.date", "datetime.datetime", "datetime.time", "datetime.timedelta"):
                return isinstance(x[2], getattr(datetime, n[9:]))
            if k in DATED | {"complex"} and x[0] == "c" and n.split(".")[0] in ("numpy", "decimal", "types", "orso", "pandas"):
                return False
            if k in ("str", "bytes", "int", "float", "bool", "NoneType") and n.split(".")[0] in (
                    "datetime", "numpy", "decimal", "types", "orso", "pandas"):
                return False
            return None
        return None

    def _split_ref(self, st, v):
        o = st.get(v[1])
        if o is None:
            return self._split_term(st, ("truth", v))
        if o.kind in ("list", "set", "buf"):
            return self._split_parts(st, o.d, v)
        if o.kind == "dict":
            if o.d:
                return [(st, True)]
            if o.x[1] is not None:
                return self._split_term(st, ("truth", o.x[1]))
            if o.x[2]:
                return self._split_term(st, ("truth", self.freeze(st, v)))
            return [(st, False)]
        return [(st, True)]

    def _split_parts(self, st, parts, v):
        if not parts:
            return [(st, False)]
        if any(p[0] == "one" for p in parts):
            return [(st, True)]
        cur, out = st, []
        for p in parts:
            if p[0] == "star":
                c = ("truth", p[1])
            elif p[0] == "rep":
                c = self.exists_key(p[1], p[2], p[4]) or ("truth", ("list", "list", (p,), ()))
            else:
                c = ("opq", "truth", p)
                c = ("truth", c)
            nxt = None
            sp = self.split(cur, p[1]) if p[0] == "star" and p[1][0] in ("bin", "c") else self._split_term(cur, c) if c[0] != "exists" else self.split(cur, c)
            for s, b in sp:
                if b:
                    out.append((s, True))
                else:
                    nxt = s
            if nxt is None:
                return out
            cur = nxt
        return out + [(cur, False)]

    def exists_key(self, term, conds, binders):
        """canonical `some element of the collection satisfies conds`"""
        if len(binders) != 1:
            return None
        e = binders[0]
        m = {e: ("elem", e[1], "_")}
        conds = frozenset((subst(t, m), p) for t, p in conds)
        return ("exists", e[1], conds)

    # --------------------------------------------------------------- pick an element
    def pick(self, st, v, idx, site):
        """[(state, element)] an element of a container, with the facts known of its elements.
        Records which position of which container it came from."""
        o = st.get(v[1]) if v[0] == "ref" else None
        parts = o.d if o is not None and o.kind in ("list", "set", "buf") else (v[2] if v[0] == "list" else None)
        if parts is None:
            return [(st, ("item", self.freeze(st, v), idx))]
        if all(p[0] == "one" for p in parts):
            if idx[0] == "c" and isinstance(idx[2], int) and -len(parts) <= idx[2] < len(parts):
                return [(st, parts[idx[2]][1])]
            return [(st, ("item", self.freeze(st, v), idx))] if parts else []
        frozen = self.freeze(st, v)
        res = []
        for n, p in enumerate(parts):
            if p[0] == "one":
                res.append((st, p[1]))
            elif p[0] == "star":
                res.append((st, ("pick", "star", ("item", p[1], idx), site)) if False else (st, ("elem", p[1], ("pick", site))))
            elif p[0] == "any":
                res.append((st, ("elem", ("opq", p[1] if len(p) > 1 else ""), ("pick", site))))
            else:
                t, fs, bs = self.rebind(p, ("pick", site))
                s = st.assume_all(fs)
                if s is not None:
                    ek = self.exists_key(p[1], p[2], p[4])
                    if ek is not None:
                        s2 = s.assume(ek, True) if ek[2] else s.assume(("truth", ek[1]), True)
                        s = s2 if s2 is not None else None
                if s is not None:
                    res.append((s, t))
        out = []
        for s, t in res:
            nf = dict(s.facts)
            nf[("opq", "picked", t, idx, frozen)] = True
            out.append((s.with_(facts=nf), t))
        return out

    def rebind(self, part, site):
        """rename the bound elements of a `rep` part to fresh ones at `site`"""
        term, facts, binders = part[1], part[2], list(part[4])
        nb = []
        for i in range(len(binders)):
            b = binders[i]
            b2 = ("elem", b[1], (site, i) if i else site)
            m = {b: b2}
            term = subst(term, m)
            facts = frozenset((subst(t, m), p) for t, p in facts)
            binders = [b2 if j == i else subst(x, m) for j, x in enumerate(binders)]
            nb.append(b2)
        return term, facts, tuple(nb)

    # --------------------------------------------------------------- containers
    def new_list(self, st, site, kind="list", parts=(), meta=()):
        return st.new(site, Obj(kind, None, tuple(parts), (len(st.loops), tuple(meta))))

    def new_dict(self, st, site, d=None, src=None, parts=()):
        return st.new(site, Obj("dict", None, dict(d or {}), (len(st.loops), src, tuple(parts))))

    def mk_part(self, st, o, term, star=False):
        binders = st.loops[o.x[0]:]
        if not binders:
            return ("star", term) if star else ("one", term)
        ef, cf = set(), set()
        for t, p in st.facts.items():
            hit = False
            for x in walk(t):
                if x in binders:
                    hit = True
                    break
            (ef if hit else cf).add((t, p))
        if star:
            term = ("elem", term, "*")
            binders = tuple(binders) + (term,)
        return ("rep", term, frozenset(ef), frozenset(cf), tuple(binders))

    def add_part(self, st, ref, part):
        o = st.get(ref[1])
        parts = o.d
        if o.kind == "set" and part[0] == "one" and part[1][0] == "c" and part in parts:
            return st
        if part[0] == "rep":
            for i in range(len(parts) - 1, -1, -1):
                q = parts[i]
                if q[0] != "rep":
                    break
                if q[1] == part[1] and q[2] == part[2] and q[4] == part[4]:
                    if q[3] != part[3]:
                        nq = ("rep", q[1], q[2], q[3] & part[3], q[4])
                        return st.put(ref[1], o._replace(d=parts[:i] + (nq,) + parts[i + 1:]))
                    return st
        meta = tuple(m for m in o.x[1] if m[0] not in ("sorted", "slice"))
        return st.put(ref[1], o._replace(d=parts + (part,), x=(o.x[0], meta)))

    def extend(self, st, ref, src):
        """append every element of src (a list object, or an opaque iterable term)"""
        o = st.get(ref[1])
        so = st.get(src[1]) if src[0] == "ref" else None
        parts = None
        if so is not None and so.kind in ("list", "set", "buf"):
            parts = so.d
        elif src[0] == "list":
            parts = src[2]
        elif src[0] == "tuple":
            parts = tuple(("one", x) for x in src[1])
        if parts is None:
            if src[0] == "c" and not src[2]:
                return st
            return self.add_part(st, ref, self.mk_part(st, o, self.freeze(st, src), star=True))
        cur_bind = st.loops[o.x[0]:]
        for p in parts:
            if p[0] == "one":
                st = self.add_part(st, ref, self.mk_part(st, st.get(ref[1]), p[1]))
            elif p[0] == "star":
                st = self.add_part(st, ref, self.mk_part(st, st.get(ref[1]), p[1], star=True))
            elif p[0] == "rep":
                q = self.mk_part(st, st.get(ref[1]), p[1])
                cf = frozenset((t, b) for t, b in st.facts.items())
                nq = ("rep", p[1], p[2] | (q[2] if q[0] == "rep" else frozenset()), p[3] | cf,
                      tuple(cur_bind) + tuple(b for b in p[4] if b not in cur_bind))
                st = self.add_part(st, ref, nq)
            else:
                st = self.add_part(st, ref, p)
        return st


CONC = {"str", "bytes", "int", "float", "list", "tuple", "dict", "set", "bool", "bytearray", "NoneType"}
