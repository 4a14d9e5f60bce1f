"""Names, attributes, items, mutation of abstract objects."""
import datetime as _dt
import pathlib as _pl
import ast

from .terms import *
from .state import Obj, Ev, State, merge
from .program import AnalysisError
from .ops import STR_METHODS, is_nat

FROZEN_WRITE = {"append", "extend", "add", "insert", "update", "remove", "discard", "pop", "clear", "sort", "reverse",
                "setdefault", "popitem"}


DATED = (_dt.date, _dt.time, _dt.timedelta)
DATE_PARTS = {"year", "month", "day", "hour", "minute", "second", "microsecond", "days", "seconds", "microseconds"}
PATH_PARTS = {"parts", "name", "stem", "suffix", "parent"}


def once(parts, kind):
    """the elements a set keeps: equal constants are one"""
    if kind != "set":
        return parts
    return tuple(p for i, p in enumerate(parts) if not (p[0] == "one" and p[1][0] == "c" and p in parts[:i]))


class Access:
    # ------------------------------------------------------------------ sites & events
    def ctx_id(self, ctx):
        n = self._ctx.get(ctx)
        if n is None:
            n = self._ctx[ctx] = f"c{len(self._ctx)}"
        return n

    def site(self, node, fr):
        rel = fr.mod.rel if fr.mod else "?"
        return (f"{rel}:{getattr(node, 'lineno', 0)}:{getattr(node, 'col_offset', 0)}", self.ctx_id(fr.ctx))

    def emit(self, st, kind, name, recv, args, kw, res, fr, node):
        if self.watch is not None and not self.watch(kind, name):
            return st
        where = (fr.mod.rel if fr.mod else "?", getattr(node, "lineno", 0), fr.fi.qual if fr.fi else (fr.mod.name if fr.mod else "?"))
        facts = st.facts if kind not in self.factless else None
        ev = Ev(kind, name, recv, tuple(args), tuple(sorted(kw.items())), res, st.locks, facts, where, st.loops)
        if self.hook is not None:
            self.hook(ev, st)
        return st.emit(ev)

    def callee_name(self, v):
        k = v[0]
        if k in ("ext", "cls", "mod"):
            return v[1]
        if k == "fn":
            return v[1]
        if k == "bm":
            return self.callee_name(v[1])
        if k == "attr":
            return "." + v[2]
        if k == "item" or k == "get":
            return "[]"
        if k == "call":
            # decorator-like wrappers: retry(f)(...) is a call of f
            for a in v[2]:
                if a[0] in ("attr", "fn", "bm", "ext"):
                    return self.callee_name(a)
            return "()"
        if k == "partial":
            return self.callee_name(v[1])
        if k == "enum":
            return v[1] + "." + v[2]
        return k

    def callee_recv(self, v):
        if v[0] == "attr":
            return v[1]
        if v[0] == "call":
            for a in v[2]:
                if a[0] in ("attr", "fn", "bm", "ext"):
                    return self.callee_recv(a)
        return None

    # ------------------------------------------------------------------ names
    def lookup(self, st, fr, name):
        oid = fr.oid
        fi = fr.fi
        first = True
        while oid is not None:
            o = st.get(oid)
            if o is None:
                break
            if name in o.d:
                v = o.d[name]
                return self.resolve_glob(v)
            if o.kind != "frame":
                break
            if first and o.x[1] != "<comp>":
                first = False
                if fi is not None and name in fi.locals and oid not in ("x",) and o.x[1] == fi.qual:
                    return None
            oid = o.x[0]
        mod = fr.mod
        if mod is not None and mod.name in self.prog.modules:
            v = self.mod_attr(st, mod.name, name)
            if v is not None:
                return v
        return ("ext", "builtins." + name)

    def mod_attr(self, st, modname, name):
        oid = "mod:" + modname
        if modname not in self._evaluated:
            self.eval_module(modname)
        o = st.get(oid) if st is not None else self.base.get(oid)
        if o is not None and name in o.d:
            return self.resolve_glob(o.d[name])
        if modname + "." + name in self.prog.modules:
            return ("mod", modname + "." + name)
        # still being evaluated (import cycle): a later definition
        ci = self.prog.classes.get(modname + "." + name)
        if ci is not None:
            return ("cls", ci.qual)
        fi = self.prog.func_by_qual.get(modname + "." + name)
        if fi is not None and o is not None and modname in self._evaluating:
            return ("fn", fi.qual, oid, fi.fid)
        return None

    def resolve_glob(self, v):
        n = 0
        while v[0] == "glob" and n < 8:
            n += 1
            modname, name = v[1], v[2]
            if modname + "." + name in self.prog.modules:
                inner = None
                if modname in self.prog.modules and (modname in self._evaluated):
                    o = self.base.get("mod:" + modname)
                    if o is not None and name in o.d and o.d[name] != v and o.d[name][0] != "glob":
                        inner = o.d[name]
                return inner or ("mod", modname + "." + name)
            if modname in self.prog.modules:
                w = self.mod_attr(None, modname, name)
                if w is None:
                    # star imports
                    return ("ext", modname + "." + name)
                v = w
            else:
                return ("ext", modname + "." + name)
        return v

    def bind(self, st, fr, name, val):
        fi = fr.fi
        oid = fr.oid
        o = st.get(oid)
        if fi is not None and o.x and o.x[1] != "<comp>":
            if name in fi.globals_:
                oid = "mod:" + fr.mod.name
            elif name in fi.nonlocals:
                p = o.x[0]
                while p is not None:
                    po = st.get(p)
                    if name in po.d:
                        oid = p
                        break
                    p = po.x[0] if po.kind == "frame" else None
        o = st.get(oid)
        d = dict(o.d)
        d[name] = val
        if o.kind == "frame" and oid.__class__ is str and oid.startswith("mod:") and fr.oid != oid:
            st = self.emit(st, "set", name, ("mod", oid[4:]), (val,), {}, NONE, fr, fr.fi.node if fr.fi else None)
        return st.put(oid, o._replace(d=d))

    # ------------------------------------------------------------------ classes
    def class_bases(self, st, qual):
        o = self.base.get("cls:" + qual)
        if o is None:
            ci = self.prog.classes.get(qual)
            if ci is None:
                return ()
            if ci.module.name not in self._evaluated:
                self.eval_module(ci.module.name)
                o = self.base.get("cls:" + qual)
        return o.x if o is not None else ()

    def mro(self, st, qual):
        r = self._mro.get(qual)
        if r is None:
            r = [qual]
            seqs = []
            for b in self.class_bases(st, qual):
                if b[0] == "cls":
                    seqs.append(list(self.mro(st, b[1])))
            seqs.append([b[1] for b in self.class_bases(st, qual) if b[0] == "cls"])
            seqs = [s for s in seqs if s]
            while seqs:
                for s in seqs:
                    c = s[0]
                    if not any(c in t[1:] for t in seqs):
                        break
                else:
                    c = seqs[0][0]
                r.append(c)
                seqs = [[x for x in s if x != c] for s in seqs]
                seqs = [s for s in seqs if s]
            self._mro[qual] = r
        return r

    def opaque_base(self, st, qual):
        for q in self.mro(st, qual):
            for b in self.class_bases(st, q):
                if b[0] != "cls" and b != ("ext", "builtins.object") and b[1] not in ("abc.ABC", "typing.Generic") \
                        and not b[1].startswith("typing."):
                    return True
        return False

    def is_exc_class(self, st, qual):
        import builtins
        for q in self.mro(st, qual):
            for b in self.class_bases(st, q):
                if b[0] == "ext" and b[1].startswith("builtins."):
                    c = getattr(builtins, b[1][9:], None)
                    if isinstance(c, type) and issubclass(c, BaseException):
                        return True
                elif b[0] == "ext" and (b[1].endswith("Error") or b[1].endswith("Exception")):
                    return True
        return False

    def is_enum(self, st, qual):
        for q in self.mro(st, qual):
            for b in self.class_bases(st, q):
                if b[0] == "ext" and b[1] in ("enum.Enum", "enum.IntEnum", "enum.StrEnum", "enum.Flag", "enum.IntFlag"):
                    return True
        return False

    def class_attr(self, st, qual, name):
        for q in self.mro(st, qual):
            o = st.get("cls:" + q) if st is not None else self.base.get("cls:" + q)
            if o is None:
                continue
            if name in o.d:
                return o.d[name], q
        return None, None

    def find_method(self, st, qual, name):
        v, _ = self.class_attr(st, qual, name)
        return v

    # ------------------------------------------------------------------ attributes
    def getattr(self, st, b, name, fr, node, sink):
        k = b[0]
        if k == "c" and isinstance(b[2], DATED) and name in DATE_PARTS and hasattr(b[2], name):
            return [(st, C(getattr(b[2], name)))]
        if k == "c" and isinstance(b[2], _pl.PurePath) and name in PATH_PARTS:
            x = getattr(b[2], name)
            return [(st, ("tuple", tuple(C(y) for y in x)) if isinstance(x, tuple) else C(x))]
        if k == "ref":
            o = st.get(b[1])
            if o is None:
                return [(st, ("attr", b, name))]
            if o.kind == "inst":
                if name in o.d:
                    return [(st, o.d[name])]
                v, q = self.class_attr(st, o.cls, name)
                if v is not None:
                    return self.bind_method(st, v, q, b, o.cls, fr, node, sink)
                if name == "__class__":
                    return [(st, ("cls", o.cls))]
                g = self.find_method(st, o.cls, "__getattr__")
                if g is not None:
                    return self.call_method(st, b, "__getattr__", (C(name),), {}, fr, node, sink)
                return [(st, ("attr", b, name))]
            return [(st, ("attr", b, name))]
        if k == "mod":
            if b[1] in self.prog.modules:
                v = self.mod_attr(st, b[1], name)
                if v is not None:
                    return [(st, v)]
            return [(st, ("ext", b[1] + "." + name))]
        if k == "ext":
            if (("xattr", b)) in st.over:
                d = st.get(("xattr", b)).d
                if name in d:
                    return [(st, d[name])]
            return [(st, ("ext", b[1] + "." + name))]
        if k == "cls":
            v, q = self.class_attr(st, b[1], name)
            if v is not None:
                if v[0] == "cmeth":
                    return [(st, ("bm", v[1], b))]
                if v[0] == "smeth":
                    return [(st, v[1])]
                if v[0] == "enumval":
                    return [(st, ("enum", q, name, v[1]))]
                return [(st, v)]
            if name == "__name__":
                return [(st, C(b[1].split(".")[-1]))]
            return [(st, ("attr", b, name))]
        if k == "super":
            cls, selfv = b[1], b[2]
            o = st.get(selfv[1]) if selfv[0] == "ref" else None
            start = o.cls if o is not None and o.kind == "inst" else (selfv[1] if selfv[0] == "cls" else cls)
            m = self.mro(st, start)
            m = m[m.index(cls) + 1:] if cls in m else []
            for q in m:
                co = st.get("cls:" + q)
                if co is not None and name in co.d:
                    return self.bind_method(st, co.d[name], q, selfv, start, fr, node, sink)
            return [(st, ("attr", b, name))]
        if k == "enum":
            if name == "value":
                return [(st, b[3])]
            if name == "name":
                return [(st, C(b[2]))]
            v, q = self.class_attr(st, b[1], name)
            if v is not None:
                return self.bind_method(st, v, q, b, b[1], fr, node, sink)
            return [(st, ("attr", b, name))]
        if k == "fn" or k == "bm":
            fn = b if k == "fn" else b[1]
            if name == "__name__":
                return [(st, C(fn[1].split(".")[-1]))]
            if name == "__self__" and k == "bm":
                return [(st, b[2])]
        if k == "phi" or k in ("sym", "attr", "item", "get", "call", "elem", "pick", "xelem", "opq"):
            xo = st.over.get(("xattr", b))
            if xo is not None and name in xo.d:
                return [(st, xo.d[name])]
            st2 = st
            return [(st2, ("attr", b, name))]
        return [(st, ("attr", b, name))]

    def bind_method(self, st, v, q, selfv, cls, fr, node, sink):
        if v[0] == "fn":
            return [(st, ("bm", v, selfv))]
        if v[0] == "smeth":
            return [(st, v[1])]
        if v[0] == "cmeth":
            return [(st, ("bm", v[1], ("cls", cls)))]
        if v[0] == "prop":
            return self.apply(st, v[1], (selfv,), {}, fr, node, sink)
        if v[0] == "enumval":
            return [(st, ("enum", q, "?", v[1]))]
        return [(st, v)]

    def setattr(self, st, b, name, val, fr, node):
        st = self.emit(st, "set", name, b, (val,), {}, NONE, fr, node)
        if b[0] == "ref":
            o = st.get(b[1])
            if o is not None and o.kind == "inst":
                d = dict(o.d)
                d[name] = val
                return st.put(b[1], o._replace(d=d))
            return st
        if b[0] == "cls":
            oid = "cls:" + b[1]
        elif b[0] == "mod" and b[1] in self.prog.modules:
            oid = "mod:" + b[1]
        else:
            oid = ("xattr", b)
        o = st.get(oid) or Obj("xattr", None, {}, None)
        d = dict(o.d)
        d[name] = val
        return st.put(oid, o._replace(d=d))

    # ------------------------------------------------------------------ items
    def lookup_err(self, st, b, i, fr, node, sink):
        """a failed subscript inside a try"""
        if fr.in_try:
            sink.append((st, "raise", ("exc", None, ("LookupError",))))

    def dict_find(self, o, key):
        if key in o.d:
            return o.d[key]
        for p in reversed(o.x[2]):
            if p[1] == key:
                return p[2]
        return None

    def getitem(self, st, b, i, fr, node, sink):
        k = b[0]
        if k == "ref":
            o = st.get(b[1])
            if o is None:
                return [(st, ("item", b, i))]
            if o.kind == "dict":
                i = self.freeze(st, i)
                v = self.dict_find(o, i)
                if v is not None:
                    return [(st, v)]
                closed = o.x[1] is None and not o.x[2]
                if closed and i[0] in ("c", "enum") and all(x[0] in ("c", "enum") for x in o.d):
                    dflt = self._defaults.get(b[1])
                    if dflt is None:
                        sink.append((st, "raise", ("exc", "builtins.KeyError", (i,))))
                        return []
                if b[1] in st.base and len(o.d) > 12:
                    fz = b
                else:
                    fz = o.x[1] if (o.x[1] is not None and not o.d and not o.x[2]) else self.freeze(st, b)
                dk = ("cmp", "in", i, fz)
                if fr.in_try and st.fact(dk) is not True:
                    s2 = st.assume(dk, False)
                    if s2 is not None:
                        sink.append((s2, "raise", ("exc", "builtins.KeyError", (i,))))
                    st = st.assume(dk, True)
                    if st is None:
                        return []
                return [(st, ("item", fz, i))]
            if o.kind in ("list", "set", "buf"):
                if i[0] == "slice":
                    return [self.slice_list(st, b, o, i, node, fr)]
                if o.kind == "buf":
                    return [(st, ("item", self.freeze(st, b), i))]
                if not o.d:
                    sink.append((st, "raise", ("exc", "builtins.IndexError", ())))
                    return []
                if not all(p[0] == "one" for p in o.d):
                    self.lookup_err(st, b, i, fr, node, sink)
                elif i[0] == "c" and isinstance(i[2], int) and not -len(o.d) <= i[2] < len(o.d):
                    sink.append((st, "raise", ("exc", "builtins.IndexError", ())))
                    return []
                return self.pick(st, b, i, self.site(node, fr))
            if o.kind == "inst" and self.find_method(st, o.cls, "__getitem__"):
                if i[0] == "slice":
                    i = ("call", ("ext", "builtins.slice"), i[1:], (), None)
                return self.call_method(st, b, "__getitem__", (i,), {}, fr, node, sink)
            return [(st, ("item", b, self.freeze(st, i)))]
        if k == "tuple":
            if i[0] == "c" and isinstance(i[2], int):
                if -len(b[1]) <= i[2] < len(b[1]):
                    return [(st, b[1][i[2]])]
                sink.append((st, "raise", ("exc", "builtins.IndexError", ())))
                return []
            if i[0] == "slice" and all(x[0] == "c" for x in i[1:]):
                return [(st, ("tuple", b[1][slice(*[x[2] for x in i[1:]])]))]
        if k == "c" and b[1] in ("str", "bytes", "tuple"):
            try:
                if i[0] == "c":
                    return [(st, C(b[2][i[2]]))]
                if i[0] == "slice" and all(x[0] == "c" for x in i[1:]):
                    return [(st, C(b[2][slice(*[x[2] for x in i[1:]])]))]
            except (IndexError, TypeError):
                sink.append((st, "raise", ("exc", "builtins.IndexError", ())))
                return []
        if k == "list" and i[0] != "slice":
            return self.pick(st, b, i, self.site(node, fr))
        if k == "cls":
            if i[0] == "c" and self.is_enum(st, b[1]):
                v, q = self.class_attr(st, b[1], i[2])
                if v is not None and v[0] == "enumval":
                    return [(st, ("enum", q, i[2], v[1]))]
            return [(st, ("item", b, self.freeze(st, i)))]
        if k == "ext" and b[1].startswith("typing."):
            return [(st, b)]
        fb, fi_ = self.freeze(st, b), self.freeze(st, i)
        xo = st.over.get(("xattr", fb))
        if xo is not None and ("item", fi_) in xo.d:
            return [(st, xo.d[("item", fi_)])]
        if i[0] != "slice":
            self.lookup_err(st, b, i, fr, node, sink)
        return [(st, ("item", fb, fi_))]

    def slice_list(self, st, b, o, i, node, fr):
        lo, hi, step = i[1], i[2], i[3]
        if all(p[0] == "one" for p in o.d) and all(x[0] == "c" for x in i[1:]):
            parts = o.d[slice(lo[2], hi[2], step[2])]
            return self.new_list(st, self.site(node, fr), o.kind, parts)
        meta = o.x[1]
        if i[1:] == (NONE, NONE, NONE):
            return self.new_list(st, self.site(node, fr), o.kind, o.d, meta)
        if i[1:] == (NONE, NONE, C(-1)):
            return self.new_list(st, self.site(node, fr), o.kind, o.d[::-1], tuple(meta) + (("reversed",),))
        return self.new_list(st, self.site(node, fr), o.kind, o.d, tuple(meta) + (i,))

    def dict_put(self, st, ref, key, val):
        o = st.get(ref[1])
        key = self.freeze(st, key)
        binders = st.loops[o.x[0]:]
        if binders and any(x in binders for x in walk(key)):
            ef, cf = set(), set()
            for t, p in st.facts.items():
                (ef if any(x in binders for x in walk(t)) else cf).add((t, p))
            part = ("kv", key, val, frozenset(ef), frozenset(cf), tuple(binders))
            parts = tuple(p for p in o.x[2] if p[1] != key or p != part and not all(st.facts.get(t) == b for t, b in p[3])) + (part,)
            return st.put(ref[1], o._replace(x=(o.x[0], o.x[1], parts)))
        d = dict(o.d)
        d.pop(key, None)
        d[key] = val
        return st.put(ref[1], o._replace(d=d))

    def setitem(self, st, b, i, val, fr, node):
        fz = self.freeze(st, b) if b[0] != "ref" else b
        st = self.emit(st, "mut", "setitem", fz, (i, val), {}, NONE, fr, node)
        if b[0] == "ref":
            o = st.get(b[1])
            if o.kind == "dict":
                return self.dict_put(st, b, i, val)
            if o.kind in ("list", "buf"):
                if i[0] == "c" and all(p[0] == "one" for p in o.d) and isinstance(i[2], int) and -len(o.d) <= i[2] < len(o.d):
                    parts = list(o.d)
                    parts[i[2]] = ("one", val)
                    return st.put(b[1], o._replace(d=tuple(parts)))
                if i[0] == "slice" and i[1:] == (NONE, NONE, NONE):
                    st = st.put(b[1], o._replace(d=()))
                    return self.extend(st, b, val)
                return st.put(b[1], o._replace(d=(("any", self.site(node, fr)),)))
            if o.kind == "inst" and self.find_method(st, o.cls, "__setitem__"):
                sink = []
                outs = self.call_method(st, b, "__setitem__", (i, val), {}, fr, node, sink)
                return outs[0][0] if outs else st
            return st
        oid = ("xattr", fz)
        o = st.get(oid) or Obj("xattr", None, {}, None)
        d = dict(o.d)
        d[("item", self.freeze(st, i))] = val
        return st.put(oid, o._replace(d=d))

    def delitem(self, st, b, i, fr, node):
        fz = self.freeze(st, b) if b[0] != "ref" else b
        st = self.emit(st, "mut", "delitem", fz, (i,), {}, NONE, fr, node)
        if b[0] == "ref":
            o = st.get(b[1])
            if o.kind == "dict":
                return self.dict_del(st, b, i, self.site(node, fr))
            if o.kind in ("list", "buf"):
                if i[0] == "slice" and i[1:] == (NONE, NONE, NONE):
                    return st.put(b[1], o._replace(d=()))
                return st.put(b[1], o._replace(d=(("any", self.site(node, fr)),)))
        return st

    def dict_del(self, st, b, i, site):
        o = st.get(b[1])
        i = self.freeze(st, i)
        d = dict(o.d)
        if i in d:
            d.pop(i)
            return st.put(b[1], o._replace(d=d))
        parts = tuple(p for p in o.x[2] if p[1] != i)
        src = o.x[1]
        if src is not None:
            src = ("call", ("ext", "#without"), (src, i), (), None)
        return st.put(b[1], o._replace(d=d, x=(o.x[0], src, parts)))

    # ------------------------------------------------------------------ mutation of lists / sets / buffers
    def extend_any(self, st, ref, src, fr, node, sink):
        o = st.get(src[1]) if src[0] == "ref" else None
        if o is not None and o.kind in ("gen", "lazy", "dict", "inst"):
            out = []

            def body(s, e):
                oo = s.get(ref[1])
                return [(self.add_part(s, ref, self.mk_part(s, oo, e)), "n", None)]
            for s, k, v in self.iterate(st, src, self.site(node, fr) + ("ext",), fr, body, node):
                if k == "n":
                    out.append(s)
                else:
                    sink.append((s, k, v))
            return out
        return [self.extend(st, ref, src)]

    def mutate(self, st, ref, method, args, fr, node, sink):
        st = self.emit(st, "mut", method, ref, tuple(self.freeze(st, a) for a in args), {}, NONE, fr, node)
        o = st.get(ref[1])
        if method in ("append", "add"):
            v = args[0]
            if o.kind == "set" and ("one", v) in o.d:
                return [st]
            return [self.add_part(st, ref, self.mk_part(st, o, v))]
        if method in ("extend", "update"):
            cur = [st]
            for a in args:
                cur = [s2 for s1 in cur for s2 in self.extend_any(s1, ref, a, fr, node, sink)]
            return cur
        if method == "insert":
            p = self.mk_part(st, o, args[1])
            if args[0] == C(0) and not st.loops[o.x[0]:]:
                return [st.put(ref[1], o._replace(d=(p,) + o.d))]
            return [self.add_part(st, ref, p)]
        if method == "clear":
            return [st.put(ref[1], o._replace(d=(), x=(len(st.loops) if st.loops[:o.x[0]] == st.loops else o.x[0], ())))]
        if method == "reverse":
            return [st.put(ref[1], o._replace(d=o.d[::-1], x=(o.x[0], tuple(o.x[1]) + (("reversed",),))))]
        if method in ("remove", "discard"):
            v = args[0]
            if ("one", v) in o.d and all(p[0] == "one" for p in o.d):
                i = o.d.index(("one", v))
                return [st.put(ref[1], o._replace(d=o.d[:i] + o.d[i + 1:]))]
            return [st]
        return [st.put(ref[1], o._replace(d=(("any", self.site(node, fr)),)))]

    def list_method(self, st, ref, o, name, args, kw, fr, node, sink):
        if name in ("append", "add", "extend", "update", "insert", "clear", "reverse", "remove", "discard"):
            return [(s, NONE) for s in self.mutate(st, ref, name, args, fr, node, sink)]
        if name == "sort":
            st = self.emit(st, "mut", "sort", ref, (), kw, NONE, fr, node)
            o = st.get(ref[1])
            return [(self.set_sorted(st, ref, kw), NONE)]
        if name == "pop":
            st = self.emit(st, "mut", "pop", ref, args, {}, NONE, fr, node)
            o = st.get(ref[1])
            i = args[0] if args else C(-1)
            if not o.d:
                sink.append((st, "raise", ("exc", "builtins.IndexError", ())))
                return []
            if not all(p[0] == "one" for p in o.d):
                self.lookup_err(st, ref, i, fr, node, sink)
            if o.kind == "set":
                i = ("opq", "setpop", self.site(node, fr))
            out = []
            for s, v in self.pick(st, ref, i, self.site(node, fr)):
                oo = s.get(ref[1])
                if all(p[0] == "one" for p in oo.d) and i[0] == "c" and -len(oo.d) <= i[2] < len(oo.d):
                    parts = list(oo.d)
                    del parts[i[2]]
                    s = s.put(ref[1], oo._replace(d=tuple(parts)))
                out.append((s, v))
            return out
        if name == "copy":
            s, r = self.new_list(st, self.site(node, fr), o.kind, o.d, o.x[1])
            return [(s, r)]
        fz = self.freeze(st, ref)
        a = []
        cur = [(st, ())]
        for x in args:
            cur = [(s2, vs + (v2,)) for s1, vs in cur for s2, v2 in self.fz_arg(s1, x, fr, node, sink)]
        return [(s, ("call", ("attr", fz, name), vs, tuple(sorted((k, self.freeze(s, v)) for k, v in kw.items())), None)) for s, vs in cur]

    def set_sorted(self, st, ref, kw):
        o = st.get(ref[1])
        key = kw.get("key", NONE)
        rev = kw.get("reverse", FALSE)
        if self.while_turns and key == NONE and rev in (TRUE, FALSE) and o.d and all(p[0] == "one" for p in o.d):
            heads = [p[1][1][0] if p[1][0] == "tuple" and p[1][1] else p[1] for p in o.d]
            if all(h[0] == "c" for h in heads) and len({h[1] for h in heads}) == 1 and (len(set(heads)) == len(heads) or heads == [p[1] for p in o.d]):
                # known and in a known order
                return st.put(ref[1], o._replace(d=tuple(p for _, p in sorted(zip(heads, o.d), key=lambda x: x[0][2], reverse=rev == TRUE)), x=(o.x[0], ())))
        return st.put(ref[1], o._replace(x=(o.x[0], (("sorted", self.freeze(st, key), self.freeze(st, rev)),))))

    def fz_arg(self, st, v, fr, node, sink):
        """snapshot an argument; lazy pipelines are run so that what they yield is visible"""
        if v[0] == "ref":
            o = st.get(v[1])
            if o is not None and o.kind in ("gen", "lazy"):
                out = []
                for s, l in self.materialise(st, v, "list", fr, node, sink):
                    out.append((s, self.freeze(s, l)))
                return out
        return [(st, self.freeze(st, v))]

    def materialise(self, st, v, kind, fr, node, sink, tag="mat"):
        """list(v) / set(v) / ... as an object -> [(state, ref)]"""
        o = st.get(v[1]) if v[0] == "ref" else None
        s, ref = self.new_list(st, self.site(node, fr) + (tag,), kind)
        if v[0] == "call" and v[1] == ("ext", "builtins.range") or (v[0] == "c" and v[1] in ("str", "tuple", "bytes")) or (
                o is not None and o.kind in ("gen", "lazy", "dict", "inst")) or (
                v[0] == "call" and v[1][0] == "attr" and v[1][2] in ("items", "values", "keys")):
            base = len(s.trace)

            def body(s1, e):
                oo = s1.get(ref[1])
                return [(self.add_part(s1, ref, self.mk_part(s1, oo, e)), "n", None)]
            good, outs = [], []
            for s1, k, x in self.iterate(s, v, self.site(node, fr) + (tag,), fr, body, node):
                outs.append((s1, k, x))
            fr2 = fr.sub(oid=("none",))
            return self._fin_comp(outs, s, ref, fr2, sink)
        if o is not None and o.kind in ("list", "set", "buf"):
            s = s.put(ref[1], s.get(ref[1])._replace(d=once(o.d, kind), x=(len(s.loops), o.x[1] if kind == o.kind else unique(o.kind, o.d))))
            # parts keep the binders of the depth they were created at
            return [(s, ref)]
        if v[0] == "list":
            s = s.put(ref[1], s.get(ref[1])._replace(d=once(v[2], kind), x=(len(s.loops), v[3] if v[1] == kind else unique(v[1], v[2]))))
            return [(s, ref)]
        if v[0] == "tuple":
            s = s.put(ref[1], s.get(ref[1])._replace(d=once(tuple(("one", x) for x in v[1]), kind)))
            return [(s, ref)]
        fz = self.freeze(s, v)
        if fz == C("") or fz == C(b""):
            return [(s, ref)]
        s = s.put(ref[1], s.get(ref[1])._replace(d=(("star", fz),)))
        return [(s, ref)]

    # ------------------------------------------------------------------ dictionaries
    def dict_method(self, st, ref, name, args, kw, fr, node, sink, quiet=False):
        o = st.get(ref[1])
        closed = o.x[1] is None and not o.x[2]
        consts = all(x[0] in ("c", "enum") for x in o.d)

        def src_term(s):
            oo = s.get(ref[1])
            if oo.x[1] is not None and not oo.d and not oo.x[2]:
                return oo.x[1]
            if ref[1] in s.base and len(oo.d) > 12:
                return ref
            return self.freeze(s, ref)
        if name == "get":
            i = self.freeze(st, args[0])
            dflt = args[1] if len(args) > 1 else kw.get("default", NONE)
            v = self.dict_find(o, i)
            if v is not None:
                return [(st, v)]
            if closed and ((consts and i[0] in ("c", "enum")) or not o.d):
                return [(st, dflt)]
            return [(st, ("get", src_term(st), i, self.freeze(st, dflt)))]
        if name in ("keys", "values", "items"):
            s, l = self.new_list(st, self.site(node, fr) + (name,))
            parts = []
            for k, v in o.d.items():
                parts.append(("one", {"keys": k, "values": v}.get(name) or ("tuple", (k, v))))
            for p in o.x[2]:
                t = {"keys": p[1], "values": p[2]}.get(name) or ("tuple", (p[1], p[2]))
                parts.append(("rep", t, p[3], p[4], p[5]))
            if o.x[1] is not None:
                e = ("elem", o.x[1], "*k")
                if name == "keys":
                    parts.append(("star", o.x[1]))
                else:
                    t = ("item", o.x[1], e)
                    t = t if name == "values" else ("tuple", (e, t))
                    parts.append(("rep", t, frozenset(), frozenset(), (e,)))
            return [(s.put(l[1], s.get(l[1])._replace(d=tuple(parts))), l)]
        if name == "copy":
            s, r = self.new_dict(st, self.site(node, fr), o.d, o.x[1], o.x[2])
            return [(s, r)]
        if name in ("pop", "setdefault"):
            i = self.freeze(st, args[0])
            st = self.emit(st, "mut", name, ref, tuple(self.freeze(st, a) for a in args), {}, NONE, fr, node)
            v = self.dict_find(o, i)
            if name == "setdefault":
                dv = args[1] if len(args) > 1 else NONE
                if v is not None:
                    return [(st, v)]
                if closed and consts and i[0] in ("c", "enum"):
                    return [(self.dict_put(st, ref, i, dv), dv)]
                g = ("get", src_term(st), i, self.freeze(st, dv))
                if dv[0] == "ref":
                    # existing value, or the new container
                    out = []
                    for s, b in self._split_term(st, ("cmp", "in", i, src_term(st))):
                        if b:
                            out.append((s, ("item", src_term(s), i)))
                        else:
                            out.append((self.dict_put(s, ref, i, dv), dv))
                    return out
                return [(self.dict_put(st, ref, i, g), g)]
            if v is not None:
                return [(self.dict_del(st, ref, i, self.site(node, fr)), v)]
            if closed and consts and i[0] in ("c", "enum"):
                if len(args) > 1:
                    return [(st, args[1])]
                sink.append((st, "raise", ("exc", "builtins.KeyError", (i,))))
                return []
            if len(args) > 1:
                g = ("get", src_term(st), i, self.freeze(st, args[1]))
            else:
                self.lookup_err(st, ref, i, fr, node, sink)
                g = ("item", src_term(st), i)
            return [(self.dict_del(st, ref, i, self.site(node, fr)), g)]
        if name == "update":
            if not quiet:
                st = self.emit(st, "mut", "update", ref, tuple(self.freeze(st, a) for a in args), {}, NONE, fr, node)
            for m in args:
                mo = st.get(m[1]) if m[0] == "ref" else None
                o = st.get(ref[1])
                if mo is not None and mo.kind == "dict":
                    d = dict(o.d)
                    for k, v in mo.d.items():
                        d.pop(k, None)
                        d[k] = v
                    src = o.x[1]
                    if mo.x[1] is not None:
                        if src is None and not o.d and not o.x[2]:
                            src, d = mo.x[1], dict(mo.d)
                        else:
                            src = ("call", ("ext", "#merge"), (self.freeze(st, ref), self.freeze(st, m)), (), None)
                            d = dict(mo.d)
                    st = st.put(ref[1], o._replace(d=d, x=(o.x[0], src, o.x[2] + mo.x[2])))
                elif mo is not None and mo.kind == "list" and not st.loops[o.x[0]:] and not mo.x[1] and all(p[0] in ("one", "star", "rep") for p in mo.d):
                    for p in mo.d:
                        pair = p[1] if p[0] != "star" else ("elem", p[1], self.site(node, fr) + ("upd",))
                        k, v = pair[1] if pair[0] == "tuple" and len(pair[1]) == 2 else (("item", pair, C(0)), ("item", pair, C(1)))
                        if p[0] == "one":
                            st = self.dict_put(st, ref, k, v)
                            continue
                        oo = st.get(ref[1])
                        part = ("kv", self.freeze(st, k), v, p[2], p[3], p[4]) if p[0] == "rep" else ("kv", self.freeze(st, k), v, frozenset(), frozenset(), (pair,))
                        st = st.put(ref[1], oo._replace(x=(oo.x[0], oo.x[1], tuple(q for q in oo.x[2] if q != part) + (part,))))
                elif mo is not None and mo.kind in ("lazy", "list", "gen"):
                    def body(s, e):
                        k, v = (e[1] if e[0] == "tuple" and len(e[1]) == 2 else (("item", e, C(0)), ("item", e, C(1))))
                        return [(self.dict_put(s, ref, k, v), "n", None)]
                    outs = self.iterate(st, m, self.site(node, fr) + ("upd",), fr, body, node)
                    sts = []
                    for s2, k2, v2 in outs:
                        if k2 == "n":
                            sts.append(s2)
                        else:
                            sink.append((s2, k2, v2))
                    if len(sts) > 1:
                        rest = args[args.index(m) + 1:]
                        return [x for s2 in sts for x in self.dict_method(s2, ref, "update", rest, kw, fr, node, sink, True)]
                    st = sts[0] if sts else st
                else:
                    fm = self.freeze(st, m)
                    if not o.d and o.x[1] is None and any(x in st.loops[o.x[0]:] for x in walk(fm)):
                        ky = ("elem", fm, "*k")
                        st = self.dict_put(st, ref, ky, ("item", fm, ky))
                    elif o.x[1] is None and not o.d and not o.x[2]:
                        st = st.put(ref[1], o._replace(x=(o.x[0], fm, ())))
                    else:
                        src = ("call", ("ext", "#merge"), (self.freeze(st, ref), fm), (), None)
                        st = st.put(ref[1], o._replace(d={}, x=(o.x[0], src, ())))
            for k, v in kw.items():
                if k != "**":
                    st = self.dict_put(st, ref, C(k), v)
            return [(st, NONE)]
        if name == "clear":
            st = self.emit(st, "mut", "clear", ref, (), {}, NONE, fr, node)
            o = st.get(ref[1])
            return [(st.put(ref[1], o._replace(d={}, x=(o.x[0], None, ()))), NONE)]
        if name == "popitem":
            st = self.emit(st, "mut", "popitem", ref, (), {}, NONE, fr, node)
            return [(st, ("opq", "popitem", self.site(node, fr)))]
        return [(st, ("call", ("attr", src_term(st), name), tuple(self.freeze(st, a) for a in args), (), None))]

    # ------------------------------------------------------------------ operators
    def binop(self, st, op, a, b):
        if a[0] == "c" and b[0] == "c":
            try:
                if op == "+":
                    return C(a[2] + b[2])
                if op == "-":
                    return C(a[2] - b[2])
                if op == "*" and (not isinstance(a[2], (str, bytes)) or b[2] < 1000):
                    return C(a[2] * b[2])
                if op == "//":
                    return C(a[2] // b[2])
                if op == "/":
                    return C(a[2] / b[2])
                if op == "%":
                    return C(a[2] % b[2])
                if op == "**" and abs(b[2]) < 64:
                    return C(a[2] ** b[2])
                if op == "|":
                    return C(a[2] | b[2])
                if op == "&":
                    return C(a[2] & b[2])
            except Exception:
                pass
        ka, kb = self.kind_of(st, a), self.kind_of(st, b)
        if op == "+":
            if ka == "str" or kb == "str":
                return cat([self.strpart(st, a), self.strpart(st, b)])
            fa, fb = self.freeze(st, a), self.freeze(st, b)
            if fa[0] == "list" and fb[0] == "list":
                return ("list", fa[1], fa[2] + fb[2], ())
            if fa[0] == "list" and fa[1] in ("list",):
                return ("list", fa[1], fa[2] + (("star", fb),), ())
            if fb[0] == "list" and fb[1] in ("list",):
                return ("list", fb[1], (("star", fa),) + fb[2], ())
            if a[0] == "tuple" and b[0] == "tuple":
                return ("tuple", a[1] + b[1])
            if b == C(0):
                return fa
            return ("bin", "+", fa, fb)
        if op == "%" and a[0] == "c" and a[1] == "str":
            args = list(b[1]) if b[0] == "tuple" else [b]
            segs = a[2].split("%s")
            if len(segs) == len(args) + 1 and "%" not in "".join(segs):
                parts = [C(segs[0])]
                for x, t in zip(args, segs[1:]):
                    parts += [self.strpart(st, x), C(t)]
                return cat(parts)
        if op == "|" and a[0] == "ref" and b[0] == "ref":
            oa, ob = st.get(a[1]), st.get(b[1])
            if oa.kind == "dict" and ob.kind == "dict":
                return ("call", ("ext", "#merge"), (self.freeze(st, a), self.freeze(st, b)), (), None)
        return ("bin", op, self.freeze(st, a), self.freeze(st, b))


def unique(kind, parts):
    """what is known of the order and number of elements of a list made of a set"""
    return (("unique",),) if kind == "set" and any(p[0] != "one" for p in parts) else ()
