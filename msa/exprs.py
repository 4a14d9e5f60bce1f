"""Expressions."""
import ast
import time

from .terms import *
from .state import Obj, Ev, State, merge
from .program import AnalysisError
from .ops import is_nat

BINOP = {
    ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
    ast.BitOr: "|", ast.BitAnd: "&", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>", ast.MatMult: "@",
}
CMPOP = {
    ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Is: "is",
    ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in",
}
UNOP = {ast.USub: "-", ast.UAdd: "+", ast.Invert: "~"}


class Exprs:
    _binop = BINOP

    def ev(self, node, st, fr, sink):
        self.steps += 1
        if self.steps > self.budget or (self.steps & 1023 == 0 and time.monotonic() > self.deadline):
            raise AnalysisError("analysis budget exhausted")
        m = self._edispatch.get(type(node))
        if m is None:
            return [(st, ("opq", type(node).__name__, self.site(node, fr)))]
        return m(self, node, st, fr, sink)

    def ev_many(self, nodes, st, fr, sink):
        """evaluate left to right -> [(state, tuple of values)]"""
        cur = [(st, ())]
        for n in nodes:
            nxt = []
            for s, vs in cur:
                for s2, v in self.ev(n, s, fr, sink):
                    nxt.append((s2, vs + (v,)))
            cur = nxt
        return cur

    # ------------------------------------------------------------------ atoms
    def e_const(self, node, st, fr, sink):
        return [(st, C(node.value))]

    def e_name(self, node, st, fr, sink):
        v = self.lookup(st, fr, node.id)
        if v is None:
            s = self.emit(st, "unbound", node.id, None, (), {}, NONE, fr, node)
            sink.append((s, "raise", ("exc", "builtins.UnboundLocalError", (C(node.id),))))
            return []
        return [(st, v)]

    def e_attr(self, node, st, fr, sink):
        out = []
        for s, b in self.ev(node.value, st, fr, sink):
            out.extend(self.getattr(s, b, node.attr, fr, node, sink))
        return out

    def ev_slice(self, node, st, fr, sink):
        if isinstance(node, ast.Slice):
            parts = [n if n is not None else ast.Constant(value=None) for n in (node.lower, node.upper, node.step)]
            return [(s, ("slice",) + vs) for s, vs in self.ev_many(parts, st, fr, sink)]
        return self.ev(node, st, fr, sink)

    def e_sub(self, node, st, fr, sink):
        out = []
        for s, b in self.ev(node.value, st, fr, sink):
            for s1, i in self.ev_slice(node.slice, s, fr, sink):
                out.extend(self.getitem(s1, b, i, fr, node, sink))
        return out

    def e_binop(self, node, st, fr, sink):
        out = []
        op = BINOP[type(node.op)]
        for s, (a, b) in self.ev_many([node.left, node.right], st, fr, sink):
            oa, ob = [s.get(x[1]) if x[0] == "ref" else None for x in (a, b)]
            if op == "+" and oa is not None and ob is not None and oa.kind == ob.kind == "list" and not oa.x[1] and not ob.x[1]:
                out.append(self.new_list(s, self.site(node, fr), "list", tuple(oa.d) + tuple(ob.d)))
                continue
            v = self.binop(s, op, a, b)
            if v[0] == "list":
                s, v = self.thaw(s, v, self.site(node, fr))
            out.append((s, v))
        return out

    def e_unary(self, node, st, fr, sink):
        if isinstance(node.op, ast.Not):
            out = []
            for s, v in self.ev(node.operand, st, fr, sink):
                if v[0] == "not":
                    out.append((s, v[1] if v[1][0] in ("cmp", "exists", "truth", "not") else ("truth", v[1])))
                elif v[0] in ("cmp", "exists", "truth"):
                    out.append((s, ("not", v)))
                else:
                    for s2, b in self.truth(s, v, fr, sink, node):
                        out.append((s2, C(not b)))
            return out
        out = []
        for s, v in self.ev(node.operand, st, fr, sink):
            if v[0] == "c" and isinstance(v[2], (int, float)):
                op = UNOP[type(node.op)]
                out.append((s, C(-v[2] if op == "-" else (+v[2] if op == "+" else ~v[2]))))
            else:
                out.append((s, ("un", UNOP[type(node.op)], v)))
        return out

    def e_bool(self, node, st, fr, sink):
        is_and = isinstance(node.op, ast.And)
        cur = [st]
        out = []
        for i, n in enumerate(node.values):
            last = i == len(node.values) - 1
            nxt = []
            for s in cur:
                for s1, v in self.ev(n, s, fr, sink):
                    if last:
                        out.append((s1, v))
                        continue
                    for s2, b in self.truth(s1, v, fr, sink, n):
                        if b == is_and:
                            nxt.append(s2)
                        else:
                            if v[0] in ("cmp", "not", "exists", "truth"):
                                v2 = C(b)
                            elif not b and v[0] != "c" and s2.fact(("cmp", "is", v, NONE)) is True:
                                v2 = NONE
                            else:
                                v2 = v
                            out.append((s2, v2))
            cur = nxt
        return out

    def e_compare(self, node, st, fr, sink):
        if len(node.ops) == 1:
            op = CMPOP[type(node.ops[0])]
            out = []
            for s, (a, b) in self.ev_many([node.left, node.comparators[0]], st, fr, sink):
                out.extend(self.compare(s, op, a, b, fr, node, sink))
            return out
        out = []
        for s, b in self.cond(node, st, fr, sink):
            out.append((s, C(b)))
        return out

    def compare(self, st, op, a, b, fr, node, sink):
        """[(state, value)]; user-defined comparison methods are followed"""
        for x, y, names in ((a, b, {"==": "__eq__", "!=": "__ne__", "<": "__lt__", ">": "__gt__", "<=": "__le__", ">=": "__ge__"}),):
            if x[0] == "ref" and op in names:
                o = st.get(x[1])
                if o is not None and o.kind == "inst" and self.find_method(st, o.cls, names[op]):
                    return self.call_method(st, x, names[op], (y,), {}, fr, node, sink)
        if op in ("in", "not in") and b[0] == "ref":
            o = st.get(b[1])
            if o is not None and o.kind == "inst" and self.find_method(st, o.cls, "__contains__"):
                out = []
                for s, v in self.call_method(st, b, "__contains__", (a,), {}, fr, node, sink):
                    out.append((s, v if op == "in" else (C(not v[2]) if v[0] == "c" else ("not", v))))
                return out
            if o is not None and o.kind in ("gen", "lazy"):
                out = []
                for s, l in self.materialise(st, b, "list", fr, node, sink):
                    out.append((s, self.mkcmp(s, op, a, l)))
                return out
        return [(st, self.mkcmp(st, op, a, b))]

    def e_ifexp(self, node, st, fr, sink):
        out = []
        for s, b in self.cond(node.test, st, fr, sink):
            out.extend(self.ev(node.body if b else node.orelse, s, fr, sink))
        return out

    # conditions: short circuit natively
    def cond(self, node, st, fr, sink):
        if isinstance(node, ast.BoolOp):
            is_and = isinstance(node.op, ast.And)
            cur, out = [st], []
            for n in node.values:
                nxt = []
                for s in cur:
                    for s2, b in self.cond(n, s, fr, sink):
                        if b == is_and:
                            nxt.append(s2)
                        else:
                            out.append((s2, b))
                cur = nxt
            return out + [(s, is_and) for s in cur]
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            return [(s, not b) for s, b in self.cond(node.operand, st, fr, sink)]
        if isinstance(node, ast.Compare) and len(node.ops) > 1:
            out = []
            cur = [(s, v) for s, v in self.ev(node.left, st, fr, sink)]
            for opn, rn in zip(node.ops, node.comparators):
                nxt = []
                for s, a in cur:
                    for s1, b in self.ev(rn, s, fr, sink):
                        for s2, cv in self.compare(s1, CMPOP[type(opn)], a, b, fr, node, sink):
                            for s3, r in self.truth(s2, cv, fr, sink, node):
                                if r:
                                    nxt.append((s3, b))
                                else:
                                    out.append((s3, False))
                cur = nxt
            return out + [(s, True) for s, _ in cur]
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id == "bool" and len(node.args) == 1 and not node.keywords:
            return self.cond(node.args[0], st, fr, sink)
        out = []
        for s, v in self.ev(node, st, fr, sink):
            out.extend(self.truth(s, v, fr, sink, node))
        return out

    def truth(self, st, v, fr, sink, node):
        if v[0] == "ref":
            o = st.get(v[1])
            if o is not None and o.kind == "inst":
                if self.find_method(st, o.cls, "__bool__"):
                    out = []
                    for s, r in self.call_method(st, v, "__bool__", (), {}, fr, node, sink):
                        out.extend(self.truth(s, r, fr, sink, node))
                    return out
                if self.find_method(st, o.cls, "__len__"):
                    out = []
                    for s, r in self.call_method(st, v, "__len__", (), {}, fr, node, sink):
                        out.extend(self.split(s, r))
                    return out
                if self.opaque_base(st, o.cls):
                    return self._split_term(st, ("truth", v))
                return [(st, True)]
        return self.split(st, v)

    # ------------------------------------------------------------------ strings
    def e_joined(self, node, st, fr, sink):
        cur = [(st, ())]
        for p in node.values:
            nxt = []
            for s, acc in cur:
                if isinstance(p, ast.Constant):
                    nxt.append((s, acc + (C(p.value),)))
                    continue
                for s1, v in self.ev(p.value, s, fr, sink):
                    if p.conversion == 114:
                        v = ("call", ("ext", "builtins.repr"), (self.freeze(s1, v),), (), None)
                    if p.format_spec is not None:
                        for s2, spec in self.ev(p.format_spec, s1, fr, sink):
                            if v[0] == "c" and spec[0] == "c":
                                try:
                                    r = C(format(v[2], spec[2]))
                                except (TypeError, ValueError):
                                    r = ("call", ("ext", "builtins.format"), (v, spec), (), None)
                            else:
                                r = ("call", ("ext", "builtins.format"), (self.freeze(s2, v), spec), (), None)
                            nxt.append((s2, acc + (r,)))
                        continue
                    nxt.append((s1, acc + (self.strpart(s1, v),)))
            cur = nxt
        return [(s, cat(acc)) for s, acc in cur]

    def strpart(self, st, v):
        if v[0] == "c" and not isinstance(v[2], (str, int, float)):
            return C(str(v[2]))
        if v[0] == "c" and isinstance(v[2], bool):
            return C(str(v[2]))
        return self.freeze(st, v)

    # ------------------------------------------------------------------ containers
    def e_tuple(self, node, st, fr, sink):
        if any(isinstance(e, ast.Starred) for e in node.elts):
            out = []
            for s, ref in self._build(node, "list", st, fr, sink):
                o = s.get(ref[1])
                if all(p[0] == "one" for p in o.d):
                    out.append((s, ("tuple", tuple(p[1] for p in o.d))))
                else:
                    out.append((s, ("list", "tuple", o.d, ())))
            return out
        return [(s, ("tuple", vs)) for s, vs in self.ev_many(node.elts, st, fr, sink)]

    def e_list(self, node, st, fr, sink):
        return self._build(node, "list", st, fr, sink)

    def e_set(self, node, st, fr, sink):
        return self._build(node, "set", st, fr, sink)

    def _build(self, node, kind, st, fr, sink):
        site = self.site(node, fr)
        elts = [e.value if isinstance(e, ast.Starred) else e for e in node.elts]
        out = []
        for s, vs in self.ev_many(elts, st, fr, sink):
            s, ref = self.new_list(s, site, kind)
            cur = [s]
            for e, v in zip(node.elts, vs):
                nxt = []
                for s1 in cur:
                    if isinstance(e, ast.Starred):
                        nxt.extend(self.extend_any(s1, ref, v, fr, node, sink))
                    else:
                        o = s1.get(ref[1])
                        nxt.append(s1.put(ref[1], o._replace(d=o.d + (("one", v),))))
                cur = nxt
            out.extend((s1, ref) for s1 in cur)
        return out

    def e_dict(self, node, st, fr, sink):
        site = self.site(node, fr)
        cur = [(st, None)]
        s, ref = self.new_dict(st, site)
        cur = [s]
        for k, v in zip(node.keys, node.values):
            nxt = []
            for s in cur:
                if k is None:
                    for s1, m in self.ev(v, s, fr, sink):
                        for s2, _ in self.dict_method(s1, ref, "update", (m,), {}, fr, node, sink, quiet=True):
                            nxt.append(s2)
                else:
                    for s1, (kk, vv) in self.ev_many([k, v], s, fr, sink):
                        o = s1.get(ref[1])
                        d = dict(o.d)
                        d[self.freeze(s1, kk)] = vv
                        nxt.append(s1.put(ref[1], o._replace(d=d)))
            cur = nxt
        return [(s, ref) for s in cur]

    def thaw(self, st, term, site):
        """a frozen list term becomes a list object again"""
        return self.new_list(st, site, term[1] if term[1] != "tuple" else "list", term[2], term[3])

    # ------------------------------------------------------------------ comprehensions
    def e_listcomp(self, node, st, fr, sink):
        return self._listcomp(node, "list", st, fr, sink)

    def e_setcomp(self, node, st, fr, sink):
        return self._listcomp(node, "set", st, fr, sink)

    def _child(self, st, fr, node):
        st, ref = st.new(self.site(node, fr) + ("scope",), Obj("frame", None, {}, (fr.oid, "<comp>", False)))
        return st, fr.sub(oid=ref[1])

    def _listcomp(self, node, kind, st, fr, sink):
        s, ref = self.new_list(st, self.site(node, fr), kind)
        s, fr2 = self._child(s, fr, node)

        def emit(s1, f2, sk):
            res = []
            for s2, v in self.ev(node.elt, s1, f2, sk):
                o = s2.get(ref[1])
                res.append((self.add_part(s2, ref, self.mk_part(s2, o, v)), "n", None))
            return res
        def fin(s1, meta):
            o = s1.get(ref[1])
            return s1.put(ref[1], o._replace(x=(o.x[0], tuple(o.x[1]) + (("of",) + meta,))))
        outs = self.comp(node.generators, 0, s, fr2, emit, sink, fin if kind == "list" and len(node.generators) == 1 else None)
        return self._fin_comp(outs, s, ref, fr2, sink)

    def e_dictcomp(self, node, st, fr, sink):
        s, ref = self.new_dict(st, self.site(node, fr))
        s, fr2 = self._child(s, fr, node)

        def emit(s1, f2, sk):
            res = []
            for s2, (k, v) in self.ev_many([node.key, node.value], s1, f2, sk):
                res.append((self.dict_put(s2, ref, k, v), "n", None))
            return res
        outs = self.comp(node.generators, 0, s, fr2, emit, sink)
        return self._fin_comp(outs, s, ref, fr2, sink)

    def _fin_comp(self, outs, start, ref, fr2, sink):
        good = []
        base = len(start.trace)
        for s, k, v in outs:
            s = s if self._captured(s, fr2.oid) else s.drop(fr2.oid)
            delta = s.trace[base:]
            if k in ("n", "cont") and all(e.kind in ("iter", "enditer") for e in delta):
                s = s.with_(trace=s.trace[:base])
            if k in ("n", "cont"):
                good.append(s)
            else:
                sink.append((s, k, v))
        if len(good) > 1 and all(len(s.trace) == base for s in good):
            # "zero or more" already covers the empty collection
            full = []
            for s in good:
                o = s.get(ref[1])
                full.append((len(o.d) + (len(o.x[2]) if o.kind == "dict" else 0), s))
            mx = max(n for n, _ in full)
            best = [s for n, s in full if n == mx]
            gen = []
            for s in best:
                o = s.get(ref[1])
                ok = all(p[0] in ("rep", "star") for p in o.d) if o.kind != "dict" else not o.d
                gen.append(ok)
            if mx and all(gen):
                allp = []
                for s in good:
                    o = s.get(ref[1])
                    for p in (o.d if o.kind != "dict" else o.x[2]):
                        if p not in allp:
                            allp.append(p)
                s0 = best[0]
                nf = {t: p for t, p in start.facts.items() if all(s.facts.get(t) is p for s in good)}
                o = s0.get(ref[1])
                if all(len(s.over) == len(s0.over) for s in best):
                    s1 = s0.put(ref[1], o._replace(d=tuple(allp)) if o.kind != "dict" else o._replace(x=(o.x[0], o.x[1], tuple(allp))))
                    return [(s1.with_(facts=nf), ref)]
        return [(s, ref) for s in good]

    def _captured(self, st, oid):
        o = st.get(oid)
        return bool(o and o.x and o.x[2])

    def e_genexp(self, node, st, fr, sink):
        # the first iterable is evaluated immediately
        out = []
        for s, it in self.ev(node.generators[0].iter, st, fr, sink):
            s, fr2 = self._child(s, fr, node)
            s = self.capture(s, fr2.oid)
            o = s.get(fr2.oid)
            d = dict(o.d)
            d["#it0"] = it
            s = s.put(fr2.oid, o._replace(d=d))
            s, ref = s.new(self.site(node, fr), Obj("lazy", "genexp", {"args": (node, fr2)}, None))
            out.append((s, ref))
        return out

    def comp(self, gens, i, st, fr, emit, sink, fin=None):
        if i == len(gens):
            return emit(st, fr, sink)
        g = gens[i]
        out = []
        pre = None
        if i == 0:
            pre = st.get(fr.oid).d.get("#it0")
        its = [(st, pre)] if pre is not None else self.ev(g.iter, st, fr, sink)
        for s, it in its:
            def body(s1, elem):
                res = []
                sk = []
                for s2 in self.assign(g.target, elem, s1, fr, sk):
                    cur = [s2]
                    rejected = []
                    for c in g.ifs:
                        nxt = []
                        for s3 in cur:
                            for s4, b in self.cond(c, s3, fr, sk):
                                (nxt if b else rejected).append(s4)
                        cur = nxt
                    for s3 in cur:
                        res.extend(self.comp(gens, i + 1, s3, fr, emit, sk))
                    res.extend((s3, "cont", None) for s3 in rejected)
                return res + sk
            meta = ()
            if fin is not None:
                if it[0] == "ref":
                    o = s.get(it[1])
                    meta = tuple(o.x[1]) if o.kind == "list" and o.x else ()
                elif it[0] == "list":
                    meta = tuple(it[3])
            outs = self.iterate(s, it, self.site(g.target, fr), fr, body, g.target)
            if meta:
                outs = [(fin(s1, meta) if k == "n" else s1, k, v) for s1, k, v in outs]
            out.extend(outs)
        return out

    # ------------------------------------------------------------------ functions
    def e_lambda(self, node, st, fr, sink):
        fi = self.prog.func_by_node[id(node)]
        st = self.capture(st, fr.oid)
        return [(st, ("fn", fi.qual, fr.oid, fi.fid))]

    def capture(self, st, oid):
        while oid is not None:
            o = st.get(oid)
            if o is None or o.kind != "frame":
                return st
            if o.x[2] or (isinstance(oid, str)):
                return st
            st = st.put(oid, o._replace(x=(o.x[0], o.x[1], True)))
            oid = o.x[0]
        return st

    def e_named(self, node, st, fr, sink):
        out = []
        for s, v in self.ev(node.value, st, fr, sink):
            oid = fr.oid
            f2 = fr
            while True:
                o = s.get(oid)
                if o is None or o.x is None or o.x[1] != "<comp>":
                    break
                oid = o.x[0]
            if oid != fr.oid:
                f2 = fr.sub(oid=oid)
            out.append((self.bind(s, f2, node.target.id, v), v))
        return out

    def e_yield(self, node, st, fr, sink):
        vals = [(st, NONE)] if node.value is None else self.ev(node.value, st, fr, sink)
        out = []
        for s, v in vals:
            out.extend(self.do_yield(s, v, fr, node, sink))
        return out

    def do_yield(self, st, v, fr, node, sink):
        out = []
        st = self.emit(st, "yield", fr.fi.qual if fr.fi else "?", None, (self.freeze(st, v),), {}, v, fr, node)
        if fr.on_yield is None:
            return [(st, NONE)]
        for s, k, x in fr.on_yield(st, v):
            if k == "resume":
                out.append((s, x))
            elif k == "throw":
                sink.append((s, "raise", x))
            else:
                sink.append((s, "gx", x))
        return out

    def e_yieldfrom(self, node, st, fr, sink):
        out = []
        for s, it in self.ev(node.value, st, fr, sink):
            def body(s1, e):
                sk = []
                return [(s2, "n", None) for s2, _ in self.do_yield(s1, e, fr, node, sk)] + sk
            for s2, k, v in self.iterate(s, it, self.site(node, fr), fr, body, node):
                if k == "n":
                    out.append((s2, NONE))
                else:
                    sink.append((s2, k, v))
        return out

    def e_starred(self, node, st, fr, sink):
        return self.ev(node.value, st, fr, sink)

    def e_await(self, node, st, fr, sink):
        return self.ev(node.value, st, fr, sink)

    def spread(self, st, vs, i, fr, node, sink):
        """what an iterator gives, where it is given as separate arguments"""
        o = st.get(vs[i][1]) if vs[i][0] == "ref" else None
        if o is None or o.kind not in ("lazy", "gen"):
            return [(st, vs)]
        return [(s, tuple(vs[:i]) + (l,) + tuple(vs[i + 1:])) for s, l in self.materialise(st, vs[i], "list", fr, node, sink, ("star", i))]

    def e_call(self, node, st, fr, sink):
        out = []
        site_nodes = []
        # super() needs the frame
        for s, f in self.ev(node.func, st, fr, sink):
            pos = [a.value if isinstance(a, ast.Starred) else a for a in node.args]
            kws = [k.value for k in node.keywords]
            combos = self.ev_many(pos + kws, s, fr, sink)
            for i, a in enumerate(node.args):
                if isinstance(a, ast.Starred) and self.while_turns:
                    combos = [c for s1, vs in combos for c in self.spread(s1, vs, i, fr, node, sink)]
            for s1, vs in combos:
                args = []
                kwargs = {}
                for a, v in zip(node.args, vs):
                    if isinstance(a, ast.Starred):
                        o = s1.get(v[1]) if v[0] == "ref" else None
                        if v[0] == "tuple":
                            args.extend(v[1])
                        elif o is not None and o.kind == "list" and all(p[0] == "one" for p in o.d):
                            args.extend(p[1] for p in o.d)
                        else:
                            args.append(("star", v))
                    else:
                        args.append(v)
                for k, v in zip(node.keywords, vs[len(node.args):]):
                    if k.arg is not None:
                        kwargs[k.arg] = v
                        continue
                    o = s1.get(v[1]) if v[0] == "ref" else None
                    if o is not None and o.kind == "dict":
                        for kk, vv in o.d.items():
                            if kk[0] == "c":
                                kwargs[kk[2]] = vv
                        if o.x[1] is not None or o.x[2]:
                            kwargs["**"] = o.x[1] if o.x[1] is not None and not o.x[2] else self.freeze(s1, v)
                    else:
                        kwargs["**"] = self.freeze(s1, v)
                out.extend(self.apply(s1, f, tuple(args), kwargs, fr, node, sink))
        return out


Exprs._edispatch = {
    ast.Constant: Exprs.e_const, ast.Name: Exprs.e_name, ast.Attribute: Exprs.e_attr, ast.Subscript: Exprs.e_sub,
    ast.BinOp: Exprs.e_binop, ast.UnaryOp: Exprs.e_unary, ast.BoolOp: Exprs.e_bool, ast.Compare: Exprs.e_compare,
    ast.IfExp: Exprs.e_ifexp, ast.JoinedStr: Exprs.e_joined, ast.Tuple: Exprs.e_tuple, ast.List: Exprs.e_list,
    ast.Set: Exprs.e_set, ast.Dict: Exprs.e_dict, ast.ListComp: Exprs.e_listcomp, ast.SetComp: Exprs.e_setcomp,
    ast.DictComp: Exprs.e_dictcomp, ast.GeneratorExp: Exprs.e_genexp, ast.Lambda: Exprs.e_lambda,
    ast.NamedExpr: Exprs.e_named, ast.Yield: Exprs.e_yield, ast.YieldFrom: Exprs.e_yieldfrom,
    ast.Starred: Exprs.e_starred, ast.Await: Exprs.e_await, ast.Call: Exprs.e_call,
}
