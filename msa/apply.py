"""Calls: package functions are followed, everything else is opaque (with events)."""
import ast

from .terms import *
from .state import Obj, Ev, State, merge
from .program import AnalysisError
from .ops import DATED, STR_METHODS, PURE_METHODS, BUILTIN_PURE, PURE_MODULES, IMPURE_EXACT, NORAISE, is_nat
from .stmts import Fr

PURE_RAISE = {"builtins.int", "builtins.float", "builtins.next", "builtins.min", "builtins.max", "builtins.sum"}
RAISING_METHODS = {"decode", "index", "strftime", "encode"}
PURE_ATTRS = {"node", "getpid"}
LOG_BASES = ("orso.logging", "logging.", "mabel.logging")
LOCK_TYPES = ("threading.Lock", "threading.RLock", "multiprocessing.Lock", "multiprocessing.RLock",
              "threading.Condition", "threading.Semaphore", "threading.BoundedSemaphore")


class Apply:
    # ------------------------------------------------------------------ dispatch
    def apply(self, st, f, args, kw, fr, node, sink):
        if self.on_call is not None:
            r = self.on_call(self, st, f, args, kw, fr, node)
            if r is not None:
                out = []
                for s, k, v in r:
                    if k == "v":
                        out.append((s, v))
                    else:
                        sink.append((s, "raise", v))
                return out
        k = f[0]
        if k == "fn":
            return self.call_fn(st, f, args, kw, fr, node, sink)
        if k == "bm":
            return self.apply(st, f[1], (f[2],) + tuple(args), kw, fr, node, sink)
        if k == "cls":
            return self.instantiate(st, f, args, kw, fr, node, sink)
        if k == "partial":
            kk = dict(f[3])
            kk.update(kw)
            return self.apply(st, f[1], tuple(f[2]) + tuple(args), kk, fr, node, sink)
        if k == "attr":
            b, name = f[1], f[2]
            if b[0] == "ref":
                o = st.get(b[1])
                if o is not None:
                    if o.kind in ("list", "set", "buf"):
                        return self.list_method(st, b, o, name, args, kw, fr, node, sink)
                    if o.kind == "dict":
                        return self.dict_method(st, b, name, args, kw, fr, node, sink)
                    if o.kind in ("gen", "lazy") and name == "__next__":
                        return self.b_next(st, (b,), {}, fr, node, sink)
            if b[0] in ("c", "cat") or name in ("join", "format"):
                r = self.str_method(st, b, name, args, kw, fr, node, sink)
                if r is not None:
                    return r
            if name == "get" and args and b[0] != "ref":
                xo = st.over.get(("xattr", self.freeze(st, b)))
                i = ("item", self.freeze(st, args[0]))
                if xo is not None and i in xo.d:
                    return [(st, xo.d[i])]
            if name in ("acquire", "release"):
                fb = self.freeze(st, b)
                s = self.emit(st, name, "lock", fb, args, kw, NONE, fr, node)
                if name == "acquire":
                    s = s.with_(locks=s.locks + (fb,))
                else:
                    lk = list(s.locks)
                    if fb in lk:
                        lk.reverse()
                        lk.remove(fb)
                        lk.reverse()
                    s = s.with_(locks=tuple(lk))
                return [(s, TRUE)]
            if name == "copy" and not args and self.kind_of(st, b) is None and b[0] != "ref":
                return [(st, ("call", ("attr", self.freeze(st, b), "copy"), (), (), None))]
            return self.opaque_call(st, f, args, kw, fr, node, sink)
        if k == "ext":
            m = self.BUILTINS.get(f[1])
            if m is not None:
                r = m(self, st, args, kw, fr, node, sink)
                if r is not None:
                    return r
            return self.opaque_call(st, f, args, kw, fr, node, sink)
        if k == "call":
            # known higher-order library values
            if f[1] == ("ext", "functools.wraps") and args:
                return [(st, args[0])]
            if f[1] == ("ext", "functools.lru_cache") and args:
                return [(st, self.mark_cached(args[0], dict(f[3])))]
            if f[1] == ("ext", "operator.itemgetter") and len(args) == 1:
                if len(f[2]) == 1:
                    return self.getitem(st, args[0], f[2][0], fr, node, sink)
                cur = [(st, ())]
                for i in f[2]:
                    cur = [(s2, vs + (v,)) for s1, vs in cur for s2, v in self.getitem(s1, args[0], i, fr, node, sink)]
                return [(s, ("tuple", vs)) for s, vs in cur]
            if f[1] == ("ext", "operator.attrgetter") and len(args) == 1 and len(f[2]) == 1 and f[2][0][0] == "c":
                return self.getattr(st, args[0], f[2][0][2], fr, node, sink)
        if k == "ref":
            o = st.get(f[1])
            if o is not None and o.kind == "inst" and self.find_method(st, o.cls, "__call__"):
                return self.call_method(st, f, "__call__", args, kw, fr, node, sink)
        return self.opaque_call(st, f, args, kw, fr, node, sink)

    def call_method(self, st, recv, name, args, kw, fr, node, sink):
        out = []
        for s, m in self.getattr(st, recv, name, fr, node, sink):
            out.extend(self.apply(s, m, tuple(args), kw, fr, node, sink))
        return out

    # ------------------------------------------------------------------ opaque calls
    def is_pure(self, f):
        k = f[0]
        if k == "ext":
            n = f[1]
            if n in IMPURE_EXACT or n.startswith("itertools.count"):
                return False
            if n.startswith("builtins."):
                return n[9:] in BUILTIN_PURE or n[9:].endswith("Error")
            if n.startswith("#"):
                return True
            if n in self.extra_pure:
                return True
            if "get_logger" in n or n.startswith("logging.getLogger"):
                return True
            return n.startswith(PURE_MODULES) and not n.startswith(("pathlib.Path.", "random"))
        if k == "attr":
            if f[1][0] == "ext":
                return self.is_pure(("ext", f[1][1] + "." + f[2]))
            if f[1][0] == "call" and f[1][1][0] == "ext" and f[1][1][1] == "pathlib.Path":
                return f[2] in ("as_posix", "with_suffix", "joinpath", "relative_to")
            return f[2] in PURE_METHODS or f[2] in PURE_ATTRS
        if k == "call":
            return self.is_pure(f[1]) and f[1][0] == "ext" and f[1][1].startswith(("operator.", "functools.", "re."))
        return False

    def is_log(self, f):
        if f[0] == "ext" and f[1].endswith(("get_logger", "getLogger")):
            return False
        while f[0] == "attr":
            f = f[1]
        if f[0] == "call":
            f = f[1]
        return f[0] == "ext" and f[1].startswith(LOG_BASES)

    def opaque_call(self, st, f, args, kw, fr, node, sink, name=None):
        cur = [(st, ())]
        for a in args:
            if a[0] == "star":
                cur = [(s, vs + (("star", self.freeze(s, a[1])),)) for s, vs in cur]
            else:
                cur = [(s2, vs + (v2,)) for s1, vs in cur for s2, v2 in self.fz_arg(s1, a, fr, node, sink)]
        out = []
        for s, fa in cur:
            kws = tuple(sorted((k, self.freeze(s, v)) for k, v in kw.items()))
            ff = self.freeze_callee(s, f)
            nm = name or self.callee_name(f)
            if self.is_log(ff):
                if self.keep_log:
                    s = self.emit(s, "log", nm, None, fa, dict(kws), NONE, fr, node)
                out.append((s, NONE))
                continue
            pure = self.is_pure(ff)
            raises = self.raisers is not None and self.raisers(nm, ff)
            if pure:
                res = ("call", ff, fa, kws, None)
                can = (ff[0] == "ext" and (not ff[1].startswith("builtins.") or ff[1] in PURE_RAISE)
                       and not ff[1].startswith(("os.path", "#", "re.", "functools", "operator", "typing", "orso.logging", "logging"))) or (
                    ff[0] == "attr" and ff[2] in RAISING_METHODS)
                if (fr.in_try and can) or raises:
                    sink.append((s, "raise", ("exc", raises if isinstance(raises, str) else None, (("call", ff, fa, kws, None),))))
                out.append((s, res))
                continue
            res = ("call", ff, fa, kws, self.site(node, fr))
            can = not (ff[0] == "ext" and ff[1].startswith("builtins.") and ff[1][9:] in NORAISE) and nm not in self.noraise
            recv = self.callee_recv(f)
            if recv is not None:
                recv = self.freeze(s, recv)
            if (fr.in_try and can) or raises:
                x = ("exc", raises if isinstance(raises, str) else None, (res,))
                sx = self.emit(s, "callx", nm, recv, fa, dict(kws), x, fr, node)
                sink.append((sx, "raise", x))
            s2 = self.emit(s, "call", nm, recv, fa, dict(kws), res, fr, node)
            s2 = self.havoc_args(s2, f, args, kw)
            out.append((s2, res))
        return out

    def havoc_args(self, st, f, args, kw):
        return st

    def freeze_callee(self, st, f):
        if f[0] == "attr":
            return ("attr", self.freeze(st, f[1]), f[2])
        return self.freeze(st, f)

    # ------------------------------------------------------------------ package functions
    def mark_cached(self, fn, kw):
        if fn[0] == "fn":
            fi = self.prog.funcs[fn[3]]
            fi.cached = True
            fi.memo_typed = kw.get("typed") == TRUE
        return fn

    def call_fn(self, st, fn, args, kw, fr, node, sink):
        fi = self.prog.funcs[fn[3]]
        if fi.qual in self.stop or fi.qual.split(".")[-1] in self.stop:
            return self.opaque_call(st, fn, args, kw, fr, node, sink)
        if fr.stack.count(fi.fid) >= self.recursion or len(fr.stack) > 30:
            return self.opaque_call(st, fn, args, kw, fr, node, sink)
        mod = fi.module
        ctx = fr.ctx + ((fr.mod.rel if fr.mod else "", getattr(node, "lineno", 0), getattr(node, "col_offset", 0)),)
        oid0 = ("frame:" + fi.qual, self.ctx_id(ctx))
        st, fref = st.new(oid0, Obj("frame", None, {}, (fn[2], fi.qual, False)))
        oid = fref[1]
        f2 = Fr(fi, oid, cls=fi.cls, selfv=args[0] if args and fi.cls else None, in_try=fr.in_try,
                stack=fr.stack + (fi.fid,), ctx=ctx, mod=mod)
        states = self.bind_args(st, fi, oid, fn, args, kw, f2, node, sink)
        out = []
        for s in states:
            if fi.is_gen:
                s, g = s.new(("gen:" + fi.qual, self.ctx_id(ctx)), Obj("gen", fi.fid, {"frame": oid, "fr": f2}, "new"))
                out.append((s, g))
                continue
            if self.trace_calls:
                s = self.emit(s, "enterfn", fi.qual, None, (), {}, NONE, fr, node)
            outs = self.block(fi.body, s, f2)
            res = []
            for s1, k, v in outs:
                if not self._captured(s1, oid):
                    s1 = s1.drop(oid)
                if k == "n":
                    res.append((s1, "v", NONE))
                elif k == "ret":
                    res.append((s1, "v", v))
                else:
                    res.append((s1, k, v))
            res = merge(res)
            if len(res) > self.ret_max:
                res = self.collapse(res, s, fn, args, kw, f2, oid, node)
            for s1, k, v in res:
                if k == "v":
                    out.append((s1, v))
                else:
                    sink.append((s1, k, v))
        return out

    def collapse(self, res, start, fn, args, kw, fr, oid, node):
        """an effect-free helper with many internal paths is summarised as an opaque pure result"""
        over0 = {k: v for k, v in start.over.items() if k != oid}
        vs = [r for r in res if r[1] == "v"]
        quiet = [r for r in res if r[0].trace == start.trace and r[0].over == over0]
        if len(quiet) == len(res) and all(v[0] != "ref" for _, k, v in vs):
            self.collapsed[fn[1]] = len(res)
            s1 = start.drop(oid)
            nf = dict(start.facts)
            t = ("call", ("fn", fn[1], "-", fn[3]), tuple(self.freeze(start, a) for a in args),
                 tuple(sorted((k, self.freeze(start, v)) for k, v in kw.items())), None)
            out = []
            if vs:
                v0 = vs[0][2]
                out.append((s1, "v", v0 if all(v == v0 for _, _, v in vs) else t))
            seen = set()
            for _, k, x in res:
                if k == "raise" and x[1] not in seen:
                    seen.add(x[1])
                    out.append((s1, k, x))
                elif k not in ("v", "raise"):
                    out.append((s1, k, x))
            return out
        return self.squeeze(res, fr, ("ret", fn[1]) + self.site(node, fr))

    def bind_args(self, st, fi, oid, fn, args, kw, fr, node, sink):
        a = fi.node.args
        pos = [p.arg for p in a.posonlyargs + a.args]
        kwonly = [p.arg for p in a.kwonlyargs]
        kw = dict(kw)
        d = {}
        i = 0
        extra = []
        opaque_star = None
        for x in args:
            if x[0] == "star":
                opaque_star = self.freeze(st, x[1])
                continue
            if opaque_star is not None:
                extra.append(("one", x))
                continue
            if i < len(pos):
                d[pos[i]] = x
                i += 1
            else:
                extra.append(("one", x))
        open_kw = kw.pop("**", None)
        for n in pos + kwonly:
            if n in kw and n not in d:
                d[n] = kw.pop(n)
        if opaque_star is not None:
            j = 0
            for n in pos[i:]:
                if n not in d:
                    d[n] = ("item", opaque_star, C(j))
                    j += 1
        # defaults
        missing = []
        nd = len(a.defaults)
        dmap = dict(zip(pos[len(pos) - nd:], a.defaults)) if nd else {}
        for n, dv in zip(kwonly, a.kw_defaults):
            if dv is not None:
                dmap[n] = dv
        cur = [st]
        dfr = Fr(None, fn[2], in_try=False, stack=fr.stack, ctx=fr.ctx, mod=fi.module)
        for n in pos + kwonly:
            if n in d:
                continue
            if n in dmap:
                vals = self.ev(dmap[n], cur[0], dfr, sink)
                dv = vals[0][1] if vals else NONE
                if vals:
                    cur = [vals[0][0]]
                if open_kw is not None:
                    d[n] = ("get", open_kw, C(n), self.freeze(cur[0], dv))
                else:
                    d[n] = dv
            elif open_kw is not None:
                d[n] = ("item", open_kw, C(n))
            elif n == "self" or True:
                d[n] = ("opq", "missing-arg", n)
        st = cur[0]
        if a.vararg:
            if opaque_star is None and not extra:
                d[a.vararg.arg] = ("tuple", ())
            elif opaque_star is None:
                d[a.vararg.arg] = ("tuple", tuple(x[1] for x in extra))
            else:
                d[a.vararg.arg] = ("list", "tuple", (("star", opaque_star),) + tuple(extra), ())
        if a.kwarg:
            items = {C(k): v for k, v in kw.items()}
            src = None
            if open_kw is not None:
                src = open_kw
                taken = [n for n in pos + kwonly if n != "self"]
                if taken:
                    src = ("call", ("ext", "#without"), (open_kw,) + tuple(C(n) for n in taken), (), None)
            st, ref = self.new_dict(st, ("kwargs:" + fi.qual, oid[1] if len(oid) > 1 else ""), items, src)
            d[a.kwarg.arg] = ref
        o = st.get(oid)
        return [st.put(oid, o._replace(d=d))]

    def is_ctxmanager(self, fid):
        return fid in self.ctxmgrs

    def run_gen(self, st, g, fr, cb, node, sink):
        o = st.get(g[1])
        fi = self.prog.funcs[o.cls]
        if o.x == "done":
            return [(st, "n", None)]
        if o.x == "started":
            # resumed part-way: unknown remaining elements
            return self.iterate_parts(st, [("star", ("opq", "resumed", g[1]))], self.site(node, fr) + ("resumed",), fr,
                                      lambda s, e: [((x[0], "n", None) if x[1] == "resume" else (x[0], x[1], x[2])) for x in cb(s, e)], node)
        f2 = o.d["fr"].sub(on_yield=cb, in_try=fr.in_try or o.d["fr"].in_try)
        if fr.stack.count(fi.fid) >= 1:
            return self.iterate_parts(st, [("star", ("opq", "recursive-gen", fi.qual, self.site(node, fr)))], self.site(node, fr) + ("recgen",), fr,
                                      lambda s, e: [((x[0], "n", None) if x[1] == "resume" else (x[0], x[1], x[2])) for x in cb(s, e)], node)
        f2.stack = fr.stack + (fi.fid,)
        s = st.put(g[1], o._replace(x="started"))
        res = []
        for s1, k, v in self.block(fi.body, s, f2):
            if k in ("n", "ret"):
                oo = s1.get(g[1])
                if oo is not None:
                    s1 = s1.put(g[1], oo._replace(x="done"))
                res.append((s1, "n", None))
            elif k in ("raise", "gx"):
                res.append((s1, k, v))
        return merge(res)

    # ------------------------------------------------------------------ classes
    def instantiate(self, st, f, args, kw, fr, node, sink):
        qual = f[1]
        if qual in self.stop or qual.split(".")[-1] in self.stop:
            return self.opaque_call(st, f, args, kw, fr, node, sink)
        if self.is_exc_class(st, qual):
            return [(st, ("exc", qual, tuple(self.freeze(st, a) for a in args)))]
        if self.is_enum(st, qual):
            return [(st, ("call", f, tuple(self.freeze(st, a) for a in args), (), None))]
        st, ref = st.new(self.site(node, fr) + (qual,), Obj("inst", qual, {}, None))
        init, q = self.class_attr(st, qual, "__init__")
        if init is not None and init[0] == "fn":
            out = []
            for s, _ in self.call_fn(st, init, (ref,) + tuple(args), kw, fr, node, sink):
                out.append((s, ref))
            return out
        # dataclass-like
        ci = self.prog.classes.get(qual)
        d = {}
        if ci is not None and any("dataclass" in ast.dump(x) for x in ci.node.decorator_list):
            fields = [n.target.id for n in ci.node.body if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name)]
            for n, v in zip(fields, args):
                d[n] = v
            for k, v in kw.items():
                d[k] = v
        if self.opaque_base(st, qual):
            s = self.emit(st, "call", qual, None, tuple(self.freeze(st, a) for a in args),
                          {k: self.freeze(st, v) for k, v in kw.items()}, ref, fr, node)
            return [(s, ref)]
        return [(st.put(ref[1], Obj("inst", qual, d, None)), ref)]

    # ------------------------------------------------------------------ string methods
    def str_method(self, st, b, name, args, kw, fr, node, sink):
        if b[0] == "c" and b[1] in ("str", "bytes") and all(a[0] == "c" for a in args) and not kw and name in STR_METHODS | {"join"}:
            try:
                r = getattr(b[2], name)(*[a[2] for a in args])
            except Exception:
                return None
            if isinstance(r, list):
                s, l = self.new_list(st, self.site(node, fr), "list", [("one", C(x)) for x in r])
                return [(s, l)]
            if isinstance(r, tuple):
                return [(st, ("tuple", tuple(C(x) for x in r)))]
            return [(st, C(r))]
        if name == "join" and len(args) == 1:
            out = []
            for s, l in self.materialise(st, args[0], "list", fr, node, sink, "join"):
                o = s.get(l[1])
                s = s.drop(l[1])
                if b[0] == "c" and b[1] == "bytes" and all(p[0] == "one" and p[1][0] == "c" and isinstance(p[1][2], bytes) for p in o.d) and not o.x[1]:
                    out.append((s, C(b[2].join([p[1][2] for p in o.d]))))
                elif all(p[0] == "one" for p in o.d) and self.kind_of(s, b) != "bytes":
                    parts = []
                    for i, p in enumerate(o.d):
                        if i:
                            parts.append(self.freeze(s, b))
                        parts.append(self.strpart(s, p[1]))
                    out.append((s, cat(parts)))
                else:
                    parts = tuple((p[0], self.freeze(s, p[1])) + p[2:] if p[0] in ("one", "star", "rep") else p for p in o.d)
                    parts = tuple(p[:3] + (frozenset(),) + p[4:] if p[0] == "rep" else p for p in parts)
                    out.append((s, ("call", ("attr", self.freeze(s, b), "join"), (("list", "list", parts, o.x[1]),), (), None)))
            return out
        if name == "format" and b[0] == "c" and b[1] == "str":
            import string
            try:
                segs = list(string.Formatter().parse(b[2]))
            except ValueError:
                return None
            parts, n = [], 0
            for lit, field, spec, conv in segs:
                if lit:
                    parts.append(C(lit))
                if field is None:
                    continue
                if spec or conv:
                    return None
                if field == "":
                    v = args[n] if n < len(args) else None
                    n += 1
                elif field.isdigit():
                    v = args[int(field)] if int(field) < len(args) else None
                else:
                    v = kw.get(field)
                if v is None or v[0] == "star":
                    return None
                parts.append(self.strpart(st, v))
            return [(st, cat(parts))]
        return None

    # ------------------------------------------------------------------ builtins
    def b_len(self, st, a, kw, fr, node, sink):
        v = a[0]
        if v[0] == "ref":
            o = st.get(v[1])
            if o is not None:
                if o.kind in ("list", "set", "buf") and all(p[0] == "one" for p in o.d) and o.kind == "list":
                    return [(st, C(len(o.d)))]
                if o.kind in ("list", "set", "buf") and not o.d:
                    return [(st, C(0))]
                if o.kind == "dict" and o.x[1] is None and not o.x[2] and all(k[0] in ("c", "enum") for k in o.d):
                    return [(st, C(len(o.d)))]
                if o.kind == "inst" and self.find_method(st, o.cls, "__len__"):
                    return self.call_method(st, v, "__len__", (), {}, fr, node, sink)
        if v[0] == "tuple":
            return [(st, C(len(v[1])))]
        if v[0] == "c" and hasattr(v[2], "__len__"):
            return [(st, C(len(v[2])))]
        return [(st, ("call", ("ext", "builtins.len"), (self.freeze(st, v),), (), None))]

    def b_str(self, st, a, kw, fr, node, sink):
        if len(a) != 1 or kw:
            return None if a else [(st, C(""))]
        v = a[0]
        if v[0] == "c":
            return [(st, C(str(v[2])))]
        if self.kind_of(st, v) == "str":
            return [(st, v)]
        return [(st, ("call", ("ext", "builtins.str"), (self.freeze(st, v),), (), None))]

    def b_num(self, name):
        pass

    def b_int(self, st, a, kw, fr, node, sink):
        if len(a) == 1 and a[0][0] == "c":
            try:
                return [(st, C(int(a[0][2])))]
            except (TypeError, ValueError):
                sink.append((st, "raise", ("exc", "builtins.ValueError", ())))
                return []
        if not a:
            return [(st, C(0))]
        return None

    def b_bool(self, st, a, kw, fr, node, sink):
        if not a:
            return [(st, FALSE)]
        return [(s, C(b)) for s, b in self.truth(st, a[0], fr, sink, node)]

    def _mk(kind):
        def f(self, st, a, kw, fr, node, sink):
            if not a:
                s, r = self.new_list(st, self.site(node, fr), kind)
                return [(s, r)]
            if a[0][0] == "c" and a[0][1] == "int":
                return None
            return self.materialise(st, a[0], kind, fr, node, sink)
        return f
    b_list = _mk("list")
    b_set = _mk("set")

    def b_bytearray(self, st, a, kw, fr, node, sink):
        if not a or a[0] in (C(b""), C(0)):
            s, r = self.new_list(st, self.site(node, fr), "buf")
            return [(s, r)]
        return self.materialise(st, a[0], "buf", fr, node, sink)

    def b_bytes(self, st, a, kw, fr, node, sink):
        if not a:
            return [(st, C(b""))]
        if a[0][0] == "ref" and st.get(a[0][1]).kind == "buf":
            d = st.get(a[0][1]).d
            if d and all(p[0] == "star" and p[1][0] == "c" and isinstance(p[1][2], bytes) for p in d):
                return [(st, C(b"".join(p[1][2] for p in d)))]
            return [(st, self.freeze(st, a[0]))]
        if self.kind_of(st, a[0]) == "bytes":
            return [(st, a[0])]
        return None

    def b_tuple(self, st, a, kw, fr, node, sink):
        if not a:
            return [(st, ("tuple", ()))]
        if a[0][0] == "tuple":
            return [(st, a[0])]
        out = []
        for s, l in self.materialise(st, a[0], "list", fr, node, sink, "tup"):
            o = s.get(l[1])
            if all(p[0] == "one" for p in o.d):
                out.append((s.drop(l[1]), ("tuple", tuple(p[1] for p in o.d))))
            else:
                fz = self.freeze(s, l)
                out.append((s.drop(l[1]), ("list", "tuple", fz[2], fz[3])))
        return out

    def b_sorted(self, st, a, kw, fr, node, sink):
        out = []
        for s, l in self.materialise(st, a[0], "list", fr, node, sink, "sorted"):
            out.append((self.set_sorted(s, l, kw), l))
        return out

    def b_reversed(self, st, a, kw, fr, node, sink):
        out = []
        for s, l in self.materialise(st, a[0], "list", fr, node, sink, "rev"):
            o = s.get(l[1])
            out.append((s.put(l[1], o._replace(d=o.d[::-1], x=(o.x[0], tuple(o.x[1]) + (("reversed",),)))), l))
        return out

    def b_dict(self, st, a, kw, fr, node, sink):
        s, r = self.new_dict(st, self.site(node, fr))
        out = []
        kk = {k: v for k, v in kw.items() if k != "**"}
        args = tuple(a)
        if "**" in kw:
            args = args + (kw["**"],)
        for s1, _ in self.dict_method(s, r, "update", args, kk, fr, node, sink, quiet=True):
            out.append((s1, r))
        return out

    def b_fromkeys(self, st, a, kw, fr, node, sink):
        """keys known one by one"""
        x = a[0]
        o = st.get(x[1]) if x[0] == "ref" else None
        parts = x[1] if x[0] == "tuple" else None
        if x[0] == "list" or o is not None and o.kind in ("list", "set"):
            ps = x[2] if x[0] == "list" else o.d
            parts = [p[1] for p in ps] if all(p[0] == "one" for p in ps) else None
        if parts is None:
            return None
        s, r = self.new_dict(st, self.site(node, fr))
        for t in parts:
            s = self.dict_put(s, r, self.freeze(s, t), a[1] if len(a) > 1 else NONE)
        return [(s, r)]

    def b_defaultdict(self, st, a, kw, fr, node, sink):
        s, r = self.new_dict(st, self.site(node, fr), {}, None)
        self._defaults[r[1]] = a[0] if a else NONE
        o = s.get(r[1])
        s = s.put(r[1], o._replace(x=(o.x[0], ("opq", "default", self.site(node, fr)), ())))
        return [(s, r)]

    def b_isinstance(self, st, a, kw, fr, node, sink):
        x, ty = a
        x2 = self.freeze(st, x) if x[0] not in ("ref",) else x
        if ty[0] == "ref":
            ty = self.freeze(st, ty)
            if ty[0] == "list":
                ty = ("tuple", tuple(p[1] for p in ty[2]))
        if ty[0] == "bin" and ty[1] == "|":
            flat = []

            def fl(t):
                if t[0] == "bin" and t[1] == "|":
                    fl(t[2])
                    fl(t[3])
                else:
                    flat.append(t)
            fl(ty)
            ty = ("tuple", tuple(flat))
        if ty[0] != "tuple":
            r = self.isinst(st, x2, ty)
            if r is not None:
                return [(st, C(r))]
        return [(st, ("call", ("ext", "builtins.isinstance"), (x2, ty), (), None))]

    def b_hasattr(self, st, a, kw, fr, node, sink):
        x, n = a
        if n[0] == "c":
            if x[0] == "ref":
                o = st.get(x[1])
                if o is not None and o.kind == "inst":
                    if n[2] in o.d or self.class_attr(st, o.cls, n[2])[0] is not None:
                        return [(st, TRUE)]
                    if not self.opaque_base(st, o.cls) and not self.is_havoc(o):
                        return [(st, FALSE)]
                elif o is not None:
                    py = {"list": list, "set": set, "buf": bytearray, "dict": dict}.get(o.kind)
                    if py is not None:
                        return [(st, C(hasattr(py, n[2])))]
            if x[0] == "ref" and st.get(x[1]) is not None and st.get(x[1]).kind in ("gen", "lazy"):
                return [(st, C(n[2] in ("__iter__", "__next__") or n[2] == "send" and st.get(x[1]).kind == "gen"))]
            if x[0] == "sym" and x[2] in ("list", "dict", "set", "tuple", "str", "bytes"):
                return [(st, C(hasattr({"list": list, "dict": dict, "set": set, "tuple": tuple, "str": str, "bytes": bytes}[x[2]], n[2])))]
            if x[0] in ("tuple", "list"):
                return [(st, C(hasattr(list, n[2]) if x[0] == "list" else hasattr(tuple, n[2])))]
            if x[0] == "c":
                return [(st, C(hasattr(x[2], n[2])))]
            if x[0] in ("fn", "bm", "partial"):
                return [(st, C(n[2] == "__call__" or n[2].startswith("__")))]
        return [(st, ("call", ("ext", "builtins.hasattr"), (self.freeze(st, x), n), (), None))]

    def is_havoc(self, o):
        return False

    def b_getattr(self, st, a, kw, fr, node, sink):
        if a[1][0] == "c":
            if len(a) == 2:
                return self.getattr(st, a[0], a[1][2], fr, node, sink)
            x, n = a[0], a[1][2]
            if x[0] == "mod":
                v = self.mod_attr(st, x[1], n)
                return [(st, v if v is not None else a[2])]
            h = self.b_hasattr(st, (x, a[1]), {}, fr, node, sink)[0][1]
            if h == TRUE:
                return self.getattr(st, x, n, fr, node, sink)
            if h == FALSE:
                return [(st, a[2])]
            out = []
            h = ("call", ("ext", "builtins.hasattr"), (self.freeze(st, x), a[1]), (), None)
            for s, b in self._split_term(st, h):
                out.append((s, ("attr", self.freeze(s, x), n) if b else a[2]))
            return out
        return None

    def b_setattr(self, st, a, kw, fr, node, sink):
        if a[1][0] == "c":
            return [(self.setattr(st, a[0], a[1][2], a[2], fr, node), NONE)]
        return None

    def b_type(self, st, a, kw, fr, node, sink):
        if len(a) != 1:
            return None
        v = a[0]
        if v[0] == "ref":
            o = st.get(v[1])
            if o is not None and o.kind == "inst":
                return [(st, ("cls", o.cls))]
        if v[0] == "enum":
            return [(st, ("cls", v[1]))]
        k = self.kind_of(st, v)
        if k in ("str", "int", "float", "bytes", "bool", "list", "dict", "set", "tuple", "bytearray"):
            return [(st, ("ext", "builtins." + k))]
        if v[0] == "c" and k in ("NoneType", "complex"):
            return [(st, ("ext", "builtins." + k))]
        if v[0] == "c" and k in DATED:
            return [(st, ("ext", "datetime." + k))]
        return None

    def _quant(self, st, a, fr, node, sink, stop_on):
        v = a[0]

        def body(s, e):
            sk = []
            res = []
            for s2, b in self.truth(s, e, fr, sk, node):
                res.append((s2, "brk", None) if b == stop_on else (s2, "cont", None))
            return res + sk
        out = []
        base = len(st.trace)
        for s, k, x in self.iterate(st, v, self.site(node, fr), fr, body, node):
            delta = s.trace[base:]
            if all(e.kind in ("iter", "enditer") for e in delta):
                s = s.with_(trace=s.trace[:base])
            if k == "brk":
                out.append((s, C(stop_on)))
            elif k == "n":
                out.append((s, C(not stop_on)))
            else:
                sink.append((s, k, x))
        m = merge([(s, "v", v) for s, v in out])
        return [(s, v) for s, _, v in m]

    def b_any(self, st, a, kw, fr, node, sink):
        return self._quant(st, a, fr, node, sink, True)

    def b_all(self, st, a, kw, fr, node, sink):
        return self._quant(st, a, fr, node, sink, False)

    def b_next(self, st, a, kw, fr, node, sink):
        v = a[0]
        o = st.get(v[1]) if v[0] == "ref" else None
        if o is not None and o.kind == "lazy" and o.cls == "chain" and len(o.d["args"]) == 1 and o.d["args"][0][0] == "ref":
            held = st.get(o.d["args"][0][1])
            if held is not None and held.kind == "list" and all(p[0] == "one" for p in held.d):
                # an iterator over known elements moves on
                if not held.d:
                    if len(a) > 1:
                        return [(st, a[1])]
                    sink.append((st, "raise", ("exc", "builtins.StopIteration", ())))
                    return []
                s, r = st.new(self.site(node, fr) + ("rest", len(held.d)), held._replace(d=held.d[1:]))
                return [(s.put(v[1], o._replace(d={"args": (r,)})), held.d[0][1])]
        if o is not None and o.kind in ("gen", "lazy", "list"):
            out = []
            box = "#next"

            def body(s, e):
                s, _ = (s.put(("nextbox",), Obj("xattr", None, {"v": e}, None)), 0)
                return [(s, "brk", None)]
            base = len(st.trace)
            for s, k, x in self.iterate(st, v, self.site(node, fr), fr, body, node):
                delta = s.trace[base:]
                if all(e.kind in ("iter", "enditer") for e in delta):
                    s = s.with_(trace=s.trace[:base])
                if k == "brk":
                    val = s.get(("nextbox",)).d["v"]
                    out.append((s.drop(("nextbox",)), val))
                elif k == "n":
                    if len(a) > 1:
                        out.append((s, a[1]))
                    else:
                        sink.append((s, "raise", ("exc", "builtins.StopIteration", ())))
                else:
                    sink.append((s, k, x))
            return out
        if o is not None and o.kind == "inst" and self.find_method(st, o.cls, "__next__"):
            return self.call_method(st, v, "__next__", (), {}, fr, node, sink)
        fz = self.freeze(st, v)
        s = self.emit(st, "call", "builtins.next", fz, (fz,), {}, NONE, fr, node)
        res = ("call", ("ext", "#next"), (fz,), (), self.site(node, fr))
        out = []
        done = ("truth", ("opq", "exhausted", fz, self.site(node, fr)))
        for s2, b in self._split_term(s, done):
            if not b:
                out.append((s2, res))
            elif len(a) > 1:
                out.append((s2, a[1]))
            else:
                sink.append((s2, "raise", ("exc", "builtins.StopIteration", ())))
        return out

    def b_iter(self, st, a, kw, fr, node, sink):
        v = a[0]
        if len(a) == 2:
            return None
        if v[0] == "ref":
            o = st.get(v[1])
            if o is not None and o.kind == "inst" and self.find_method(st, o.cls, "__iter__"):
                return self.call_method(st, v, "__iter__", (), {}, fr, node, sink)
            if o is not None and o.kind in ("list", "set", "dict"):
                s, r = st.new(self.site(node, fr), Obj("lazy", "chain", {"args": (v,)}, None))
                return [(s, r)]
            return [(st, v)]
        return [(st, v)]

    def _lazy(kind):
        def f(self, st, a, kw, fr, node, sink):
            if kind == "enumerate" and "start" in kw:
                a = tuple(a) + (kw["start"],)
            if any(x[0] == "star" for x in a) and kind != "chain":
                return None
            s, r = st.new(self.site(node, fr) + (kind,), Obj("lazy", kind, {"args": tuple(a)}, None))
            return [(s, r)]
        return f
    b_map, b_filter, b_enum, b_zip, b_chain = _lazy("map"), _lazy("filter"), _lazy("enumerate"), _lazy("zip"), _lazy("chain")

    def b_flat(self, st, a, kw, fr, node, sink):
        if len(a) != 1 or a[0][0] == "star":
            return None
        s, r = st.new(self.site(node, fr) + ("chain",), Obj("lazy", "chain", {"args": (("star", a[0]),)}, None))
        return [(s, r)]
    b_takewhile, b_filterfalse = _lazy("takewhile"), _lazy("filterfalse")

    def b_super(self, st, a, kw, fr, node, sink):
        if len(a) == 2 and a[0][0] == "cls":
            return [(st, ("super", a[0][1], a[1]))]
        oid = fr.oid
        fi = fr.fi
        f = fr
        if fr.cls and fi and fi.params:
            o = st.get(oid)
            while o is not None and o.x and o.x[1] == "<comp>":
                o = st.get(o.x[0])
            return [(st, ("super", fr.cls, o.d.get(fi.params[0], NONE)))]
        return None

    def b_partial(self, st, a, kw, fr, node, sink):
        return [(st, ("partial", a[0], tuple(a[1:]), tuple(sorted(kw.items()))))]

    def b_reduce(self, st, a, kw, fr, node, sink):
        """left fold: acc = f(acc, element)"""
        f, it = a[0], a[1]
        oid0 = ("fold",) + self.site(node, fr)
        init = a[2] if len(a) > 2 else ("item", self.freeze(st, it), C(0)) if it[0] != "ref" or st.get(it[1]).kind not in ("lazy", "gen") else ("opq", "first", self.site(node, fr))
        st, box = st.new(oid0, Obj("frame", None, {"acc": init}, (None, "#fold", True)))

        def body(s, e):
            sk, res = [], []
            o = s.get(box[1])
            for s2, v in self.apply(s, f, (o.d["acc"], e), {}, fr, node, sk):
                o2 = s2.get(box[1])
                res.append((s2.put(box[1], o2._replace(d={"acc": v})), "n", None))
            return res + sk
        out = []
        for s, k, x in self.iterate(st, it, self.site(node, fr), fr, body, node):
            if k == "n":
                v = s.get(box[1]).d["acc"]
                out.append((s.drop(box[1]), v))
            else:
                sink.append((s, k, x))
        return out

    def b_copy(self, st, a, kw, fr, node, sink):
        v = a[0]
        o = st.get(v[1]) if v[0] == "ref" else None
        if o is not None and o.kind in ("list", "set", "buf", "dict"):
            s, r = st.new(self.site(node, fr), o._replace(x=(len(st.loops),) + tuple(o.x[1:])) if o.kind != "dict" else o)
            return [(s, r)]
        return None

    def b_id(self, st, a, kw, fr, node, sink):
        return None

    def b_minmax(self, st, a, kw, fr, node, sink):
        return None

    BUILTINS = {
        "builtins.len": b_len, "builtins.str": b_str, "builtins.int": b_int, "builtins.bool": b_bool,
        "builtins.list": b_list, "builtins.set": b_set, "builtins.frozenset": b_set, "builtins.bytearray": b_bytearray,
        "builtins.bytes": b_bytes, "builtins.tuple": b_tuple, "builtins.sorted": b_sorted, "builtins.reversed": b_reversed,
        "builtins.dict": b_dict, "builtins.dict.fromkeys": b_fromkeys, "collections.OrderedDict": b_dict, "collections.defaultdict": b_defaultdict,
        "builtins.isinstance": b_isinstance, "builtins.hasattr": b_hasattr, "builtins.getattr": b_getattr,
        "builtins.setattr": b_setattr, "builtins.type": b_type, "builtins.any": b_any, "builtins.all": b_all,
        "builtins.next": b_next, "builtins.iter": b_iter, "builtins.map": b_map, "builtins.filter": b_filter,
        "builtins.enumerate": b_enum, "builtins.zip": b_zip, "itertools.chain": b_chain, "itertools.chain.from_iterable": b_flat,
        "itertools.filterfalse": b_filterfalse,
        "builtins.super": b_super, "functools.partial": b_partial, "functools.reduce": b_reduce,
        "copy.copy": b_copy, "copy.deepcopy": b_copy,
    }
