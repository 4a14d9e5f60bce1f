"""Statements, loops, exception flow, generators (push semantics)."""
import ast
import time

from .terms import *
from .state import Obj, Ev, State, merge
from .program import AnalysisError
from .ops import is_nat

BROAD = {"builtins.Exception", "builtins.BaseException"}


class Fr:
    __slots__ = ("fi", "oid", "cls", "selfv", "on_yield", "in_try", "stack", "ctx", "mod")

    def __init__(self, fi, oid, cls=None, selfv=None, on_yield=None, in_try=False, stack=(), ctx=(), mod=None):
        self.fi, self.oid, self.cls, self.selfv = fi, oid, cls, selfv
        self.on_yield, self.in_try, self.stack, self.ctx, self.mod = on_yield, in_try, stack, ctx, mod

    def sub(self, **kw):
        f = Fr(self.fi, self.oid, self.cls, self.selfv, self.on_yield, self.in_try, self.stack, self.ctx, self.mod)
        for k, v in kw.items():
            setattr(f, k, v)
        return f


class Stmts:
    # ------------------------------------------------------------------ blocks
    def block(self, body, st, fr):
        cur = [(st, "n", None)]
        done = []
        for node in body:
            nxt = []
            for s, _, _ in cur:
                for o in self.stmt(node, s, fr):
                    if o[1] == "n":
                        nxt.append(o)
                    else:
                        done.append(o)
            cur = merge(nxt)
            if len(cur) > self.max_states:
                cur = self.squeeze(cur, fr)
            if not cur:
                break
        if len(done) > 40:
            done = merge(done)
        return cur + done

    def squeeze(self, outs, fr, site=None):
        """too many paths: join those that had the same effects (differing values become phis)"""
        self.squeezed += 1
        site = site or ("join", fr.fi.qual if fr.fi else "", self.ctx_id(fr.ctx), self.steps)
        groups = {}
        order = []
        for st, k, v in outs:
            key = (k, st.locks, st.loops, tuple((e.kind, e.name, e.recv, e.args, e.kw, e.res) for e in st.trace),
                   v if k == "raise" else None)
            if key not in groups:
                groups[key] = []
                order.append(key)
            groups[key].append((st, k, v))
        out = []
        for key in order:
            g = groups[key]
            out.append(g[0] if len(g) == 1 else self.join(g, site))
        if len(out) > self.hard_max:
            raise AnalysisError(f"too many paths ({len(out)}) in {fr.fi.qual if fr.fi else fr.mod.name}")
        return out

    def join(self, g, site):
        sts = [s for s, _, _ in g]
        s0 = sts[0]
        nf = {t: p for t, p in s0.facts.items() if all(s.facts.get(t) is p for s in sts)}
        trace = []
        for evs in zip(*[s.trace for s in sts]):
            e = evs[0]
            if e.facts is not None and any(x is not e and x.facts != e.facts for x in evs):
                e = e._replace(facts={t: p for t, p in e.facts.items() if all(x.facts.get(t) is p for x in evs)})
            trace.append(e)
        over = {}
        oids = {}
        for s in sts:
            for oid in s.over:
                oids[oid] = True
        for oid in oids:
            objs = [s.get(oid) for s in sts]
            have = [o for o in objs if o is not None]
            o = have[0]
            if all(x is o or x == o for x in have):
                over[oid] = o
            else:
                over[oid] = self.join_obj(have, site, oid)
        v0 = g[0][2]
        v = v0 if all(x[2] == v0 for x in g) else ("phi", site, "value", "nat" if all(x[2] is not None and is_nat(x[2]) for x in g) else None)
        return (State(s0.base, over, nf, tuple(trace), s0.locks, s0.loops), g[0][1], v)

    def join_obj(self, objs, site, oid):
        o = objs[0]
        if any(x.kind != o.kind for x in objs):
            return o
        if o.kind in ("inst", "frame", "xattr", "class"):
            keys = set(o.d)
            for x in objs:
                keys &= set(x.d)
            d = {}
            for k in o.d:
                if k in keys:
                    vs = [x.d[k] for x in objs]
                    if all(v == vs[0] for v in vs):
                        d[k] = vs[0]
                    else:
                        d[k] = ("phi", site, (oid[0] if isinstance(oid, tuple) else oid, k), "nat" if all(is_nat(v) for v in vs) else None)
            for x in objs:
                for k in x.d:
                    if k not in d:
                        d[k] = ("phi", site, (oid[0] if isinstance(oid, tuple) else oid, k), None)
            return o._replace(d=d)
        if o.kind in ("list", "set", "buf"):
            if all(len(x.d) == len(o.d) and x.x == o.x for x in objs) and all(len({x.d[i][0] for x in objs}) == 1 and o.d[i][0] in ("one", "star") for i in range(len(o.d))):
                parts = []
                for i in range(len(o.d)):
                    vs = []
                    for x in objs:
                        if x.d[i] not in vs:
                            vs.append(x.d[i])
                    parts.append(vs[0] if len(vs) == 1 else (vs[0][0], ("call", ("ext", "#alt"), tuple(v[1] for v in vs), (), None)) + tuple(vs[0][2:]))
                return o._replace(d=tuple(parts))
            return o._replace(d=(("any", (site, oid[0] if isinstance(oid, tuple) else oid)),), x=(o.x[0], ()))
        if o.kind == "dict":
            d = {k: v for k, v in o.d.items() if all(x.d.get(k) == v for x in objs)}
            for k in o.d:
                if k not in d and all(k in x.d for x in objs):
                    d[k] = ("phi", site, ("dictval", k), None)
            src = o.x[1]
            if any(x.x[1] != src for x in objs) or any(set(x.d) != set(d) for x in objs):
                src = ("opq", "joined", site, oid)
            parts = [p for p in o.x[2] if all(p in x.x[2] for x in objs)]
            return o._replace(d=d, x=(o.x[0], src, tuple(parts)))
        return o

    def stmt(self, node, st, fr):
        self.steps += 1
        if self.steps > self.budget or (self.steps & 1023 == 0 and time.monotonic() > self.deadline):
            raise AnalysisError("analysis budget exhausted")
        m = self._dispatch.get(type(node))
        if m is None:
            return [(st, "n", None)]
        return m(self, node, st, fr)

    def s_expr(self, node, st, fr):
        sink = []
        if isinstance(node.value, ast.Constant):
            return [(st, "n", None)]
        return [(s, "n", None) for s, _ in self.ev(node.value, st, fr, sink)] + sink

    def s_pass(self, node, st, fr):
        return [(st, "n", None)]

    def s_return(self, node, st, fr):
        if node.value is None:
            return [(st, "ret", NONE)]
        sink = []
        return [(s, "ret", v) for s, v in self.ev(node.value, st, fr, sink)] + sink

    def s_break(self, node, st, fr):
        return [(st, "brk", None)]

    def s_continue(self, node, st, fr):
        return [(st, "cont", None)]

    def s_assign(self, node, st, fr):
        sink = []
        out = []
        for s, v in self.ev(node.value, st, fr, sink):
            cur = [s]
            for t in node.targets:
                cur = [s2 for s1 in cur for s2 in self.assign(t, v, s1, fr, sink)]
            out.extend((s1, "n", None) for s1 in cur)
        return out + sink

    def s_annassign(self, node, st, fr):
        if node.value is None:
            return [(st, "n", None)]
        sink = []
        out = []
        for s, v in self.ev(node.value, st, fr, sink):
            out.extend((s1, "n", None) for s1 in self.assign(node.target, v, s, fr, sink))
        return out + sink

    def s_augassign(self, node, st, fr):
        sink = []
        out = []
        load = self._as_load(node.target)
        op = self._binop[type(node.op)]
        for s, a in self.ev(load, st, fr, sink):
            for s1, b in self.ev(node.value, s, fr, sink):
                if a[0] == "ref" and op in ("+", "|"):
                    o = s1.get(a[1])
                    if o is not None and o.kind in ("list", "set", "buf"):
                        for s2 in self.mutate(s1, a, "extend", (b,), fr, node, sink):
                            out.extend((s3, "n", None) for s3 in self.assign(node.target, a, s2, fr, sink))
                        continue
                    if o is not None and o.kind == "dict":
                        for s2, _ in self.dict_method(s1, a, "update", (b,), {}, fr, node, sink):
                            out.append((s2, "n", None))
                        continue
                v = self.binop(s1, op, a, b)
                out.extend((s2, "n", None) for s2 in self.assign(node.target, v, s1, fr, sink))
        return out + sink

    def _as_load(self, t):
        key = id(t)
        n = self._loads.get(key)
        if n is None:
            n = ast.copy_location({
                ast.Name: lambda: ast.Name(id=t.id, ctx=ast.Load()),
                ast.Attribute: lambda: ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load()),
                ast.Subscript: lambda: ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load()),
            }[type(t)](), t)
            self._loads[key] = n
        return n

    # assignment targets -> list of states
    def assign(self, t, v, st, fr, sink):
        if isinstance(t, ast.Name):
            return [self.bind(st, fr, t.id, v)]
        if isinstance(t, ast.Attribute):
            out = []
            for s, b in self.ev(t.value, st, fr, sink):
                out.append(self.setattr(s, b, t.attr, v, fr, t))
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for s, b in self.ev(t.value, st, fr, sink):
                for s1, i in self.ev_slice(t.slice, s, fr, sink):
                    out.append(self.setitem(s1, b, i, v, fr, t))
            return out
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, fr, sink)
        if isinstance(t, (ast.Tuple, ast.List)):
            items = self.unpack(st, v, len(t.elts), t, fr)
            out = []
            for s, vals in items:
                cur = [s]
                for tt, vv in zip(t.elts, vals):
                    cur = [s2 for s1 in cur for s2 in self.assign(tt, vv, s1, fr, sink)]
                out.extend(cur)
            return out
        return [st]

    def unpack(self, st, v, n, node, fr):
        has_star = any(isinstance(e, ast.Starred) for e in node.elts)
        if v[0] == "tuple" and len(v[1]) == n and not has_star:
            return [(st, v[1])]
        if v[0] == "tuple" and has_star and len(v[1]) >= n - 1:
            # the starred name takes what the others leave
            i = next(j for j, e in enumerate(node.elts) if isinstance(e, ast.Starred))
            m = len(v[1]) - (n - 1)
            st, rest = self.new_list(st, ("rest", node.lineno, node.col_offset), "list", tuple(("one", x) for x in v[1][i:i + m]))
            return [(st, v[1][:i] + (rest,) + v[1][i + m:])]
        if v[0] == "ref" and not has_star:
            o = st.get(v[1])
            turned = n > 1 and o.x is not None and any(m[0] in ("sorted", "reversed") for m in o.x[1] or ())
            if o.kind in ("list",) and len(o.d) == n and all(p[0] == "one" for p in o.d) and not turned:
                return [(st, tuple(p[1] for p in o.d))]
        f = self.freeze(st, v)
        return [(st, tuple(("item", f, C(i)) for i in range(n)))]

    # ------------------------------------------------------------------ control
    def s_if(self, node, st, fr):
        sink = []
        out = []
        for s, b in self.cond(node.test, st, fr, sink):
            out.extend(self.block(node.body if b else node.orelse, s, fr))
        return merge(out) + sink

    def s_assert(self, node, st, fr):
        sink = []
        out = []
        for s, b in self.cond(node.test, st, fr, sink):
            if b:
                out.append((s, "n", None))
            else:
                out.append((s, "raise", ("exc", "builtins.AssertionError", ())))
        return out + sink

    def s_raise(self, node, st, fr):
        if node.exc is None:
            cur = self.cur_exc[-1] if self.cur_exc else ("exc", None, ())
            return [(st, "raise", cur)]
        sink = []
        out = []
        for s, v in self.ev(node.exc, st, fr, sink):
            if v[0] == "cls" or (v[0] == "ext"):
                v = ("exc", v[1], ())
            elif v[0] != "exc":
                v = ("exc", None, (v,))
            out.append((s, "raise", v))
        return out + sink

    def s_delete(self, node, st, fr):
        sink = []
        cur = [st]
        for t in node.targets:
            nxt = []
            for s in cur:
                if isinstance(t, ast.Name):
                    nxt.append(s)
                elif isinstance(t, ast.Subscript):
                    for s1, b in self.ev(t.value, s, fr, sink):
                        for s2, i in self.ev_slice(t.slice, s1, fr, sink):
                            nxt.append(self.delitem(s2, b, i, fr, t))
                else:
                    nxt.append(s)
            cur = nxt
        return [(s, "n", None) for s in cur] + sink

    def s_global(self, node, st, fr):
        return [(st, "n", None)]

    # ------------------------------------------------------------------ try / with
    def s_try(self, node, st, fr):
        has_h = bool(node.handlers)
        body_fr = fr.sub(in_try=True) if (has_h or node.finalbody) else fr
        outs = self.block(node.body, st, body_fr)
        res = []
        for s, k, v in outs:
            if k == "n" and node.orelse:
                res.extend(self.block(node.orelse, s, fr))
            elif k == "raise":
                res.extend(self.handle(node.handlers, s, v, fr.sub(in_try=True) if node.finalbody else fr))
            else:
                res.append((s, k, v))
        res = merge(res)
        if not node.finalbody:
            return res
        fin = []
        for s, k, v in res:
            for s2, k2, v2 in self.block(node.finalbody, s, fr):
                if k2 == "n":
                    fin.append((s2, k, v))
                else:
                    fin.append((s2, k2, v2))
        return merge(fin)

    def handle(self, handlers, st, exc, fr):
        cur = st
        out = []
        for h in handlers:
            m = self.exc_match(cur, exc, h, fr)
            if m is False:
                continue
            s = cur
            if h.name:
                s = self.bind(s, fr, h.name, exc)
            self.cur_exc.append(exc)
            s = self.emit(s, "caught", self.exc_name(exc), None, (exc,), {}, NONE, fr, h)
            try:
                out.extend(self.block(h.body, s, fr))
            finally:
                self.cur_exc.pop()
            if m is True:
                return out
        out.append((cur, "raise", exc))
        return out

    def exc_match(self, st, exc, h, fr):
        if h.type is None:
            return True
        sink = []
        vals = self.ev(h.type, st, fr, sink)
        if not vals:
            return None
        t = vals[0][1]
        types = t[1] if t[0] == "tuple" else (t,)
        res = False
        for ty in types:
            r = self.exc_is(st, exc, ty)
            if r is True:
                return True
            if r is None:
                res = None
        return res

    def exc_name(self, exc):
        return exc[1] if exc[0] == "exc" else None

    def exc_is(self, st, exc, ty):
        import builtins
        name = ty[1] if ty[0] in ("ext", "cls") else None
        if name in BROAD:
            return True
        if name is None:
            return None
        en = exc[1] if exc[0] == "exc" else None
        if en is None:
            hint = exc[2][0] if exc[0] == "exc" and len(exc[2]) and isinstance(exc[2][0], str) else None
            if hint == "LookupError" and name.startswith("builtins."):
                c = getattr(builtins, name[9:], None)
                if isinstance(c, type) and not (issubclass(c, LookupError) or issubclass(LookupError, c)
                                                or issubclass(c, (TypeError, AttributeError))):
                    return False
            return None
        if en == name:
            return True
        names = self.exc_mro(st, en)
        if name in names:
            return True
        if en.startswith("builtins.") and name.startswith("builtins."):
            a, b = getattr(builtins, en[9:], None), getattr(builtins, name[9:], None)
            if isinstance(a, type) and isinstance(b, type):
                return issubclass(a, b)
        if name in self.prog.classes or en in self.prog.classes or (
                en.startswith("builtins.") and name.startswith("builtins.")):
            return False
        return None

    def exc_mro(self, st, name):
        if name in self.prog.classes:
            out = list(self.mro(st, name))
            seen = set(out)
            for q in list(out):
                for b in self.class_bases(st, q):
                    if b[0] == "ext" and b[1] not in seen:
                        out.append(b[1])
                        if b[1].startswith("builtins."):
                            import builtins
                            c = getattr(builtins, b[1][9:], None)
                            if isinstance(c, type):
                                out.extend("builtins." + x.__name__ for x in c.__mro__)
            return out
        return [name]

    def s_with(self, node, st, fr):
        return self._with(node.items, 0, node, st, fr)

    def _with(self, items, i, node, st, fr):
        if i == len(items):
            return self.block(node.body, st, fr)
        sink = []
        out = []
        it = items[i]
        for s, v in self.ev(it.context_expr, st, fr, sink):
            out.extend(self.enter(s, v, it.optional_vars, fr, node,
                                  lambda s2, fr2: self._with(items, i + 1, node, s2, fr2)))
        return out + sink

    def enter(self, st, v, target, fr, node, body):
        sink = []
        # contextlib.suppress(...)
        if v[0] == "call" and v[1] == ("ext", "contextlib.suppress"):
            outs = body(st, fr.sub(in_try=True))
            res = []
            for s, k, x in outs:
                if k == "raise":
                    r = False
                    for ty in v[2]:
                        q = self.exc_is(s, x, ty)
                        if q is True:
                            r = True
                            break
                        if q is None:
                            r = None
                    if r is not False:
                        s2 = self.emit(s, "caught", self.exc_name(x), None, (x,), {}, NONE, fr, node)
                        res.append((s2, "n", None))
                    if r is not True:
                        res.append((s, k, x))
                else:
                    res.append((s, k, x))
            return res
        # generator-based context manager
        if v[0] == "ref":
            o = st.get(v[1])
            if o.kind == "gen" and self.is_ctxmanager(o.cls):
                def cb(s, val):
                    ss = [s]
                    if target is not None:
                        ss = self.assign(target, val, s, fr, sink)
                    res = []
                    for s1 in ss:
                        for s2, k, x in body(s1, fr):
                            if k == "n":
                                res.append((s2, "resume", NONE))
                            elif k == "raise":
                                res.append((s2, "throw", x))
                            else:
                                res.append((s2, "gx", (s2, k, x)))
                    return res
                outs = self.run_gen(st, v, fr, cb, node, sink)
                res = []
                for s, k, x in outs:
                    if k == "gx":
                        res.append((s, x[1], x[2]))
                    elif k == "raise":
                        res.append((s, k, x))
                    else:
                        res.append((s, "n", None))
                return res + sink
            if o.kind == "inst" and self.find_method(st, o.cls, "__enter__"):
                res = []
                for s, ev in self.call_method(st, v, "__enter__", (), {}, fr, node, sink):
                    ss = [s]
                    if target is not None:
                        ss = self.assign(target, ev, s, fr, sink)
                    for s1 in ss:
                        for s2, k, x in body(s1, fr.sub(in_try=True)):
                            a = (x if k == "raise" else NONE, x if k == "raise" else NONE, NONE)
                            for s3, rv in self.call_method(s2, v, "__exit__", a, {}, fr, node, sink):
                                if k == "raise":
                                    for s4, b in self.split(s3, rv):
                                        res.append((s4, "n", None) if b else (s4, k, x))
                                else:
                                    res.append((s3, k, x))
                return res + sink
        # external context manager (file, lock, ...)
        fv = self.freeze(st, v)
        s = self.emit(st, "enter", self.callee_name(v), None, (fv,), {}, v, fr, node)
        s = s.with_(locks=s.locks + (fv,))
        ss = [s]
        if target is not None:
            ss = self.assign(target, v, s, fr, sink)
        res = []
        for s1 in ss:
            for s2, k, x in body(s1, fr):
                lk = list(s2.locks)
                for j in range(len(lk) - 1, -1, -1):
                    if lk[j] == fv:
                        del lk[j]
                        break
                s2 = s2.with_(locks=tuple(lk))
                s2 = self.emit(s2, "exit", self.callee_name(v), None, (fv,), {}, NONE, fr, node)
                res.append((s2, k, x))
        return res + sink

    # ------------------------------------------------------------------ loops
    def s_for(self, node, st, fr):
        sink = []
        out = []
        for s, it in self.ev(node.iter, st, fr, sink):
            def body(s1, elem):
                res = []
                sk = []
                for s2 in self.assign(node.target, elem, s1, fr, sk):
                    res.extend(self.block(node.body, s2, fr))
                return res + sk
            outs = self.iterate(s, it, self.site(node, fr), fr, body, node)
            for s1, k, v in outs:
                if k == "n":
                    if node.orelse:
                        out.extend(self.block(node.orelse, s1, fr))
                    else:
                        out.append((s1, "n", None))
                elif k == "brk":
                    out.append((s1, "n", None))
                else:
                    out.append((s1, k, v))
        return merge(out) + sink

    def s_while(self, node, st, fr):
        if self.while_turns:
            return self.turned(node, st, fr)
        site = self.site(node, fr)
        binder = ("elem", ("opq", "while", site), site)
        sink = []
        # head fixpoint
        start = st.with_(loops=st.loops + (binder,))
        head = start
        for _ in range(12):
            conts, exits, conds_false = [], [], []
            sk = []
            for s, b in self.cond(node.test, head, fr, sk):
                if not b:
                    conds_false.append(s)
                    continue
                s = self.emit(s, "iter", "while", None, (), {}, NONE, fr, node)
                for o in self.block(node.body, s, fr):
                    (conts if o[1] in ("n", "cont") else exits).append(o)
            exits.extend(sk)
            turns = conts
            conts = merge([(s, "n", None) for s, _, _ in conts], loop=True)
            nh = self.widen(head, [s for s, _, _ in conts], site, binder)
            if nh.same(head):
                break
            head = nh
        else:
            raise AnalysisError(f"loop did not stabilise at {site}")
        if self.on_turn is not None:
            self.on_turn(head, [s for s, _, _ in turns], node, fr)
        out = []
        pop = lambda s: s.with_(loops=st.loops)
        fin = []
        for s, b in self.cond(node.test, start, fr, sink):
            if not b:
                fin.append(pop(s))
        for s0, _, _ in conts:
            for s, b in self.cond(node.test, s0, fr, sink):
                if not b:
                    fin.append(pop(self.emit(s, "enditer", "while", None, (), {}, NONE, fr, node)))
        if not fin:
            exits = exits + self.another_turn(node, head, conts, fr)
        for s in fin:
            if node.orelse:
                out.extend(self.block(node.orelse, s, fr))
            else:
                out.append((s, "n", None))
        for s, k, v in exits:
            s = pop(s)
            out.append((s, "n", None) if k == "brk" else (s, k, v))
        return merge(out) + [(pop(s), k, v) for s, k, v in sink]

    def turned(self, node, st, fr):
        """turn by turn: for rules whose scenario decides how often a loop turns"""
        site = self.site(node, fr)
        binder = ("elem", ("opq", "while", site), site)
        pop = lambda s: s.with_(loops=st.loops)
        heads, out, fin = [st.with_(loops=st.loops + (binder,))], [], []
        for _ in range(self.while_turns):
            conts, sink = [], []
            for h in heads:
                for s, b in self.cond(node.test, h, fr, sink):
                    if not b:
                        fin.append(pop(s))
                        continue
                    s = self.emit(s, "iter", "while", None, (), {}, NONE, fr, node)
                    for s1, k, v in self.block(node.body, s, fr):
                        if k in ("n", "cont"):
                            conts.append(s1)
                        else:
                            out.append((pop(s1), "n", None) if k == "brk" else (pop(s1), k, v))
            out += [(pop(s), k, v) for s, k, v in sink]
            heads = conts
            if not heads:
                break
        else:
            raise AnalysisError(f"loop still turning after {self.while_turns} turns at {site}")
        for s in fin:
            out += self.block(node.orelse, s, fr) if node.orelse else [(s, "n", None)]
        return merge(out)

    def another_turn(self, node, head, conts, fr):
        """a loop that is only left from inside: ways out after a complete turn"""
        res = []
        for s0, _, _ in conts:
            s0 = self.emit(s0, "enditer", "while", None, (), {}, NONE, fr, node)
            n = len(s0.trace)
            sk = []
            for s, b in self.cond(node.test, s0.with_(facts=head.facts), fr, sk):
                if not b:
                    continue
                s = self.emit(s, "iter", "while", None, (), {}, NONE, fr, node)
                for s1, k, v in self.block(node.body, s, fr):
                    if k in ("n", "cont"):
                        continue
                    # what this turn found out about a term does not hold for the turn before
                    m = {t[1]: ("opq", "earlier", t[1]) for t, b in s0.facts.items() if t[0] == "truth" and s1.facts.get(t, b) is not b}
                    facts = {subst(t, m) if m else t: b for t, b in s0.facts.items()}
                    facts.update(s1.facts)
                    tr = s1.trace
                    if m:
                        tr = tuple(e._replace(args=tuple(subst(a, m) if a is not None else a for a in e.args)) for e in tr[:n]) + tuple(tr[n:])
                    res.append((s1.with_(facts=facts, trace=tr), k, v))
        return res

    UNROLL = 24

    def iterate(self, st, it, site, fr, body, node):
        """Run `body(state, element)` for the elements of `it`.
        Outcomes: ('n' exhausted) | 'brk' | 'ret' | 'raise' | 'gx'."""
        # generators and lazy pipelines push their values into the body
        if it[0] == "ref":
            o = st.get(it[1])
            if o.kind == "gen":
                def cb(s, val):
                    res = []
                    for s2, k, x in body(s, val):
                        if k in ("n", "cont"):
                            res.append((s2, "resume", NONE))
                        else:
                            res.append((s2, "gx", (s2, k, x)))
                    return res
                sink = []
                outs = self.run_gen(st, it, fr, cb, node, sink)
                res = []
                for s, k, x in outs + sink:
                    if k == "gx":
                        res.append((s, x[1], x[2]))
                    elif k == "raise":
                        res.append((s, k, x))
                    else:
                        res.append((s, "n", None))
                return res
            if o.kind == "lazy":
                return self.iterate_lazy(st, it, o, site, fr, body, node)
            if o.kind == "dict":
                parts = [("one", k) for k in o.d]
                for p in o.x[2]:
                    parts.append(("rep", p[1], p[3], p[4], p[5]))
                if o.x[1] is not None:
                    parts.append(("star", o.x[1]))
                return self.iterate_parts(st, parts, site, fr, body, node)
            if o.kind == "list" and 0 < len(o.d) <= self.UNROLL and all(p[0] == "one" for p in o.d):
                return self.iterate_live(st, it, site, fr, body, node)
            if o.kind == "list" and any(m[0] in ("reversed", "slice") for m in o.x[1]):
                return self.iterate_parts(st, [("star", self.freeze(st, it))], site, fr, body, node)
            if o.kind in ("list", "set", "buf"):
                return self.iterate_parts(st, o.d, site, fr, body, node)
            if o.kind == "inst":
                sink = []
                if self.find_method(st, o.cls, "__iter__"):
                    out = []
                    for s, v in self.call_method(st, it, "__iter__", (), {}, fr, node, sink):
                        if v == it and self.while_turns and self.find_method(s, o.cls, "__next__"):
                            out.extend(self.turns(s, it, fr, body, node))
                        elif v == it:
                            out.extend(self.iterate_parts(s, [("star", ("call", ("ext", "#next"), (it,), (), site))],
                                                          site, fr, body, node))
                        else:
                            out.extend(self.iterate(s, v, site, fr, body, node))
                    return out + sink
                return self.iterate_parts(st, [("star", it)], site, fr, body, node)
        if it[0] == "tuple":
            return self.iterate_parts(st, [("one", x) for x in it[1]], site, fr, body, node)
        if it[0] == "list":
            return self.iterate_parts(st, it[2], site, fr, body, node)
        if it[0] == "c" and isinstance(it[2], (str, tuple)) and len(it[2]) <= self.UNROLL:
            return self.iterate_parts(st, [("one", C(x)) for x in it[2]], site, fr, body, node)
        if it[0] == "call" and it[1][0] == "attr" and it[1][2] in ("items", "keys", "values") and not it[2]:
            base = it[1][1]
            if it[1][2] == "items":
                def body2(s, e):
                    return body(s, ("tuple", (e, ("item", base, e))))
                return self.iterate_parts(st, [("star", base)], site, fr, body2, node)
            if it[1][2] == "keys":
                return self.iterate_parts(st, [("star", base)], site, fr, body, node)
            def body3(s, e):
                return body(s, ("item", base, e))
            return self.iterate_parts(st, [("star", base)], site, fr, body3, node)
        if it[0] == "call" and it[1] == ("ext", "builtins.range"):
            a = it[2]
            if all(x[0] == "c" for x in a):
                try:
                    r = range(*[x[2] for x in a])
                    if len(r) <= max(self.UNROLL, self.while_turns):
                        return self.iterate_parts(st, [("one", C(i)) for i in r], site, fr, body, node)
                except (TypeError, ValueError):
                    pass
        return self.iterate_parts(st, [("star", self.freeze(st, it))], site, fr, body, node)

    def turns(self, st, it, fr, body, node):
        """iteration over an iterator written as a class, a turn at a time"""
        cur, done = [st], []
        for _ in range(self.while_turns):
            nxt = []
            for s in cur:
                sk = []
                for s2, e in self.call_method(s, it, "__next__", (), {}, fr, node, sk):
                    for o in body(s2, e):
                        if o[1] in ("n", "cont"):
                            nxt.append(o[0])
                        else:
                            done.append(o)
                for s2, k, x in sk:
                    done.append((s2, "n", None) if k == "raise" and "StopIteration" in repr(x) else (s2, k, x))
            cur = [s for s, _, _ in merge([(s, "n", None) for s in nxt], loop=True)]
            if not cur:
                return done
        raise AnalysisError("iterator still turning")

    def iterate_live(self, st, it, site, fr, body, node):
        """iteration over a list with known elements, by position in the list as it is at each step
        (a list changed inside the loop skips or repeats elements, as it does in Python)"""
        cur, done, i = [st], [], 0
        while cur:
            nxt = []
            for s in cur:
                d = s.get(it[1]).d
                if any(p[0] != "one" for p in d[i:]) or i > 2 * self.UNROLL:
                    done.extend(self.iterate_parts(s, d[i:], site, fr, body, node))
                    continue
                if i >= len(d):
                    done.append((s, "n", None))
                    continue
                x = d[i][1]
                s = self.emit(s, "iter", "for", None, (x,), {}, NONE, fr, node)
                for o in body(s, x):
                    if o[1] in ("n", "cont"):
                        nxt.append(o[0])
                    else:
                        done.append(o)
            i += 1
            cur = [s for s, _, _ in merge([(s, "n", None) for s in nxt], loop=True)]
        return done

    def iterate_lazy(self, st, it, o, site, fr, body, node):
        args = o.d["args"]
        kind = o.cls
        if kind == "map":
            f = args[0]

            def b(s, e):
                sink = []
                res = []
                for s1, v in self.apply(s, f, (e,), {}, fr, node, sink):
                    res.extend(body(s1, v))
                return res + sink
            if len(args) == 2:
                return self.iterate(st, args[1], site, fr, b, node)
            return self.iterate_parts(st, [("star", self.freeze(st, it))], site, fr, body, node)
        if kind in ("filter", "takewhile", "filterfalse"):
            f = args[0]

            def b(s, e):
                sink = []
                res = []
                vals = [(s, e)] if f == NONE else self.apply(s, f, (e,), {}, fr, node, sink)
                for s1, v in vals:
                    for s2, t in self.truth(s1, v, fr, sink, node):
                        if t != (kind == "filterfalse"):
                            res.extend(body(s2, e))
                        else:
                            res.append((s2, "cont", None))
                return res + sink
            return self.iterate(st, args[1], site, fr, b, node)
        if kind == "enumerate":
            start = args[1] if len(args) > 1 else C(0)
            inner = args[0]
            io = st.get(inner[1]) if inner[0] == "ref" else None
            lit = inner[1] if inner[0] == "tuple" else (
                [p[1] for p in io.d] if io is not None and io.kind in ("list",) and all(p[0] == "one" for p in io.d) and len(io.d) <= self.UNROLL else None)
            if lit is not None and start[0] == "c":
                parts = [("one", ("tuple", (C(start[2] + i), x))) for i, x in enumerate(lit)]
                return self.iterate_parts(st, parts, site, fr, body, node)
            depth = len(st.loops)
            box = ("turn", site)
            if self.while_turns and start[0] == "c":
                # known elements, one at a time: the turn is counted
                st = st.put(box, Obj("xattr", None, {"v": start}, None))

            def b(s, e):
                turn = s.get(box) if self.while_turns else None
                if turn is not None and len(s.loops) == depth and turn.d["v"][0] == "c":
                    n = turn.d["v"]
                    return body(s.put(box, turn._replace(d={"v": C(n[2] + 1)})), ("tuple", (n, e)))
                ix = ("idx", site) + tuple(s.loops[depth:depth + 1])
                if start != C(0):
                    ix = ("bin", "+", ix, start)
                return body(s, ("tuple", (ix, e)))
            return self.iterate(st, inner, site, fr, b, node)
        if kind == "zip":
            lits = []
            for a in args:
                ao = st.get(a[1]) if a[0] == "ref" else None
                if a[0] == "tuple":
                    lits.append(list(a[1]))
                elif ao is not None and (ao.kind == "list" or (ao.kind == "set" and self.ordered_sets)) and all(p[0] == "one" for p in ao.d):
                    lits.append([p[1] for p in ao.d])
                else:
                    lits = None
                    break
            if lits is not None:
                parts = [("one", ("tuple", tuple(x))) for x in zip(*lits)]
                return self.iterate_parts(st, parts, site, fr, body, node)
            z = ("call", ("ext", "builtins.zip"), tuple(self.freeze(st, a) for a in args), (), None)

            def b(s, e):
                return body(s, ("tuple", tuple(("xelem", self.freeze(st, a), e) for a in args)))
            return self.iterate_parts(st, [("star", z)], site, fr, b, node)
        if kind == "chain":
            cur = [st]
            out = []
            for i, a in enumerate(args):
                nxt = []
                for s in cur:
                    if a[0] == "star":
                        turns = self.iterate(s, a[1], site + (("chain", i),), fr, lambda s3, e: self.iterate(s3, e, site + (("chain", i, "in"),), fr, body, node), node)
                    else:
                        turns = self.iterate(s, a, site + (("chain", i),), fr, body, node)
                    for o2 in turns:
                        if o2[1] in ("n",):
                            nxt.append(o2[0])
                        else:
                            out.append(o2)
                cur = nxt
            return [(s, "n", None) for s in cur] + out
        if kind == "genexp":
            gnode, gfr = args
            sink = []

            def emit(s, f2, sk):
                res = []
                for s1, v in self.ev(gnode.elt, s, f2, sk):
                    res.extend(body(s1, v))
                return res
            return self.comp(gnode.generators, 0, st, gfr, emit, sink) + sink
        raise AnalysisError("lazy " + kind)

    def iterate_parts(self, st, parts, site, fr, body, node):
        if len(parts) > max(self.UNROLL, self.while_turns) and all(p[0] == "one" for p in parts):
            parts = [("rep", p[1], frozenset(), frozenset(), ()) for p in parts]
        cur = [st]
        done = []
        i = 0
        while i < len(parts):
            p = parts[i]
            nxt = []
            if p[0] == "one":
                for s in cur:
                    s = self.emit(s, "iter", "for", None, (p[1],), {}, NONE, fr, node)
                    for o in body(s, p[1]):
                        if o[1] in ("n", "cont"):
                            nxt.append(o[0])
                        else:
                            done.append(o)
                i += 1
            else:
                j = i
                while j < len(parts) and parts[j][0] != "one":
                    j += 1
                for s in cur:
                    for o in self.generic(s, parts[i:j], site, fr, body, node):
                        if o[1] == "n":
                            nxt.append(o[0])
                        else:
                            done.append(o)
                i = j
            cur = [s for s, _, _ in merge([(s, "n", None) for s in nxt], loop=True)]
        return [(s, "n", None) for s in cur] + done

    def generic(self, st, parts, site, fr, body, node):
        """zero or more iterations over an unbounded collection"""
        alts = []
        keys = []
        for p in parts:
            if p[0] == "rep":
                t, fs, bs = self.rebind(p, site)
                keys.append(self.exists_key(p[1], p[2], p[4]))
                if not bs:
                    bs = (("elem", ("opq", "any", site), site),)
            else:
                src = p[1] if p[0] == "star" else ("opq", "any", p[1] if len(p) > 1 else "")
                t, fs = ("elem", src, site), frozenset()
                bs = (t,)
                keys.append(("exists", src, frozenset()))
            alts.append((t, fs, bs))
        # is the collection known empty / nonempty ?
        empties = [st]
        for k in keys:
            if k is None:
                continue
            nx = []
            for s in empties:
                for s1, b in self.split(s, k):
                    if not b:
                        nx.append(s1)
            empties = nx
        live = []
        for (t, fs, bs), k in zip(alts, keys):
            if k is None:
                live.append((t, fs, bs, None))
                continue
            can = any(b for _, b in self.split(st, k))
            if can:
                live.append((t, fs, bs, k))
        out = [(s, "n", None) for s in empties]
        for t, fs, bs, k in live:
            base = st
            if k is not None:
                nonempty = [s for s, b in self.split(st, k) if b]
                base = nonempty[0]
            if any(contains_any(f, bs) for f in base.facts):
                # what was known of the element of an earlier run of this loop
                base = base.with_(facts={f: p for f, p in base.facts.items() if not contains_any(f, bs)})
            pushed = base.with_(loops=base.loops + bs)
            head = pushed
            for _ in range(12):
                conts, exits = [], []
                s = head.assume_all(fs)
                if s is None:
                    break
                s = self.emit(s, "iter", "for", None, (t,), {}, NONE, fr, node)
                for o in body(s, t):
                    (conts if o[1] in ("n", "cont") else exits).append(o)
                conts = merge([(s, "n", None) for s, _, _ in conts], loop=True)
                nh = self.widen(head, [s for s, _, _ in conts], site, bs)
                if nh.same(head):
                    break
                head = nh
            else:
                raise AnalysisError(f"loop did not stabilise at {site}")
            pop = lambda s: s.with_(loops=s.loops[:len(base.loops)])
            # facts implied by leaving early / not leaving early
            exkeys = []
            for s, kk, v in exits:
                d = frozenset((a, b) for a, b in s.facts.items()
                              if (a, b) not in head.facts.items() and contains_any(a, bs))
                if d and len(bs) == 1:
                    ek = ("exists", bs[0][1], frozenset((subst(a, {bs[0]: ("elem", bs[0][1], "_")}), b) for a, b in d))
                    exkeys.append(ek)
                    s2 = s.assume(ek, True)
                    s = s2 if s2 is not None else s
                out.append((pop(s), kk, v))
            for s, _, _ in conts:
                ok = s
                for ek in exkeys:
                    if ok is not None:
                        ok = ok.assume(ek, False)
                if ok is None:
                    continue
                ok = self.emit(ok, "enditer", "for", None, (t,), {}, NONE, fr, node)
                out.append((pop(ok), "n", None))
        return merge(out)

    # ------------------------------------------------------------------ widening
    def widen(self, head, conts, site, binder):
        if not conts:
            return head
        bs = binder if isinstance(binder, tuple) and binder and isinstance(binder[0], tuple) else (binder,)
        over = dict(head.over)
        keep = set()
        changed = False
        oids = set()
        for c in conts:
            for oid, o in c.over.items():
                h = head.get(oid)
                if h is not None and h is not o and h != o:
                    oids.add(oid)
        for oid in oids:
            h = head.get(oid)
            live = [c for c in conts if c.get(oid) is not None]
            cs = [c.get(oid) for c in live]
            carried = {}
            n = self.widen_obj(h, cs, site, oid, keep, carried, kind_in(head), [kind_in(c) for c in live])
            for nid, kind in carried.items():
                if nid not in over:
                    over[nid] = Obj(kind, None, (("any", (site, nid[3])),), (len(head.loops), ()))
                    changed = True
            if n is not None and n != h:
                over[oid] = n
                changed = True
        # facts that survive every iteration
        nf = {}
        for t, p in head.facts.items():
            if all(c.facts.get(t) is p for c in conts):
                nf[t] = p
        if len(nf) != len(head.facts):
            changed = True
        # objects created in the loop body and still reachable from what survived
        if keep:
            for c in conts:
                todo = list(keep)
                while todo:
                    oid = todo.pop()
                    if oid in over or oid in head.base:
                        continue
                    o = c.over.get(oid)
                    if o is None:
                        continue
                    over[oid] = o
                    changed = True
                    todo.extend(refs_of(o))
        if not changed:
            return head
        return State(head.base, over, nf, head.trace, head.locks, head.loops)

    @staticmethod
    def phi_init(v, site):
        """what a loop-carried value was before the loop (None when it is a heap object)"""
        if v[0] == "phi" and v[1] == site:
            return v[4] if len(v) > 4 else None
        return None if v[0] == "ref" or any(x[0] == "ref" for x in walk(v)) else v

    def widen_obj(self, h, cs, site, oid, keep, carried=None, head_kind=None, cont_kinds=()):
        if h.kind in ("inst", "frame", "xattr", "class"):
            d = dict(h.d)
            ch = False
            for k, v in h.d.items():
                vals = [c.d.get(k, v) for c in cs]
                if all(x == v for x in vals):
                    continue
                ph = ("phi", site, (oid[0] if isinstance(oid, tuple) else oid, k),
                      "nat" if is_nat(v) and all(is_nat(x) for x in vals) else None, self.phi_init(v, site))
                if v[0] == "phi" and v[1] == site and v[2] == ph[2]:
                    if v[3] == "nat" and ph[3] is None:
                        d[k] = ph
                        ch = True
                    continue
                if v[0] == "ref" and all(x[0] == "ref" and self._same_alloc(x, v) for x in vals):
                    continue
                kinds = {kinds_of(v) for kinds_of, v in [(head_kind, v)] + list(zip(cont_kinds, vals))} if head_kind is not None else {None}
                if len(kinds) == 1 and kinds <= {"list", "set", "buf"}:
                    # a collection that is replaced by another one of its kind
                    nid = (site, "carried", oid, k)
                    carried[nid] = next(iter(kinds))
                    if v != ("ref", nid):
                        d[k] = ("ref", nid)
                        ch = True
                    continue
                d[k] = ph
                ch = True
            if h.kind in ("inst", "xattr"):
                for c in cs:
                    for k in c.d:
                        if k not in d:
                            d[k] = ("phi", site, (oid[0] if isinstance(oid, tuple) else oid, k), None)
                            ch = True
            return h._replace(d=d) if ch else None
        if h.kind in ("list", "set", "buf"):
            n = len(h.d)
            parts = list(h.d)
            same = lambda c: c.d[:n] == h.d or [p[:3] for p in c.d[:n]] == [p[:3] for p in h.d]
            if not all(same(c) for c in cs):
                parts = [("any", (site, oid[0] if isinstance(oid, tuple) else oid))]
            else:
                for c in cs:
                    for p in c.d[n:]:
                        if p[0] == "one":
                            p = ("rep", p[1], frozenset(), frozenset(), ())
                        if p[0] == "rep":
                            p = unself(p, c.d, oid)
                            if not any(q[0] == "rep" and self._same_rep(q, p) for q in parts):
                                parts.append(p)
                                keep.update(refs_in(p[1]))
                        elif p not in parts:
                            parts.append(p)
            m = h.x if all(c.x == h.x for c in cs) else (h.x[0], tuple(x for x in h.x[1] if all(x in c.x[1] for c in cs)))
            if tuple(parts) == h.d and m == h.x:
                return None
            return h._replace(d=tuple(parts), x=m)
        if h.kind == "dict":
            d = dict(h.d)
            parts = list(h.x[2])
            src = h.x[1]
            for c in cs:
                for k in list(d):
                    if k not in c.d:
                        d.pop(k)
                        src = src or ("opq", "dict", site)
                    elif c.d[k] != d[k]:
                        d[k] = ("phi", site, ("dictval", k), None)
                for k in c.d:
                    if k not in h.d:
                        p = ("kv", k, c.d[k], frozenset(), frozenset(), ())
                        if not any(q[1] == k for q in parts):
                            parts.append(p)
                            keep.update(refs_in(c.d[k]))
                for p in c.x[2]:
                    if not any(q[1] == p[1] for q in parts):
                        parts.append(p)
                        keep.update(refs_in(p[2]))
                if c.x[1] is not None and src is None:
                    src = c.x[1]
            x = (h.x[0], src, tuple(parts))
            if d == h.d and x == h.x:
                return None
            return h._replace(d=d, x=x)
        return None

    @staticmethod
    def _same_alloc(a, b):
        x, y = a[1], b[1]
        return x == y

    @staticmethod
    def _same_rep(q, p):
        if q[2] != p[2]:
            return False
        if q[1] == p[1]:
            return True
        a, b = q[1], p[1]
        if a[0] == "ref" and b[0] == "ref" and isinstance(a[1], tuple) and isinstance(b[1], tuple):
            return strip_n(a[1]) == strip_n(b[1])
        return False


def unself(p, parts, oid):
    """a part whose conditions ask about the very list it is in (is it there already?)"""
    if not p[2] and not p[3]:
        return p
    mine = {q[1] for q in parts if q[0] == "rep"}
    first = parts[0] if parts else None
    subs = {}
    for c in p[2:4]:
        for t, b in c:
            for x in walk(t):
                if x[0] == "list" and x[2] and any(q[0] == "rep" and q[1] in mine for q in x[2]) and (x[2][0] == first or x[2][0][1] in mine):
                    subs[x] = ("opq", "sofar", oid)
    if not subs:
        return p
    big = sorted(subs, key=lambda x: -len(repr(x)))
    out = list(p)
    for i in (2, 3):
        fs = set()
        for t, b in p[i]:
            for x in big:
                if contains(t, x):
                    t = subst(t, {x: subs[x]})
            fs.add((t, b))
        out[i] = frozenset(fs)
    return tuple(out)


def kind_in(st):
    def kind(v):
        o = st.get(v[1]) if v[0] == "ref" else None
        return o.kind if o is not None else None
    return kind


def strip_n(oid):
    while len(oid) > 1 and isinstance(oid[-1], int):
        oid = oid[:-1]
    return oid


def contains_any(t, bs):
    for x in walk(t):
        if x in bs:
            return True
    return False


def refs_in(t):
    return [x[1] for x in walk(t) if x[0] == "ref"]


def refs_of(o):
    out = []
    if o.kind in ("inst", "frame", "xattr", "class"):
        for v in o.d.values():
            out += refs_in(v)
        if o.kind == "frame" and o.x and o.x[0]:
            out.append(o.x[0])
    elif o.kind in ("list", "set", "buf"):
        for p in o.d:
            if p[0] in ("one", "star", "rep"):
                out += refs_in(p[1])
    elif o.kind == "dict":
        for v in o.d.values():
            out += refs_in(v)
        for p in o.x[2]:
            out += refs_in(p[2])
    return out
