"""The abstract interpreter: a path-sensitive, flow-sensitive, context-sensitive dataflow analysis.

It walks the syntax tree of the current source.  Values are provenance terms, branches record what
they assume, loops are run to a fixpoint with widening, and effects are recorded as events.  No code
of the analysed package is executed and no solver is involved.
"""
import ast
import sys

from .terms import *
from .state import Obj, Ev, State, merge, KEEP
from .program import AnalysisError
from .ops import Ops
from .stmts import Stmts, Fr
from .exprs import Exprs
from .calls import Access
from .apply import Apply

sys.setrecursionlimit(20000)


class Interp(Stmts, Exprs, Access, Apply, Ops):
    def __init__(self, prog, stop=(), on_call=None, raisers=None, watch=None, keep_log=False,
                 budget=4_000_000, max_states=64, hard_max=1500, ret_max=12, noraise=(), extra_pure=(), keep_facts=False, factless=("set", "iter", "enditer", "mut", "log")):
        self.prog = prog
        self.stop = set(stop)
        self.on_call = None
        self.on_turn = None  # (head, states at the end of a turn, node, frame) of while loops
        self.raisers = None
        self.watch = lambda k, n: False
        self.keep_log = False
        self.budget = budget
        self.max_states = max_states
        self.hard_max = hard_max
        self.ret_max = ret_max
        self.keep_facts = keep_facts
        self.squeezed = 0
        self.recursion = 1          # how often a function may be on the stack before its calls are left opaque
        self.while_turns = 0        # > 0: while loops are followed turn by turn, at most so many
        self.ordered_sets = False   # zip() pairs the known elements of a set in the order loops see them
        self.collapsed = {}
        self.noraise = set(noraise)
        self.extra_pure = set(extra_pure)
        self.factless = set(factless)
        self.trace_calls = False
        self.steps = 0
        self.deadline = float("inf")
        self.hook = None        # sees every event as it happens, also on paths that never finish
        self.cur_exc = []
        self._loads = {}
        self._ctx = {}
        self._mro = {}
        self._defaults = {}
        self.ctxmgrs = set()
        self.base = {}
        self._evaluated = set()
        self._evaluating = []
        self.module_errors = []
        for m in prog.modules:
            self.eval_module(m)
        self.steps = 0
        self.on_call = on_call
        self.raisers = raisers
        self.watch = watch
        self.keep_log = keep_log

    # ------------------------------------------------------------------ modules
    def fresh(self):
        return State(self.base, {}, {}, (), (), ())

    def eval_module(self, name):
        if name in self._evaluated:
            return
        self._evaluated.add(name)
        m = self.prog.modules.get(name)
        if m is None:
            return
        oid = "mod:" + name
        self.base[oid] = Obj("frame", None, {"__name__": C(name)}, (None, name, True))
        self._evaluating.append(name)
        fr = Fr(None, oid, mod=m)
        try:
            self.toplevel(m.tree.body, fr)
        finally:
            self._evaluating.pop()

    def toplevel(self, body, fr):
        for node in body:
            st = self.fresh()
            if isinstance(node, ast.If) and "TYPE_CHECKING" in ast.dump(node.test):
                continue
            try:
                outs = self.stmt(node, st, fr.sub(in_try=False))
            except AnalysisError as e:
                self.module_errors.append((fr.mod.rel, getattr(node, "lineno", 0), str(e)))
                outs = []
            outs = [o for o in outs if o[1] == "n"]
            if outs:
                self.base.update(outs[0][0].over)
            else:
                # value unknown: names become opaque
                st = self.fresh()
                o = self.base[fr.oid]
                d = dict(o.d)
                for n in ast.walk(node):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        d.setdefault(n.id, ("opq", "module-value", fr.mod.name, n.id))
                self.base[fr.oid] = o._replace(d=d)

    # ------------------------------------------------------------------ definitions
    def s_import(self, node, st, fr):
        for al in node.names:
            if al.asname:
                st = self.bind(st, fr, al.asname, self.mod_value(al.name))
            else:
                top = al.name.split(".")[0]
                st = self.bind(st, fr, top, self.mod_value(top))
        return [(st, "n", None)]

    def mod_value(self, name):
        if name in self.prog.modules:
            return ("mod", name)
        return ("ext", name)

    def s_importfrom(self, node, st, fr):
        base = self.prog.resolve_import(fr.mod, node.level, node.module)
        for al in node.names:
            if al.name == "*":
                if base in self.prog.modules:
                    self.eval_module(base)
                    o = self.base.get("mod:" + base)
                    allv = o.d.get("__all__")
                    for k, v in list(o.d.items()):
                        if not k.startswith("_"):
                            st = self.bind(st, fr, k, v if v[0] == "glob" else v)
                continue
            if base in self.prog.modules or base.split(".")[0] == self.prog.package:
                v = ("glob", base, al.name)
            else:
                v = ("ext", base + "." + al.name)
            st = self.bind(st, fr, al.asname or al.name, v)
        return [(st, "n", None)]

    def s_funcdef(self, node, st, fr):
        fi = self.prog.func_by_node[id(node)]
        st = self.capture(st, fr.oid)
        parent = fr.oid
        # functions defined in a class body see the enclosing scope, not the class scope
        o = st.get(parent)
        if o is not None and o.x and isinstance(o.x[1], str) and o.x[1].startswith("#class:"):
            parent = o.x[0]
        v = ("fn", fi.qual, parent, fi.fid)
        sink = []
        cur = [(st, v)]
        for dec in reversed(node.decorator_list):
            nxt = []
            for s, val in cur:
                for s1, d in self.ev(dec, s, fr, sink):
                    nxt.extend(self.decorate(s1, d, val, fr, dec, sink))
            cur = nxt
        return [(self.bind(s, fr, node.name, val), "n", None) for s, val in cur] + sink

    def decorate(self, st, d, val, fr, node, sink):
        n = d[1] if d[0] == "ext" else None
        if n in ("builtins.property", "functools.cached_property", "abc.abstractproperty"):
            return [(st, ("prop", val))]
        if n in ("builtins.staticmethod", "abc.abstractstaticmethod"):
            return [(st, ("smeth", val))]
        if n in ("builtins.classmethod", "abc.abstractclassmethod"):
            return [(st, ("cmeth", val))]
        if n in ("abc.abstractmethod", "typing.overload", "typing.no_type_check", "typing.final"):
            return [(st, val)]
        if n in ("functools.lru_cache", "functools.cache"):
            return [(st, self.mark_cached(val, {}))]
        if n in ("contextlib.contextmanager",):
            self.ctxmgrs.add(val[3])
            return [(st, val)]
        if d[0] == "attr" and d[1][0] == "prop":
            return [(st, d[1])]
        return self.apply(st, d, (val,), {}, fr, node, sink)

    def s_classdef(self, node, st, fr):
        ci = None
        for c in self.prog.classes.values():
            if c.node is node:
                ci = c
        qual = ci.qual
        sink = []
        bases = []
        for b in node.bases:
            for s, v in self.ev(b, st, fr, sink)[:1]:
                if v[0] in ("cls", "ext"):
                    bases.append(v)
                elif v[0] == "item" and v[1][0] in ("ext", "cls"):
                    bases.append(v[1])
                else:
                    bases.append(("ext", "#unknown-base"))
        self.base["cls:" + qual] = Obj("class", qual, {}, tuple(bases))
        if fr.fi is None:
            oid = ("classbody", qual)
            st2 = st.put(oid, Obj("frame", None, {}, (fr.oid, "#class:" + qual, True)))
            f2 = Fr(None, oid, cls=qual, mod=fr.mod, ctx=fr.ctx)
        else:
            oid = ("classbody", qual)
            st2 = st.put(oid, Obj("frame", None, {}, (fr.oid, "#class:" + qual, True)))
            f2 = fr.sub(oid=oid, cls=qual)
        s = st2
        for stmt in node.body:
            outs = [o for o in self.stmt(stmt, s, f2) if o[1] == "n"]
            if outs:
                s = outs[0][0]
        d = dict(s.get(oid).d)
        s = s.drop(oid)
        tmp = Obj("class", qual, d, tuple(bases))
        self.base["cls:" + qual] = tmp
        if self.is_enum(s, qual):
            for k, v in list(d.items()):
                if not k.startswith("_") and v[0] not in ("fn", "prop", "smeth", "cmeth"):
                    d[k] = ("enumval", v)
            self.base["cls:" + qual] = tmp._replace(d=d)
        s = self.bind(s, fr, node.name, ("cls", qual))
        return [(s, "n", None)]

    # ------------------------------------------------------------------ entry points
    def entry_fr(self, mod=None):
        m = self.prog.modules[mod] if mod else next(iter(self.prog.modules.values()))
        return Fr(None, "mod:" + m.name, mod=m)

    def value(self, dotted):
        """package object by dotted name: module attribute, class attribute"""
        parts = dotted.split(".")
        for i in range(len(parts), 0, -1):
            m = ".".join(parts[:i])
            if m in self.prog.modules:
                v = ("mod", m)
                for p in parts[i:]:
                    sink = []
                    r = self.getattr(self.fresh(), v, p, self.entry_fr(m), None, sink)
                    if not r:
                        raise AnalysisError("anchor vanished: " + dotted)
                    v = r[0][1]
                    if v[0] == "ext" or (v[0] == "attr"):
                        raise AnalysisError("anchor vanished: " + dotted)
                return v
        raise AnalysisError("anchor vanished: " + dotted)

    def call(self, st, f, args=(), kw=None, in_try=False, on_yield=None):
        """run a call -> outcomes [(state, 'ret'|'raise', value)]"""
        KEEP[:] = self.keep_facts, max(600, self.max_states)
        sink = []
        node = ast.parse("entry()").body[0].value
        fr = self.entry_fr()
        fr.in_try = in_try
        res = [(s, "ret", v) for s, v in self.apply(st, f, tuple(args), dict(kw or {}), fr, node, sink)]
        return res + [(s, k, v) for s, k, v in sink if k == "raise"]

    def method(self, st, recv, name, args=(), kw=None, in_try=False):
        KEEP[:] = self.keep_facts, max(600, self.max_states)
        sink = []
        node = ast.parse("entry()").body[0].value
        fr = self.entry_fr()
        fr.in_try = in_try
        res = [(s, "ret", v) for s, v in self.call_method(st, recv, name, tuple(args), dict(kw or {}), fr, node, sink)]
        return res + [(s, k, v) for s, k, v in sink if k == "raise"]

    def drain(self, st, v, on=None):
        """iterate a result to its end; outcomes"""
        KEEP[:] = self.keep_facts, max(600, self.max_states)
        sink = []
        node = ast.parse("entry()").body[0].value
        fr = self.entry_fr()

        def body(s, e):
            s = self.emit(s, "out", "out", None, (self.freeze(s, e),), {}, e, fr, node)
            if on is not None:
                return on(s, e)
            return [(s, "n", None)]
        return self.iterate(st, v, ("entry:drain", "c"), fr, body, node)

    def clear(self, st):
        return st.with_(trace=(), facts={})


Interp._dispatch = {
    ast.Expr: Stmts.s_expr, ast.Pass: Stmts.s_pass, ast.Return: Stmts.s_return, ast.Break: Stmts.s_break,
    ast.Continue: Stmts.s_continue, ast.Assign: Stmts.s_assign, ast.AnnAssign: Stmts.s_annassign,
    ast.AugAssign: Stmts.s_augassign, ast.If: Stmts.s_if, ast.Assert: Stmts.s_assert, ast.Raise: Stmts.s_raise,
    ast.Delete: Stmts.s_delete, ast.Global: Stmts.s_global, ast.Nonlocal: Stmts.s_global, ast.Try: Stmts.s_try,
    ast.With: Stmts.s_with, ast.AsyncWith: Stmts.s_with, ast.For: Stmts.s_for, ast.AsyncFor: Stmts.s_for, ast.While: Stmts.s_while,
    ast.Import: Interp.s_import, ast.ImportFrom: Interp.s_importfrom, ast.FunctionDef: Interp.s_funcdef,
    ast.AsyncFunctionDef: Interp.s_funcdef, ast.ClassDef: Interp.s_classdef,
}
