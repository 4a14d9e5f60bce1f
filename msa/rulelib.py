"""Shared machinery for the rules: obligations, findings, arbitrary-state construction."""
import ast
import time

from .program import Program, AnalysisError
from .interp import Interp
from .state import Obj, Ev, State, merge
from .terms import *
from .ops import is_nat, is_pos


class Check:
    """collects the obligations of one property and the constructs that violate them"""

    def __init__(self, prop, prog, tier):
        self.prop, self.prog, self.tier = prop, prog, tier
        self.findings = []      # dicts
        self.obligations = {}   # rule -> count
        self.failed = {}        # rule -> count
        self.analysed = set()
        self.paths = 0
        self.notes = []
        self.boost = False      # second look at what was found, with far fewer joins
        self.interps = []
        self.deadline = time.monotonic() + 330

    def interp(self, **kw):
        if self.tier == "thorough":
            kw.setdefault("max_states", 400)
            kw.setdefault("hard_max", 6000)
            kw.setdefault("ret_max", 48)
            kw.setdefault("budget", 30_000_000)
        if self.boost:
            for n, low in (("max_states", 600), ("hard_max", 8000), ("ret_max", 400), ("budget", 40_000_000)):
                kw[n] = max(kw.get(n) or 0, low)
        I = Interp(self.prog, **kw)
        I.deadline = self.deadline
        self.interps.append(I)
        return I

    def saw(self, *quals):
        for q in quals:
            self.analysed.add(q)

    def took(self, outs):
        self.paths += len(outs)
        return outs

    def ob(self, rule, construct, ok, message, where=None, path=None):
        """one obligation; when it fails it becomes a finding keyed by rule+construct"""
        self.obligations[rule] = self.obligations.get(rule, 0) + 1
        if ok:
            return True
        self.failed[rule] = self.failed.get(rule, 0) + 1
        key = f"{rule}|{construct}"
        for f in self.findings:
            if f["key"] == key:
                f["count"] += 1
                return False
        self.findings.append({"key": key, "rule": rule, "construct": construct, "message": message,
                              "where": fmt_where(where), "path": path or [], "count": 1})
        return False

    def need(self, rule, n=1):
        """the rule must have had something to say"""
        if self.obligations.get(rule, 0) < n and not self.findings:
            raise AnalysisError(f"rule {rule} found {self.obligations.get(rule, 0)} instances (expected at least {n}): anchor vanished?")


def fmt_where(w):
    if w is None:
        return ""
    if isinstance(w, str):
        return w
    if isinstance(w, Ev):
        w = w.where
    return f"{w[0]}:{w[1]} ({w[2]})"


def steps(st, last=14):
    """human readable event path of an outcome"""
    out = []
    for e in st.trace[-last:]:
        if e.kind in ("iter", "enditer"):
            continue
        out.append(f"{e.where[0]}:{e.where[1]} {e.kind} {e.name}" + (f"({', '.join(show(a, 3)[:60] for a in e.args)})" if e.args else ""))
    return out


# ---------------------------------------------------------------------- arbitrary states
def attrs_written(prog, I, qual):
    """attributes assigned by any method other than __init__ along the MRO"""
    out = set()
    for q in I.mro(None, qual):
        ci = prog.classes.get(q)
        if ci is None:
            continue
        for n in ci.node.body:
            if not isinstance(n, ast.FunctionDef) or n.name == "__init__" or not n.args.args:
                continue
            me = n.args.args[0].arg
            for x in ast.walk(n):
                t = None
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)) and isinstance(x.value, ast.Name) and x.value.id == me:
                    out.add(x.attr)
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "setattr" and len(x.args) == 3 and isinstance(x.args[1], ast.Constant):
                    out.add(x.args[1].value)
    return out


def havoc_value(I, st, v, name, depth_loops=0):
    """an arbitrary later value for something whose initial value is v -> (state, value)"""
    if v[0] == "ref":
        o = st.get(v[1])
        if o.kind in ("list", "set", "buf"):
            return st.put(v[1], o._replace(d=(("star", S(name, {"buf": "bytearray"}.get(o.kind, o.kind))),), x=(len(st.loops), ()))), v
        if o.kind == "dict":
            return st.put(v[1], o._replace(d={}, x=(len(st.loops), S(name, "dict"), ()))), v
        return st, v
    if is_nat(v) and not isinstance(cval(v), bool):
        return st, S(name, "nat")
    if v[0] == "c" and isinstance(v[2], bool):
        return st, S(name, "bool")
    if v[0] == "c" and isinstance(v[2], str):
        return st, S(name, "str")
    if v[0] in ("fn", "bm", "cls", "mod", "partial"):
        return st, v
    return st, S(name)


def havoc(I, st, ref, keep=(), only=None, prefix="self."):
    """put an instance in the state an arbitrary history of method calls could have left it in"""
    o = st.get(ref[1])
    written = attrs_written(I.prog, I, o.cls)
    names = []
    for k in list(o.d):
        v = o.d[k]
        container = v[0] == "ref" and st.get(v[1]) is not None and st.get(v[1]).kind in ("list", "set", "buf", "dict")
        if (k in written or container) and k not in keep and (only is None or k in only):
            st, nv = havoc_value(I, st, v, prefix + k)
            oo = st.get(ref[1])
            d = dict(oo.d)
            d[k] = nv
            st = st.put(ref[1], oo._replace(d=d))
            names.append(k)
    # class-level defaults that methods overwrite
    for k in written:
        if k in o.d or k in keep or (only is not None and k not in only):
            continue
        v, q = I.class_attr(st, o.cls, k)
        if v is not None and v[0] not in ("fn", "prop", "smeth", "cmeth"):
            st, nv = havoc_value(I, st, v, prefix + k) if v[0] != "ref" else (st, v)
            oo = st.get(ref[1])
            d = dict(oo.d)
            d[k] = nv
            st = st.put(ref[1], oo._replace(d=d))
            names.append(k)
    return st, names


def build(I, cls, args=(), kw=None, ck=None):
    """instances a constructor can produce: [(state, ref)] (events muted)"""
    w, I.watch = I.watch, (lambda k, n: False)
    oc, I.on_call = I.on_call, I.on_call
    r, I.raisers = I.raisers, None
    try:
        outs = I.call(I.fresh(), cls, args, kw or {})
    finally:
        I.watch, I.raisers = w, r
    good = [(s, v) for s, k, v in outs if k == "ret"]
    if not good:
        raise AnalysisError(f"constructor of {show(cls)} never returns")
    return good


def shapes(I, good, limit=6):
    """distinct resulting heaps up to facts"""
    out, seen = [], set()
    for s, v in good:
        o = s.get(v[1])
        key = repr(sorted((k, repr(I.freeze(s, x))) for k, x in o.d.items()))
        if key not in seen:
            seen.add(key)
            out.append((s, v))
    return out[:limit] if limit else out


def events(st, kind=None, name=None):
    for i, e in enumerate(st.trace):
        if kind is not None and e.kind != kind:
            continue
        if name is not None and e.name != name:
            continue
        yield i, e


def arg(e, pos=None, name=None):
    """argument of a call event by keyword or position"""
    for k, v in e.kw:
        if k == name:
            return v
    if pos is not None and pos < len(e.args):
        return e.args[pos]
    return None


def mentions(t, sub):
    return t is not None and contains(t, sub)


def derived(t, pred):
    return t is not None and any_term(t, pred)


def compact(I, outs, ref, kinds=("ret", "raise")):
    """one representative per (kind, resulting object state); what the merged paths assumed is dropped
    unless all of them assumed it"""
    groups = {}
    for s, k, v in outs:
        if k in kinds:
            groups.setdefault((k, heap_key(I, s, ref)), []).append((s, v))
    out = []
    for (k, _), g in groups.items():
        s, v = g[0]
        facts = {f: t for f, t in s.facts.items() if all(o.facts.get(f, None) == t for o, _ in g)} if len(g) > 1 else s.facts
        out.append((s.with_(facts=facts), k, v))
    return out


def heap_key(I, s, ref, seen=()):
    o = s.get(ref[1])
    parts = []
    for k in sorted(o.d, key=str):
        x = o.d[k]
        xo = s.get(x[1]) if x[0] == "ref" else None
        if xo is not None and xo.kind == "inst" and x not in seen:
            parts.append((k, heap_key(I, s, x, seen + (ref,))))
        else:
            parts.append((k, repr(I.freeze(s, x))))
    return tuple(parts)
