"""Program model: every module of the package, parsed from the current working tree.

Nothing from the analysed repository is imported or executed; only `ast` is used.
"""
import ast
import os


class AnalysisError(Exception):
    """The analysis itself cannot give an answer (anchor vanished, source unreadable, budget)."""


class FuncInfo:
    __slots__ = ("qual", "node", "module", "cls", "is_gen", "locals", "params", "is_lambda",
                 "decorators", "globals_", "nonlocals", "cached", "memo_typed", "fid", "body")

    def __repr__(self):
        return f"<fn {self.qual}>"


class ClassInfo:
    __slots__ = ("qual", "node", "module", "bases", "name")

    def __repr__(self):
        return f"<class {self.qual}>"


class Module:
    __slots__ = ("name", "path", "rel", "tree", "is_pkg", "src")


def _own_nodes(node):
    """Nodes of a function body without descending into nested function/class scopes."""
    body = node.body if isinstance(node.body, list) else [node.body]
    stack = list(body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            stack.extend(n.decorator_list)
            if not isinstance(n, ast.ClassDef):
                stack.extend(n.args.defaults)
                stack.extend(d for d in n.args.kw_defaults if d is not None)
            continue
        if isinstance(n, ast.Lambda):
            continue
        stack.extend(ast.iter_child_nodes(n))


def _comp_targets(node):
    """names bound by comprehension targets (their own scope)"""
    out = set()
    for n in ast.walk(node):
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for g in n.generators:
                for t in ast.walk(g.target):
                    if isinstance(t, ast.Name):
                        out.add(id(t))
    return out


class Program:
    def __init__(self, root, package="mabel"):
        self.root = root
        self.package = package
        self.modules = {}
        self.funcs = []          # index -> FuncInfo
        self.func_by_node = {}   # id(node) -> FuncInfo
        self.func_by_qual = {}
        self.classes = {}        # qual -> ClassInfo
        self._load()

    # ---------------------------------------------------------------- loading
    def _load(self):
        base = os.path.join(self.root, self.package)
        if not os.path.isdir(base):
            raise AnalysisError(f"package {self.package} not found under {self.root}")
        for dirpath, dirnames, filenames in os.walk(base):
            dirnames[:] = sorted(d for d in dirnames if d != "__pycache__")
            for fn in sorted(filenames):
                if not fn.endswith(".py"):
                    continue
                path = os.path.join(dirpath, fn)
                rel = os.path.relpath(path, self.root)
                parts = rel[:-3].split(os.sep)
                is_pkg = parts[-1] == "__init__"
                if is_pkg:
                    parts = parts[:-1]
                m = Module()
                m.name = ".".join(parts)
                m.path, m.rel, m.is_pkg = path, rel, is_pkg
                with open(path, "rb") as f:
                    m.src = f.read()
                try:
                    m.tree = ast.parse(m.src, path)
                except SyntaxError as e:
                    raise AnalysisError(f"cannot parse {rel}: {e}")
                self.modules[m.name] = m
                self._index(m)

    def _index(self, m):
        def visit(node, scope, cls):
            for child in ast.iter_child_nodes(node):
                if isinstance(child, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    q = scope + "." + child.name
                    self._add_func(child, q, m, cls)
                    visit(child, q, None)
                elif isinstance(child, ast.Lambda):
                    q = scope + f".<lambda:{child.lineno}:{child.col_offset}>"
                    self._add_func(child, q, m, None)
                    visit(child, q, None)
                elif isinstance(child, ast.ClassDef):
                    q = scope + "." + child.name
                    ci = ClassInfo()
                    ci.qual, ci.node, ci.module, ci.name = q, child, m, child.name
                    ci.bases = None
                    self.classes[q] = ci
                    visit(child, q, q)
                else:
                    visit(child, scope, cls)

        visit(m.tree, m.name, None)

    def _add_func(self, node, qual, m, cls):
        fi = FuncInfo()
        fi.qual, fi.node, fi.module, fi.cls = qual, node, m, cls
        fi.is_lambda = isinstance(node, ast.Lambda)
        fi.decorators = [] if fi.is_lambda else node.decorator_list
        fi.body = [ast.copy_location(ast.Return(value=node.body), node.body)] if fi.is_lambda else node.body
        a = node.args
        fi.params = [p.arg for p in a.posonlyargs + a.args]
        fi.is_gen = False
        fi.globals_, fi.nonlocals = set(), set()
        names = set(fi.params) | {p.arg for p in a.kwonlyargs}
        if a.vararg:
            names.add(a.vararg.arg)
        if a.kwarg:
            names.add(a.kwarg.arg)
        skip = _comp_targets(node)
        for n in _own_nodes(node):
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                fi.is_gen = True
            elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                if id(n) not in skip:
                    names.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                names.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for al in n.names:
                    names.add((al.asname or al.name).split(".")[0])
            elif isinstance(n, ast.ExceptHandler) and n.name:
                names.add(n.name)
            elif isinstance(n, ast.Global):
                fi.globals_.update(n.names)
            elif isinstance(n, ast.Nonlocal):
                fi.nonlocals.update(n.names)
            elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                names.add(n.name)
        fi.locals = names - fi.globals_ - fi.nonlocals
        fi.cached = None
        fi.memo_typed = False
        fi.fid = len(self.funcs)
        self.funcs.append(fi)
        self.func_by_node[id(node)] = fi
        self.func_by_qual.setdefault(qual, fi)

    # ------------------------------------------------------------- resolution
    def resolve_import(self, module, level, name):
        """absolute dotted name for `from <level dots><name> import`"""
        if level == 0:
            return name or ""
        parts = module.name.split(".")
        if not module.is_pkg:
            parts = parts[:-1]
        parts = parts[: len(parts) - (level - 1)]
        if name:
            parts = parts + name.split(".")
        return ".".join(parts)

    def func(self, qual):
        fi = self.func_by_qual.get(qual)
        if fi is None:
            raise AnalysisError(f"anchor vanished: function {qual}")
        return fi
