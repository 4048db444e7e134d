"""Loads private copies of the real code of /repo on every run.

`load(instrument=True)` imports /repo/amanda and /repo/utils from the current
working tree into a private set of module objects.  With instrumentation, the
source of each module is parsed and rewritten mechanically:

  * every `for`/`while` loop gets calls to the verifier's loop rule
    (`__pvc__.for_loop`, `.for_enter`, `.back`, `.for_exit`, `.while_head`), which are
    the identity unless the contract under proof supplies an invariant;
  * `a is b`, `a in b` (and the negations) go through `__pvc__.is_` / `.contains`, and
    the builtins named in BUILTIN_HOOKS resolve to versions that also accept
    the verifier's symbolic values and are the builtin itself on concrete ones.

Nothing is dropped from the code: statements and expressions are kept, in
order, and without symbolic values the rewritten module behaves as the
original (pvc.selfcheck runs both on the same inputs).
"""
import ast
import builtins
import importlib
import importlib.abc
import importlib.machinery
import os
import sys
from contextlib import contextmanager

REPO = os.environ.get("PVC_REPO", "/repo")
ROOTS = ("amanda", "utils")
sys.dont_write_bytecode = True

BUILTIN_HOOKS = ("len", "range", "enumerate", "zip", "any", "all", "map", "reversed", "next")
# called by name with one argument: int(x), float(x), str(x)
CALL_HOOKS = ("int", "float", "str", "list", "type")


COUNTERS = {}  # key of a loop -> the locals that every iteration changes by a constant


def _counters(node, names):
    """Names that the loop assigns once, by a `n += c` that every iteration which
    reaches the back edge has run, and names (None) that no such iteration assigns."""
    out = {}
    reach = True
    for st in node.body:
        if (reach and isinstance(st, ast.AugAssign) and isinstance(st.op, (ast.Add, ast.Sub))
                and isinstance(st.target, ast.Name) and st.target.id in names
                and isinstance(st.value, ast.Constant) and type(st.value.value) is int):
            out[st.target.id] = st.value.value if isinstance(st.op, ast.Add) else -st.value.value
        if any(isinstance(x, ast.Continue) for x in ast.walk(st)):
            reach = False
    def lasts(body):
        """Names that are assigned only where the iteration then leaves the loop."""
        leaves = isinstance(body[-1], (ast.Break, ast.Return, ast.Raise)) and not any(
            isinstance(x, ast.Continue) for st in body for x in ast.walk(st))
        for st in body:
            if leaves and isinstance(st, ast.Assign):
                kept.extend(x.id for t in st.targets for x in ast.walk(t)
                            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store))
            elif isinstance(st, (ast.If, ast.With)):
                lasts(st.body)
                if getattr(st, "orelse", None):
                    lasts(st.orelse)
    kept = []
    lasts(node.body)
    stores = [x.id for st in node.body for x in ast.walk(st)
              if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))]
    found = {n: c for n, c in out.items() if stores.count(n) == 1}
    found.update({n: None for n in set(kept) if n in names and stores.count(n) == kept.count(n)})
    return found


class _LoopVars(ast.NodeVisitor):
    """Names assigned in a loop body (not in nested functions)."""

    def __init__(self):
        self.names = []

    def add(self, n):
        if n not in self.names:
            self.names.append(n)

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.add(n.id)

    def visit_FunctionDef(self, n):
        self.add(n.name)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Lambda(self, n):
        pass

    def visit_ListComp(self, n):
        for sub in ast.walk(n):
            if isinstance(sub, ast.NamedExpr):
                self.add(sub.target.id)

    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

    def visit_MatchAs(self, n):
        if n.name:
            self.add(n.name)
        self.generic_visit(n)

    def visit_MatchStar(self, n):
        if n.name:
            self.add(n.name)

    def visit_MatchMapping(self, n):
        if n.rest:
            self.add(n.rest)
        self.generic_visit(n)

    def visit_ExceptHandler(self, n):
        if n.name:
            self.add(n.name)
        self.generic_visit(n)


def _call(attr, *args):
    return ast.Call(
        func=ast.Attribute(ast.Name("__pvc__", ast.Load()), attr, ast.Load()),
        args=list(args), keywords=[],
    )


class Instrument(ast.NodeTransformer):
    def __init__(self, modname):
        self.modname = modname
        self.stack = []
        self.counts = {}
        self.loops = []  # enclosing loop ids within the current function
        self.n = 0
        self.depth = 0  # module-level code runs natively

    def qual(self):
        return ".".join([self.modname] + self.stack)

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        node = self.generic_visit(node)
        self.stack.pop()
        if node.name == "ASTNode" and not node.keywords:
            # what the class of a stub is, is for its contract to say
            node.keywords.append(ast.keyword("metaclass", ast.Attribute(ast.Name("__pvc__", ast.Load()), "NodeMeta", ast.Load())))
        return node

    def visit_FunctionDef(self, node):
        self.stack.append(node.name)
        saved, self.loops = self.loops, []
        self.depth += 1
        node = self.generic_visit(node)
        self.depth -= 1
        self.loops = saved
        self.stack.pop()
        return node

    def visit_Lambda(self, node):
        saved, self.loops = self.loops, []
        node = self.generic_visit(node)
        self.loops = saved
        return node

    def _key(self, kind):
        q = self.qual()
        i = self.counts.get(q, 0)
        self.counts[q] = i + 1
        return q, i, kind

    def _loop(self, node, kind):
        if not self.depth:
            return self.generic_visit(node)
        key = self._key(kind)
        self.n += 1
        tmp = f"__pvc_L{self.n}"
        lv = _LoopVars()
        for st in node.body:
            lv.visit(st)
        if kind == "for":
            tv = _LoopVars()
            tv.visit(node.target)
            names = [n for n in lv.names if n not in tv.names]
        else:
            lv.visit(node.test)
            names = lv.names
        # names declared global/nonlocal are left alone
        banned = set()
        for sub in ast.walk(node):
            if isinstance(sub, (ast.Global, ast.Nonlocal)):
                banned |= set(sub.names)
        names = [n for n in names if n not in banned and not n.startswith("__pvc")]
        if kind == "for":
            steps = _counters(node, names)
            # (two modules may have functions of one name)
            COUNTERS[key] = steps if COUNTERS.get(key, steps) == steps else {}
            node.iter = self.visit(node.iter)
        else:
            node.test = self.visit(node.test)
        self.loops.append(tmp)
        body = []
        for st in node.body:
            r = self.visit(st)
            body += r if isinstance(r, list) else [r]
        self.loops.pop()
        orelse = []
        for st in node.orelse:
            r = self.visit(st)
            orelse += r if isinstance(r, list) else [r]
        L = lambda: ast.Name(tmp, ast.Load())
        loc = lambda: ast.Call(ast.Name("locals", ast.Load()), [], [])
        keyc = ast.Constant(key)
        namesc = ast.Constant(tuple(names))

        def havoc(attr):
            call = _call(attr, L(), loc())
            if not names:
                return [ast.Expr(call)]
            tgt = ast.Tuple([ast.Name(n, ast.Store()) for n in names], ast.Store())
            return [ast.If(
                ast.Attribute(L(), "cut", ast.Load()),
                [ast.Assign([tgt], call)], [])]

        back = ast.Expr(_call("back", L(), loc()))
        if kind == "for":
            pre = ast.Assign([ast.Name(tmp, ast.Store())],
                             _call("for_loop", keyc, namesc, node.iter, loc()))
            node.iter = L()
            node.body = havoc("for_enter") + body + [back]
            node.orelse = havoc("for_exit") + orelse
            out = [pre, node]
        else:
            pre = ast.Assign([ast.Name(tmp, ast.Store())],
                             _call("while_loop", keyc, namesc, loc()))
            node.body = body + [back]
            node.orelse = orelse
            out = [pre] + havoc("while_head") + [node]
        return out

    def visit_For(self, node):
        return self._loop(node, "for")

    def visit_While(self, node):
        return self._loop(node, "while")

    def visit_Call(self, node):
        node = self.generic_visit(node)
        if (isinstance(node.func, ast.Name) and node.func.id in CALL_HOOKS
                and len(node.args) == 1 and not node.keywords
                and not isinstance(node.args[0], ast.Starred)):
            if node.func.id == "type":
                node.args.append(node.func)
            node.func = ast.Attribute(ast.Name("__pvc__", ast.Load()), "b_" + node.func.id, ast.Load())
        return node

    def _comp(self, node, kind):
        """One-generator comprehensions become calls, so that a contract may give
        the rule for a sequence of arbitrary length."""
        node = self.generic_visit(node)
        if not self.depth or len(node.generators) != 1:
            return node
        g = node.generators[0]
        if g.is_async or any(isinstance(x, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await))
                             for x in ast.walk(node)):
            return node

        def target(body):
            if isinstance(g.target, ast.Name):
                return ast.Lambda(ast.arguments([], [ast.arg(g.target.id)], None, [], [], None, []), body)
            if isinstance(g.target, ast.Tuple) and all(isinstance(e, ast.Name) for e in g.target.elts):
                inner = ast.Lambda(ast.arguments([], [ast.arg(e.id) for e in g.target.elts], None, [], [], None, []), body)
                return ast.Lambda(
                    ast.arguments([], [ast.arg("__pvc_x")], None, [], [], None, []),
                    ast.Call(inner, [ast.Starred(ast.Name("__pvc_x", ast.Load()), ast.Load())], []))
            return None

        f = target(node.elt if kind != "dict" else ast.Tuple([node.key, node.value], ast.Load()))
        if f is None:
            return node
        cond = ast.Constant(None)
        if g.ifs:
            cond = target(g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(ast.And(), list(g.ifs)))
        return _call("comp", ast.Constant(kind), ast.Constant(self._key("comp")), g.iter, f, cond)

    def visit_ListComp(self, node):
        return self._comp(node, "list")

    def visit_GeneratorExp(self, node):
        return self._comp(node, "gen")

    def visit_DictComp(self, node):
        return self._comp(node, "dict")

    def visit_SetComp(self, node):
        return self._comp(node, "set")

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                if v.conversion != -1 or v.format_spec is not None:
                    return self.generic_visit(node)
                parts.append(ast.Tuple([self.visit(v.value)], ast.Load()))
            else:
                parts.append(v)
        return _call("fstr", *parts)

    def visit_Continue(self, node):
        if not self.loops:
            return node
        L = ast.Name(self.loops[-1], ast.Load())
        return [ast.Expr(_call("back", L, ast.Call(ast.Name("locals", ast.Load()), [], []))), node]

    def visit_Compare(self, node):
        node = self.generic_visit(node)
        if len(node.ops) != 1:
            return node
        op, a, b = node.ops[0], node.left, node.comparators[0]
        const = lambda e: isinstance(e, ast.Constant)
        if isinstance(op, (ast.Is, ast.IsNot)) and not (const(a) or const(b)):
            c = _call("is_", a, b)
        elif isinstance(op, (ast.In, ast.NotIn)):
            c = _call("contains", a, b)
        else:
            return node
        if isinstance(op, (ast.IsNot, ast.NotIn)):
            return ast.UnaryOp(ast.Not(), c)
        return c


class _Loader(importlib.abc.Loader):
    def __init__(self, ns, path, is_pkg):
        self.ns, self.path, self.is_pkg = ns, path, is_pkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding="utf8") as f:
            src = f.read()
        tree = ast.parse(src, self.path)
        if self.ns.instrument:
            tree = Instrument(module.__name__).visit(tree)
            ast.fix_missing_locations(tree)
        module.__dict__["__pvc__"] = self.ns.hooks
        code = compile(tree, self.path, "exec")
        exec(code, module.__dict__)
        if self.ns.instrument:
            for b in BUILTIN_HOOKS:
                if b not in module.__dict__:
                    module.__dict__[b] = getattr(self.ns.hooks, "b_" + b)


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, ns):
        self.ns = ns

    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] not in ROOTS:
            return None
        base = os.path.join(self.ns.root, *name.split("."))
        if os.path.isdir(base):
            init = os.path.join(base, "__init__.py")
            if os.path.isfile(init):
                return self._fix(name, init, True)
            spec = importlib.machinery.ModuleSpec(name, None, is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        f = base + ".py"
        if os.path.isfile(f):
            return self._fix(name, f, False)
        return None

    def _fix(self, name, f, pkg):
        return importlib.util.spec_from_file_location(
            name, f, loader=_Loader(self.ns, f, pkg),
            submodule_search_locations=[os.path.dirname(f)] if pkg else None)


class Namespace:
    def __init__(self, instrument, hooks, root):
        self.instrument, self.hooks, self.root = instrument, hooks, root
        self.modules = {}

    @contextmanager
    def active(self):
        saved = {k: sys.modules.pop(k) for k in list(sys.modules)
                 if k.split(".")[0] in ROOTS}
        sys.modules.update(self.modules)
        finder = _Finder(self)
        sys.meta_path.insert(0, finder)
        try:
            yield self
        finally:
            sys.meta_path.remove(finder)
            for k in list(sys.modules):
                if k.split(".")[0] in ROOTS:
                    self.modules[k] = sys.modules.pop(k)
            sys.modules.update(saved)

    def mod(self, name):
        if name not in self.modules:
            with self.active():
                importlib.import_module(name)
        return self.modules[name]

    def __getitem__(self, name):
        return self.mod(name)


ALL = (
    "amanda.compiler.tokens", "amanda.compiler.error", "amanda.compiler.ast",
    "amanda.compiler.module", "amanda.compiler.symbols.base", "amanda.compiler.symbols.core",
    "amanda.compiler.types.core", "amanda.compiler.types.builtins", "amanda.compiler.ops",
    "amanda.compiler.parse", "amanda.compiler.transform", "amanda.compiler.check.core",
    "amanda.compiler.check.iguala", "amanda.compiler.check.uniao",
    "amanda.compiler.check.exhaustiveness", "amanda.compiler.codegen",
    "amanda.compiler.bindump", "amanda.compiler.builtinfn", "amanda.config", "amanda.compiler",
)


def load(instrument=False, hooks=None, root=None):
    import importlib.util  # noqa
    ns = Namespace(instrument, hooks, root or REPO)
    with ns.active():
        for m in ALL:
            try:
                importlib.import_module(m)
            except ModuleNotFoundError as e:
                # a module that was renamed or merged away is not an error of
                # the code: contracts that need it report "undecided"
                if not (e.name or "").startswith(ROOTS):
                    raise
    return ns
