"""Contracts of the loading of modules (amanda/compiler/check/core.py).

The table of modules holds those that are being loaded and those that are loaded, the
latter in the order in which they finished, so a module stands after every module it
imports: that is the order in which the generator compiles and the machine runs them.
`load_module` keeps this for any table (other entries are never looked at), the module
itself being loaded by contract.
"""
from pvc.engine import PathEnd, Unsupported
from pvc.seq import DictView, SymSeq, View
from .checker import step, in_depth
from .gen import shadow


class Table(dict):
    """The table of modules: what it holds besides the modules spoken of is unknown."""

    def _no(self, *a):
        raise Unsupported("the whole table of modules")

    __iter__ = keys = values = items = __len__ = popitem = copy = update = __or__ = __ior__ = _no

    def known(self):
        return list(dict.keys(self))


def mod(W, path, **kw):
    m = type(W.module)(path)
    for k, v in kw.items():
        setattr(m, k, v)
    return m


def refuse(W):
    if W.cx.choose("the module is", ["fine", "refused"]) == "refused":
        e = W.err.AmandaError.common_error("/m/{x}.ama", "within", 3)
        e.pvc_modelled = True
        W.rejected_by = e
        raise e


@step("loading a module", "C12 C13", "load_module")
def load(W):
    an, A = W.an, type(W.an)
    state = W.cx.choose("the module is", ["new", "being loaded", "loaded"])
    older, being = mod(W, "/m/older.ama", loaded=True), W.module
    table = Table()
    table[being.fpath], table[older.fpath] = being, older
    first = mod(W, "/m/{x}.ama", loaded=state == "loaded")
    if state != "new":
        table[first.fpath] = first
    order = table.known()
    asked = mod(W, "/m/{x}.ama")
    W.set(an, imports=table, ctx_module=being)
    mode = W.cx.choose("form", list(W.ast.UsaMode))
    loads, seen = [], []
    inner = mod(W, "/m/inner.ama", loaded=True)

    def load_module_scoped(self, m):
        W.prove("C12", "loading: a module that is being loaded is known to be", dict.get(table, "/m/{x}.ama") is m and not m.loaded)
        W.prove("C12", "loading: the module asked for", m.fpath == "/m/{x}.ama" and self is an)
        loads.append(m)
        refuse(W)
        # what it imports is loaded meanwhile
        if W.cx.flag("it imports another"):
            dict.__setitem__(table, inner.fpath, inner)
        return m, table
    W.cx.patch(A, "load_module_scoped", load_module_scoped)

    def define(kind):
        def f(self, *a, **k):
            seen.append((kind, a, k, dict.get(table, "/m/{x}.ama").loaded))
            W.an.ctx_node = W.at_line(60)
        return f
    W.cx.patch(A, "define_module_symbols", define("all"))
    W.cx.patch(A, "define_module_alias", define("alias"))
    W.cx.patch(A, "define_module_items", define("items"))
    W.an.ctx_node = W.at_line(55)
    W.before = W.context()
    items = ["a", "b"]
    W.settle(W.cx.call(an.load_module, asked, mode, alias="m", usa_items=items))
    W.verdict("C12", "loading: refused exactly when the module is being loaded", state != "being loaded")
    m = dict.get(table, "/m/{x}.ama")
    W.prove("C12", "loading: a module is loaded once", len(loads) == (1 if state == "new" else 0))
    W.prove("C12", "loading: the one module of its path", m is (first if state == "loaded" else loads[0]))
    W.prove("C12", "loading: the module is loaded now", m.loaded is True)
    ks = table.known()
    if state == "loaded":
        W.prove("C12", "loading: the order of the modules stays", ks == order)
    else:
        W.prove("C12", "loading: a module stands after every one it imports",
                ks == order + ([inner.fpath] if dict.get(table, inner.fpath) else []) + ["/m/{x}.ama"])
    W.prove("C12", "loading: the other modules stay", dict.get(table, being.fpath) is being and dict.get(table, older.fpath) is older
            and not being.loaded and older.loaded)
    M = W.ast.UsaMode
    want = {M.Global: "all", M.Scoped: "alias", M.Item: "items"}[mode]
    ok = len(seen) == 1 and seen[0][0] == want
    W.prove("C12", "loading: then its names are made visible, in the form written", ok and seen[0][3])
    a, k = seen[0][1:3] if ok else ((), {})
    vals = list(a) + list(k.values())
    W.prove("C12", "loading: the names of that module", any(v is m for v in vals))
    if want == "alias":
        W.prove("C12", "loading: under the name written", "m" in [v for v in vals if isinstance(v, str)])
    if want == "items":
        W.prove("C12", "loading: the names written", any(v is items for v in vals))
    W.restored()


@step("a module of its own", "C12", "load_module_scoped", covers=["done"])
def scoped(W):
    an, A = W.an, type(W.an)
    m = mod(W, "/m/{x}.ama")
    table = Table()
    paths = ["/p"]
    W.set(an, imports=table, import_paths=paths)
    made, parsed = [], []
    tree = object()

    class Other:
        def __init__(self, *a, **k):
            made.append(self)
            self.args = list(a) + list(k.values())
            self.imports = {}
            self.visited = []

        def visit_module(self, t):
            self.visited.append((t, self.imports))
            refuse(W)
            return m, self.imports

        def visit(self, t, args=None):
            return self.visit_module(t)
    shadow(W.cx, W.core, "Analyzer", Other)

    def parse(path):
        parsed.append(path)
        return tree
    shadow(W.cx, W.core, "parse", parse)
    W.before = W.context()
    out = W.cx.call(an.load_module_scoped, m)
    W.settle(out)
    W.prove("C12", "a module is checked on its own", out.ok and len(made) == 1 and any(x is m for x in made[0].args) and
            any(x is paths for x in made[0].args))
    W.prove("C12", "a module is read once, from its own file", parsed == ["/m/{x}.ama"])
    W.prove("C12", "a module is checked once", len(made) == 1 and len(made[0].visited) == 1 and made[0].visited[0][0] is tree)
    W.prove("C12", "modules share the one table", made[0].visited[0][1] is table and an.imports is table)
    W.restored()
    W.cx.cover("done")


def item(W, name="x", where=None):
    return W.sym.VariableSymbol(name, W.T("of " + name + str(where or "")), where or W.other_module)


def scope_before(W, sym):
    """The names of the module that imports, as far as one name goes."""
    k = W.cx.choose("the name was", ["not declared", "this very item", "something else"])
    g = W.Scope()
    g.define("unrelated", item(W, "unrelated"))
    if k == "this very item":
        g.define(sym.name, sym)
    elif k == "something else":
        g.define(sym.name, item(W, sym.name))
    W.set(W.an, global_scope=g, ctx_scope=g)
    return g, k


@step("importing an item", "C12 C05 C13", "define_module_item assert_can_use_ident")
def one_item(W):
    x = item(W)
    g, k = scope_before(W, x)
    before = dict(g.symbols)
    W.an.ctx_node = W.at_line(55)
    W.before = W.context()
    W.settle(W.cx.call(W.an.define_module_item, "x", x))
    W.verdict("C12 C05", "item: refused exactly when the name means something else", k != "something else")
    W.prove("C12 C05", "item: the name means the definition of the other module", g.symbols.get("x") is x)
    W.prove("C12 C05", "item: nothing else becomes visible", set(g.symbols) == set(before) | {"x"} and all(g.symbols[n] is s for n, s in before.items()))
    W.restored()


@step("importing a module under a name", "C12 C05 C13", "define_module_alias assert_can_use_ident")
def alias(W):
    m, me = mod(W, "/m/{x}.ama", loaded=True), W.module
    g = W.Scope()
    used = W.cx.flag("the name is declared")
    if used:
        g.define("m", item(W, "m"))
    g.define("unrelated", item(W, "unrelated"))
    W.set(W.an, global_scope=g, ctx_scope=g)
    before = dict(g.symbols)
    W.an.ctx_node = W.at_line(55)
    W.before = W.context()
    W.settle(W.cx.call(lambda: W.an.define_module_alias("m", importing_mod=me, imported_mod=m)))
    W.verdict("C12 C05", "alias: refused exactly when the name is declared", not used)
    s = g.symbols.get("m")
    W.prove("C12 C05", "alias: the name means the module", isinstance(s, W.sym.VariableSymbol) and s.name == "m" and type(s.type) is W.ty.ModuleTy
            and s.type.module is m)
    W.prove("C12 C05", "alias: nothing else becomes visible", set(g.symbols) == set(before) | {"m"} and all(g.symbols[n] is y for n, y in before.items()))
    W.restored()


def visible(W, what, names):
    """A sequence of items of a module that is imported into an arbitrary scope."""
    def make():
        e = Item()
        e.origin = W.cx.choose("declared in", ["the module", "another module", "the builtin module"])
        m = {"the module": W.other_module, "another module": mod(W, "/m/third.ama"), "the builtin module": W.core.builtin_module}[e.origin]
        e.sym = item(W, "x", m)
        e.declared = not names or W.cx.flag("it is declared there")
        e.seq = seq
        e.scope, e.was = scope_before(W, e.sym)
        e.before = dict(e.scope.symbols)
        if names and e.declared:
            table.define("x", e.sym)
        elif names:
            table.symbols.pop("x", None)
        return e

    class Item:
        pass

    def as_asked(e):
        now = e.scope.symbols
        rest = all(now.get(n) is s for n, s in e.before.items()) and not set(now) - set(e.before) - {"x"}
        if e.origin == "the builtin module" and not names:
            return rest and set(now) == set(e.before)
        return rest and now.get("x") is e.sym
    table = W.Scope()
    table.define("hidden", item(W, "hidden"))
    seq = SymSeq(W.cx, what, make, {"visible as asked": as_asked}, {"visible as asked": lambda e: None}, head=lambda: set_line(W))
    return seq, table


def set_line(W):
    l = W.cx.int("line", lo=W.lo_line)
    W.cx.assume(l <= 999)
    W.an.ctx_node = W.at_line(l)


@step("importing all of a module", "C12 C05 C13", "define_module_symbols define_module_item", infer=2)
def all_items(W):
    seq, _ = visible(W, "names of the module", False)
    table = W.Scope()
    table.symbols = DictView(View(seq, lambda e: ("x", e.sym)))
    m = mod(W, "/m/{x}.ama", loaded=True, ast=type("Tree", (), {"symbols": table})())
    W.an.ctx_node = W.at_line(55)
    W.before = W.context()
    W.settle(W.cx.call(W.an.define_module_symbols, m))
    e = seq.current
    if W.out.rejected:
        W.verdict("C12 C05", "all: refused only for a name that means something else", not (e is not None and e.was == "something else"
                  and e.origin != "the builtin module"))
    W.cx.cover("accepted")
    W.prove("C12 C05", "all: every name of the module is visible, except the builtin ones", W.done(seq, "visible as asked"))


@step("importing items of a module", "C12 C05 C13", "define_module_items define_module_item", infer=2)
def some_items(W):
    seq, table = visible(W, "names written", True)
    m = mod(W, "/m/{x}.ama", loaded=True, ast=type("Tree", (), {"symbols": table})())
    names = View(seq, lambda e: "x")
    W.an.ctx_node = W.at_line(55)
    W.before = W.context()
    if not W.cx.decide(seq.n.t > 0):
        raise PathEnd()
    W.settle(W.cx.call(lambda: W.an.define_module_items(imported_mod=m, usa_items=names)))
    e = seq.current
    if W.out.rejected:
        W.verdict("C12 C05", "items: refused only for one that the module lacks or whose name means something else",
                  e is None or e.declared and e.was != "something else")
    W.cx.cover("accepted")
    W.prove("C12 C05", "items: every one is visible", W.done(seq, "visible as asked"))


# ------------------------------------------------------------------- paths
class P:
    """A path, known by how it was made."""

    def __init__(self, *d):
        self.d = d

    def __eq__(self, o):
        return isinstance(o, P) and len(self.d) == len(o.d) and all(a is b or isinstance(a, (str, P)) and a == b for a, b in zip(self.d, o.d))

    def __hash__(self):
        return hash(self.d[0])

    def __repr__(self):
        return "P" + repr(self.d)


class Paths:
    def __init__(self, W, files):
        self.W, self.files = W, files

    def isfile(self, p):
        return self.files(p)

    def abspath(self, p):
        return P("abs", p)

    def join(self, d, p):
        return P("join", d, p)

    def __getattr__(self, n):
        raise Unsupported("path." + n)


@step("finding a module", "C12", "resolve_import", covers=["here", "in a directory", "nowhere"], infer=2)
def find(W):
    here = W.cx.flag("there is a file here")
    asked = P("asked")

    def make():
        d = P("dir")
        d.seq, d.has = dirs, W.cx.flag("the directory has it")
        return d

    def files(p):
        if p is asked:
            return here
        if isinstance(p, P) and p.d[0] == "join" and p.d[2] is asked and getattr(p.d[1], "seq", None) is dirs:
            return p.d[1].has
        raise Unsupported("another file is looked for")
    dirs = SymSeq(W.cx, "directories", make, {"has no such file": lambda d: not d.has}, {"has no such file": lambda d: setattr(d, "has", False)})
    W.set(W.an, import_paths=dirs)
    shadow(W.cx, W.core, "path", Paths(W, files))
    W.before = W.context()
    out = W.cx.call(W.an.resolve_import, asked)
    W.settle(out)
    r = out.value
    if here:
        W.cx.cover("here")
        W.prove("C12", "finding: the file itself, from the current directory, comes first", r == P("abs", asked))
    elif r is None:
        W.cx.cover("nowhere")
        W.prove("C12", "finding: given up only when no directory has it", W.done(dirs, "has no such file"))
    else:
        W.cx.cover("in a directory")
        d = dirs.current
        W.prove("C12", "finding: else the first directory that has it", d is not None and d.has and r == P("abs", P("join", d, asked)))


@step("usa", "C12 C13", "visit_usa")
def usa(W):
    A = type(W.an)
    text, path_ = W.cx.choose("written", [("'a'", "a.ama"), ('"a"', "a.ama"), ("'a.ama'", "a.ama"), ("'d/a'", "d/a.ama"), ("'../d/a.b'", "../d/a.b.ama"), ("\"d'a\"", "d'a.ama"), ("'\"a\"'", '"a".ama'),
                                          ("'{d}/a'", "{d}/a.ama"), ("'d/'", None), ("''", None)])
    found = path_ and W.cx.flag("there is such a file")
    U = W.ast.UsaMode
    mode = W.cx.choose("form", list(U))
    asked, loaded = [], []

    def resolve_import(self, p):
        asked.append(p)
        return "/abs/a.ama" if found else None
    W.cx.patch(A, "resolve_import", resolve_import)

    def load_module(self, m, mode_, **k):
        loaded.append((m, mode_, k))
        refuse(W)
    W.cx.patch(A, "load_module", load_module)
    items = ["a", "b"]
    n = W.ast.Usa(W.tok("USA"), usa_mode=mode, module=W.tok("STRING", text), alias=W.tok("IDENTIFIER", "m") if mode is U.Scoped else None,
                  items=items if mode is U.Item else [])
    W.run(n)
    W.verdict("C12", "usa: exactly when there is such a file", bool(found))
    W.prove("C12", "usa: the file that is written, with the ending of the language", asked == [path_], lambda: asked)
    ok = len(loaded) == 1
    m, md, k = loaded[0] if ok else (None, None, {})
    W.prove("C12", "usa: loads the module of that file", ok and type(m) is type(W.module) and m.fpath == "/abs/a.ama" and not m.loaded)
    W.prove("C12", "usa: in the form written", ok and md is mode and (mode is not U.Scoped or k.get("alias") == "m") and
            (mode is not U.Item or k.get("usa_items") is items))
    W.restored()
    W.cx.bounded.add("ten ways to write a path")


@step("a whole module", "C12 C05 C14", "visit_module visit_children validate_builtin_module", covers=["accepted"], infer=2)
def whole(W):
    a = W.ast
    children = W.seq("statements", lambda: W.stub("statement", a.ASTNode))
    done = []

    def transform(node, module):
        done.append((node, module, node.symbols))
        return tree
    tree = object()
    shadow(W.cx, W.core, "transform", transform)
    W.set(W.an, imports=Table())
    n = a.Module.__new__(a.Module)
    n.__dict__.update(token=W.tok("EOF"), parent=None, lineno=50, children=children, annotations=[], symbols=None)
    W.run(n, tag=False)
    if W.out.rejected:
        raise PathEnd()
    W.cx.cover("accepted")
    for c in ("C12", "C05"):
        W.prove(c, "module: every statement is checked, once", W.done(children, "visited once"))
    W.prove("C12 C05", "module: keeps the names that it declares", len(done) == 1 and done[0][2] is W.an.global_scope)
    W.prove("C12", "module: its tree is the one that is compiled", done[0][0] is n and done[0][1] is W.module and W.module.ast is tree)
    W.prove("C12", "module: hands on the table of modules", W.out.value[0] is W.module and W.out.value[1] is W.an.imports)
    W.restored()


@step("the start of a module", "C12 C05", "__init__ load_builtin_module amanda.compiler.types.builtins.SrcBuiltins.init_embutidos", covers=["done"])
def start(W):
    """Closed: nothing here depends on the program."""
    A, c = type(W.an), W.core
    m = mod(W, "/m/novo.ama")
    table_before = dict(W.g.symbols)
    hooks = W.cx.hooks
    keep, hooks.cx = hooks.cx, None
    try:
        an = A("novo.ama", [], m)
        again = A("novo.ama", [], mod(W, "/m/outro.ama"))
    finally:
        hooks.cx = keep
    b = c.builtin_module
    W.prove("C12", "start: only the builtin module is loaded", dict(an.imports) == {b.fpath: b} and b.loaded)
    W.prove("C12 C05", "start: the module is the one being checked", an.ctx_module is m and an.scope_depth == 0 and an.ctx_scope is an.global_scope)
    W.prove("C12 C05", "start: every name is builtin", all(s.module is None or s.module.fpath == b.fpath for s in an.global_scope.symbols.values()))
    W.prove("C12 C05", "start: every type of the language has its name", all(an.global_scope.get(n) is t for n, t in W.bi.builtin_types))
    W.prove("C12 C05", "start: modules do not share their names", an.global_scope is not again.global_scope and
            an.global_scope.symbols is not again.global_scope.symbols)
    W.prove("C12 C05", "start: what is declared later is not part of the builtin module", all(x is not y for x in (b.ast.symbols, b.ast.symbols.symbols)
            for z in (an, again) for y in (z.global_scope, z.global_scope.symbols)) and
            all(n in b.ast.symbols.symbols for n in again.global_scope.symbols if again.global_scope.symbols[n].module is b))
    W.prove("C12 C05", "start: modules have the same builtin names", list(an.global_scope.symbols) == list(again.global_scope.symbols))
    W.cx.cover("done")
