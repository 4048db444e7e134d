"""Contracts of generic types (amanda/compiler/types/core.py, symbols/core.py and the
part of the checker that reads them).

`substitute` is proved by structural induction: the parts of a type are opaque and
substituted by contract, σ (the arguments) is a mapping of which only the entries that
the function looks up are known.  Handed on as keyword arguments, σ is one entry that
stands for all of them.
"""
from pvc.engine import PathEnd, Unsupported
from pvc.seq import SymSeq, DictView
from pvc.acc import AccSpec, is_all

STEPS = []
TY = "amanda.compiler.types.core."
SY = "amanda.compiler.symbols.core."
CORE = "amanda.compiler.check.core.Analyzer."


def step(name, functions, covers=("done",), **kw):
    def deco(f):
        STEPS.append(dict(name=name, fn=f, covers=list(covers), functions=functions.split(), kw=kw))
        return f
    return deco


def vcs(prop):
    if prop != "C14":
        return []
    out = []
    for s in STEPS:
        def fn(cx, s=s):
            s["fn"](GenericWorld(cx))
        out.append(dict(name=s["name"], fn=fn, covers=s["covers"], functions=s["functions"], **s["kw"]))
    return out


class Sigma:
    """Arguments for type parameters, of unknown number."""
    is_sym_map = True
    ALL = "* of σ"

    def __init__(self, W, label="σ", total=False):
        self.W, self.label, self.entries, self.total = W, label, {}, total

    def find(self, k):
        if k not in self.entries:
            here = self.total or self.W.cx.flag(f"{self.label} has {k}")
            self.entries[k] = self.W.any(f"{self.label}({k})") if here else None
        return self.entries[k]

    def sym_contains(self, k):
        return self.find(k) is not None

    __contains__ = sym_contains

    def __getitem__(self, k):
        if k == self.ALL:
            return self
        v = self.find(k)
        if v is None:
            raise KeyError(k)
        return v

    def get(self, k, d=None):
        v = self.find(k)
        return d if v is None else v

    def keys(self):
        return [self.ALL]

    def __bool__(self):
        return self.W.cx.flag(f"{self.label} is not empty")

    def __iter__(self):
        raise Unsupported("iteration over σ")


class ParamNames:
    """The set of the names of a sequence of type parameters."""

    def __init__(self, W, seq):
        self.W, self.seq = W, seq

    def issubset(self, m):
        if not isinstance(m, Sigma):
            raise Unsupported("names of parameters in something else")
        m.total = self.W.cx.flag("σ has every parameter")
        if not m.total:
            self.W.cx.assume(self.seq.n > 0)
        return m.total

    def __contains__(self, x):
        if isinstance(x, str) and x.startswith("* of "):
            return True
        raise Unsupported("a name among the parameters")

    sym_contains = __contains__


class Pair:
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __iter__(self):
        return iter((self.name, self.value))


class Builds(SymSeq):
    """A sequence from which a container is built, by a loop or a comprehension."""

    def __init__(self, W, label, make, check, view=None, mate=None, n=None):
        def mk():
            e = make()
            e.seq = self
            return e
        super().__init__(W.cx, label, mk, n=n)
        self.mate, self.check, self.view = mate, check, view or (lambda e: e)

    def loop_spec(self, key, names):
        return AccSpec(self, self.view, key, names, self.check)


class SymItems:
    """A dict of unknown size."""
    is_sym_map = True

    def __init__(self, seq):
        self.seq = seq

    def items(self):
        return self.seq

    def sym_len(self):
        return self.seq.n

    def __bool__(self):
        return bool(self.seq)

    def keys(self):
        return [f"* of {self.seq.label}"]

    def __getitem__(self, k):
        if k == f"* of {self.seq.label}":
            return self
        raise Unsupported(f"an entry of {self.seq.label} by name")

    def __iter__(self):
        raise Unsupported(f"iteration over {self.seq.label}")

    def values(self):
        raise Unsupported(f"values of {self.seq.label}")


class GenericWorld:
    def __init__(self, cx):
        self.cx, self.ns = cx, cx.ns
        ns = self.ns
        self.base, self.sym, self.ty = ns["amanda.compiler.symbols.base"], ns["amanda.compiler.symbols.core"], ns["amanda.compiler.types.core"]
        self.bi, self.ast = ns["amanda.compiler.types.builtins"], ns["amanda.compiler.ast"]
        self.core, self.tokens = ns["amanda.compiler.check.core"], ns["amanda.compiler.tokens"]
        self.err = ns["amanda.compiler.error"]
        self.module = ns["amanda.compiler.module"].Module("/m/este.ama")
        self.subs = {}
        self.classes()

    def classes(self):
        W, Type = self, self.base.Type

        class Any(Type):
            """Any type; its parts are unknown."""

            def __init__(self, label):
                self.label = label

            def substitute(self, s):
                return W.sub(self, s)

            def __eq__(self, o):
                return self is o

            __hash__ = object.__hash__

            def __getattr__(self, a):
                if a.startswith("__") or a.startswith("sym_") or a in ("is_sym_seq", "is_sym", "part_contains"):
                    raise AttributeError(a)
                raise Unsupported(f"{a} of any type")

            def __repr__(self):
                return self.label
        for n in dir(Type):
            if not n.startswith("_") and n != "substitute" and callable(getattr(Type, n)) and n not in vars(Any):
                def un(self, *a, n=n, **k):
                    raise Unsupported(f"{n} of any type")
                setattr(Any, n, un)
        Any.__abstractmethods__ = frozenset()
        self.Any = Any

    def any(self, label):
        return self.Any(label)

    def args(self, s):
        """What a mapping of arguments means."""
        if type(s) is dict and len(s) == 1 and list(s)[0].startswith("* of "):
            return self.args(list(s.values())[0])
        if type(s) is dict:
            return ("dict",) + tuple((k, id(v)) for k, v in s.items())
        return id(s)

    def sub(self, t, s):
        """The contract of substitute."""
        k = (id(t), self.args(s))
        if k not in self.subs:
            self.subs[k] = (self.any(f"{t!r}[σ]"), t, s)
        return self.subs[k][0]

    def prove(self, clause, ok, info=None):
        self.cx.prove(clause, ok, info)

    def run(self, f, *a, **k):
        out = self.cx.call(f, *a, **k)
        if out.crashed:
            self.cx.prove("no crash", False, lambda: out.tb)
            raise PathEnd()
        if out.rejected:
            self.cx.prove("nothing is refused", False, lambda: repr(out.value))
            raise PathEnd()
        self.cx.cover("done")
        return out.value

    def pairs(self, label, value, check):
        n = self.cx.strname if False else None
        count = [0]

        def make():
            count[0] += 1
            return Pair(name=f"name of {label} {count[0]}", value=value(f"{label} {count[0]}"))
        return SymItems(Builds(self, label, make, check, view=lambda e: (e.name, e.value)))

    def whole(self, clause, got, seq, entry):
        """`got` has exactly one entry for each element of seq, in order; entry(e, k, v)
        says whether it is the one wanted (also proved of each iteration)."""
        if isinstance(got, DictView):
            self.prove(clause + ": one for each, in order", got.seq is seq and not got.pairs.others)
            if got.seq is seq:
                e = seq.fresh()
                k, v = got.pairs.view(e) if got.pairs.seq is seq else (None, None)
                self.prove(clause + ": the one meant", entry(e, k, v))
            return
        if type(got) is dict:
            self.prove(clause + ": one for each, in order", is_all(got, seq))
            return
        raise Unsupported(f"{clause}: built in another way")


def one(entry, clause, W):
    """Check of what an iteration of a loop adds."""
    def check(e, added):
        ok = added is not None and len(added) == 1
        W.prove(clause + ": one for each, in order", ok)
        if ok:
            W.prove(clause + ": the one meant", entry(e, *added[0]))
    return check


# -------------------------------------------------------------- substitution
@step("substitution in a vector", TY + "Vector.substitute")
def vec(W):
    el, s = W.any("element"), Sigma(W)
    t = W.run(W.ty.Vector(W.module, el).substitute, s)
    W.prove("vector: of the element with the parameters replaced", type(t) is W.ty.Vector and t.element_type is W.sub(el, s))


@step("substitution in a type parameter", "amanda.compiler.symbols.base.TypeVar.substitute", covers=["done", "replaced", "kept"])
def tvar(W):
    s = Sigma(W)
    v = W.base.TypeVar("P", W.module)
    t = W.run(v.substitute, s)
    want = s.find("P")
    W.cx.cover("kept" if want is None else "replaced")
    W.prove("parameter: replaced by its argument, or itself without one", t is (v if want is None else want))


@step("substitution in a type without parts", "amanda.compiler.symbols.base.Type.substitute")
def plain(W):
    k = W.cx.choose("type", ["primitive", "union", "module"])
    t = {"primitive": lambda: getattr(W.bi.Builtins, W.cx.choose("tag", ["Int", "Real", "Bool", "Texto", "Indef", "Vazio", "Nulo"])),
         "union": lambda: W.ty.Uniao("U", W.module, {}),
         "module": lambda: W.ty.ModuleTy(importing_mod=W.module, module=W.module)}[k]()
    W.prove("type without parameters: stays", W.run(t.substitute, Sigma(W)) is t)


@step("substitution in an instantiated type", TY + "ConstructedTy.substitute", infer=1)
def constructed(W):
    s = Sigma(W)
    entry = lambda e, k, v: k == e.name and v is W.sub(e.value, s)
    C = "instantiated type: its arguments with the parameters replaced"
    items = W.pairs("argument", W.any, one(entry, C, W))
    g = W.ty.Registo("R", W.module, {})
    t = W.run(W.ty.ConstructedTy(g, items).substitute, s)
    W.prove("instantiated type: of the same generic type", type(t) is W.ty.ConstructedTy and t.generic_ty is g)
    W.whole(C, t.bound_ty_args, items.seq, entry)


@step("substitution in a generic record", TY + "Registo.substitute " + TY + "Registo.bind", covers=["done", "bound", "kept"], infer=1)
def record(W):
    s = Sigma(W)
    entry = lambda e, k, v: k == e.name and v is s.find(e.name)
    C = "generic record: its parameters bound to their own arguments"
    count = [0]

    def make():
        count[0] += 1
        return W.base.TypeVar(f"P{count[0]}", W.module)
    seq = Builds(W, "parameter", make, one(entry, C, W))
    r = W.ty.Registo("R", W.module, {})
    if "_ty_names" not in r.__dict__:
        raise Unsupported("the names of the parameters are kept elsewhere")
    r.ty_params, r._ty_names = seq, ParamNames(W, seq)
    t = W.run(r.substitute, s)
    if t is r:
        W.cx.cover("kept")
        W.prove("generic record: kept only without parameters or arguments", not bool(seq) or not s.total)
        return
    W.cx.cover("bound")
    W.prove("generic record: bound", type(t) is W.ty.ConstructedTy and t.generic_ty is r)
    b = t.bound_ty_args
    if type(b) is dict and len(b) == 1 and list(b)[0].startswith("* of "):
        b = list(b.values())[0]
    W.whole(C, b, seq, entry)


def field(W, label):
    """A variable, bound by contract."""
    class V(W.sym.VariableSymbol):
        def bind(self, **s):
            k = ("bind", id(self), W.args(s))
            if k not in W.subs:
                W.subs[k] = (W.sym.VariableSymbol(self.name, W.any("bound"), self.module), self, s)
            return W.subs[k][0]
    return V(label, W.any("type of " + label), W.module)


# ------------------------------------------------------------------- members
@step("binding a field", SY + "VariableSymbol.bind")
def bind_field(W):
    s, t = Sigma(W), W.any("type")
    v = W.sym.VariableSymbol("campo", t, W.module)
    b = W.run(lambda: v.bind(**s))
    W.prove("field: the parameters in its type replaced", b.type is W.sub(t, s))
    W.prove("field: otherwise the same", type(b) is W.sym.VariableSymbol and b.name == "campo" and b.module is W.module
            and b.out_id == v.out_id)
    W.prove("field: the generic one is not changed", b is not v and v.type is t)


def function(W, cls):
    s, t = Sigma(W), W.any("result")
    entry = lambda e, k, v: k == e.name and v is e.value.bind(**s)
    C = f"{cls}: each parameter bound"
    items = W.pairs("parameter", lambda l: field(W, l), one(entry, C, W))
    if cls == "function":
        f = W.sym.FunctionSymbol("f", t, module=W.module, params=items)
    else:
        f = W.sym.MethodSym("m", target_ty=W.ty.Registo("R", W.module, {}), return_ty=t, module=W.module, params=items)
        f.out_id, f.is_global = "out", W.cx.flag("global")
        f.annotations = [object()]
    b = W.run(lambda: f.bind(**s))
    W.prove(f"{cls}: the parameters in its result replaced", b.type is W.sub(t, s))
    W.prove(f"{cls}: of the same name and module", type(b) is type(f) and b.name == f.name and b.module is W.module)
    W.prove(f"{cls}: the generic one is not changed", b is not f and f.type is t and f.params is items)
    W.whole(C, b.params, items.seq, entry)
    return f, b


@step("binding a function", SY + "FunctionSymbol.bind", infer=1)
def bind_function(W):
    function(W, "function")


@step("binding a method", SY + "MethodSym.bind " + SY + "FunctionSymbol.bind", infer=1)
def bind_method(W):
    f, b = function(W, "method")
    W.prove("method: the result type follows", b.return_ty is b.type)
    W.prove("method: the same method of the same type", b.method_name == "m" and b.target_ty is f.target_ty and b.is_property)
    W.prove("method: calls the same code", b.out_id == "out" and b.is_global == f.is_global and b.annotations == f.annotations)


@step("member of an instantiated type", TY + "ConstructedTy.get_property")
def member(W):
    s = Sigma(W)
    args = {Sigma.ALL: s}
    kind = W.cx.choose("the generic type has", ["nothing", "a field", "a method", "a method of an instance"])
    log = []
    bound = object()

    def bind(self, **k):
        log.append((self, k))
        return bound
    g = W.ty.Registo("R", W.module, {})
    c = W.ty.ConstructedTy(g, args)
    p, other = None, False
    if kind == "a field":
        p = W.sym.VariableSymbol("x", W.any("t"), W.module)
    elif kind != "nothing":
        of = g
        if kind == "a method of an instance":
            of = W.ty.ConstructedTy(g, args)
            other = W.cx.flag("the instance is another one")
        p = W.sym.MethodSym("x", target_ty=of, return_ty=W.any("t"), module=W.module)
    W.cx.patch(W.ty.ConstructedTy, "__eq__", lambda a, b: a is b or not other)
    W.cx.patch(W.ty.ConstructedTy, "__ne__", lambda a, b: a is not b and other)
    W.cx.patch(W.sym.VariableSymbol, "bind", bind)
    W.cx.patch(W.sym.FunctionSymbol, "bind", bind)
    W.cx.patch(W.sym.MethodSym, "bind", bind)
    asked = []

    def get_property(self, n):
        asked.append(n)
        return p if n == "x" else None
    W.cx.patch(W.ty.Registo, "get_property", get_property)
    r = W.run(c.get_property, "x")
    W.prove("member: the one of the name", all(n == "x" for n in asked))
    if p is None or other:
        W.prove("member: none where the type has none", r is None)
    else:
        W.prove("member: bound to the arguments of the type", r is bound and log[-1][0] is p and W.args(log[-1][1]) == W.args(args))


# ------------------------------------------------------------------ checker
def analyzer(W):
    A = W.core.Analyzer
    proto = getattr(W.ns, "_pvc_analyzer", None)
    if proto is None:
        hooks, W.cx.hooks.cx = W.cx.hooks.cx, None
        try:
            proto = A("este.ama", [], W.module)
        finally:
            W.cx.hooks.cx = hooks
        W.ns._pvc_analyzer = proto
    an = A.__new__(A)
    an.__dict__.update(proto.__dict__)
    an.ctx_module = W.module
    an.ctx_scope = an.global_scope = W.sym.Scope()
    an.ty_ctx = W.sym.Scope()
    x = W.ast.ASTNode.__new__(W.ast.ASTNode)
    x.token, x.parent, x.lineno = tok(W, "dentro"), None, 50
    an.ctx_node = x
    return an


def tok(W, lexeme, line=50):
    return W.tokens.Token(W.tokens.TokenType.IDENTIFIER, lexeme, line, 1)


@step("declared type parameters", CORE + "get_generic_params", covers=["accepted", "refused"], infer=1)
def params(W):
    an = analyzer(W)
    count, dup = [0], []

    def make():
        count[0] += 1
        g = W.ast.GenericParam(tok(W, f"P{count[0]}"))
        del dup[:]
        return g

    def has(x, part):
        r = W.cx.flag("an earlier parameter has the same name")
        dup.append(r)
        return r

    def check(e, added):
        W.prove("type parameters: a repeated one is refused", not any(dup) and bool(dup))
        ok = added is not None and len(added) == 1
        W.prove("type parameters: one for each, in order", ok)
        v = added[0] if ok else None
        W.prove("type parameters: of the name written", isinstance(v, W.base.TypeVar) and v.name == e.name.lexeme and v.module is W.module)
        W.cx.cover("accepted")
    none = W.cx.flag("no parameters are written")
    seq = None
    if not none:
        seq = Builds(W, "type parameter", make, check)
        seq.has = has
    n = W.ast.Registo.__new__(W.ast.Registo)
    n.generic_params = seq
    out = W.cx.call(an.get_generic_params, n)
    if out.crashed:
        W.prove("no crash", False, lambda: out.tb)
        raise PathEnd()
    if out.rejected:
        W.cx.cover("refused")
        W.prove("type parameters: refused only when repeated", any(dup))
        return
    if none:
        W.prove("type parameters: none without any written", out.value == [])
    elif type(out.value) is list and not out.value:
        W.prove("type parameters: one for each, in order", not bool(seq))
    else:
        W.prove("type parameters: one for each, in order", is_all(out.value, seq))


@step("written type arguments", CORE + "bind_generic_args " + CORE + "get_generic_args", covers=["accepted", "refused"], infer=1)
def arguments(W):
    an = analyzer(W)
    A = W.core.Analyzer
    types, count = {}, [0]

    def get_type(self, node):
        if node not in types:
            types[node] = W.any(f"type {len(types)}")
        return types[node]
    W.cx.patch(A, "get_type", get_type)
    entry = lambda e, k, v: k == ps.of(e).name and v is types.get(gs.of(e).arg)
    C = "type arguments: bound to the parameters in the order written"
    check = one(entry, C, W)

    def arg():
        count[0] += 1
        x = W.ast.ASTNode.__new__(W.ast.ASTNode)
        x.token, x.parent, x.lineno = tok(W, f"A{count[0]}"), None, 50
        g = W.ast.GenericArg(x)
        p = W.base.TypeVar(f"P{count[0]}", W.module)
        g.partner, p.partner = p, g
        p.seq = ps
        return g

    def par():
        return arg().partner
    gs = Builds(W, "type argument", arg, check)
    ps = Builds(W, "type parameter", par, check, mate=gs)
    gs.mate = ps

    def of(seq, cls):
        return lambda e: e if isinstance(e, cls) else e.partner
    gs.of, ps.of = of(gs, W.ast.GenericArg), of(ps, W.base.TypeVar)
    kind = W.cx.choose("the type is", ["a record", "a union", "primitive"])
    t = {"a record": lambda: W.ty.Registo("R", W.module, {}), "a union": lambda: W.ty.Uniao("U", W.module, {}),
         "primitive": lambda: W.bi.Builtins.Int}[kind]()
    if kind != "primitive":
        t.ty_params, t._ty_names = ps, ParamNames(W, ps)
    got = []

    def bind(self, **k):
        got.append(k)
        return W.ty.ConstructedTy(self, k)
    W.cx.patch(W.ty.Registo, "bind", bind)
    same = []

    def is_same(a, b):
        x, y = getattr(a, "seq", None), getattr(b, "seq", b)
        if b is not ps:
            raise Unsupported("comparison of the arguments")
        if not same:
            same.append(W.cx.flag("the arguments are the parameters"))
        return same[0]
    from pvc.seq import View
    W.cx.patch(View, "__eq__", is_same)
    W.cx.patch(View, "__ne__", lambda a, b: not is_same(a, b))
    n = W.ast.Type(tok(W, "R"), False, gs if not W.cx.flag("none are written") else W.cx.choose("as", [None, []]))
    out = W.cx.call(an.bind_generic_args, n, t)
    if out.crashed:
        W.prove("no crash", False, lambda: out.tb)
        raise PathEnd()
    if n.generic_args is not gs or not bool(gs):
        W.prove("type arguments: without any the type itself", out.ok and out.value is t)
        return
    many = kind != "primitive" and bool(gs.n == ps.n)
    ok = many and (any(same) or kind == "a record")
    W.cx.cover("accepted" if out.ok else "refused")
    W.prove("type arguments: " + ("accepted when as many as parameters" if ok else "refused when others are wanted"), out.ok == ok)
    if not out.ok or not ok:
        return
    if any(same):
        W.prove("type arguments: the parameters themselves are the generic type", out.value is t)
        return
    W.prove("type arguments: of the type named", type(out.value) is W.ty.ConstructedTy and out.value.generic_ty is t and len(got) == 1)
    b = got[-1] if got else {}
    if len(b) == 1 and list(b)[0].startswith("* of "):
        b = list(b.values())[0]
    if isinstance(b, DictView) and b.seq in (gs, ps):
        W.prove(C + ": one for each, in order", True)
        e = b.seq.fresh()
        k, v = b.pairs.view(e)
        W.prove(C + ": the one meant", entry(e, k, v))
    else:
        W.prove(C + ": one for each, in order", type(b) is dict and (is_all(b, gs) or is_all(b, ps)))
