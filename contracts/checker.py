"""Contracts of the checker's visitors (amanda/compiler/check/core.py, uniao.py, iguala.py).

Each step builds one construct whose parts are stubs: a part is visited by contract
(it is refused, or it gets a type that is known only by its relations), so what is
proved holds of every program that contains the construct.  The same steps decide
C04 (what is accepted, the types and the conversions), C05 (what names mean), C06
(where jumps may stand) and C13 (where an error is reported).
"""
from pvc.engine import PathEnd, Unsupported
from pvc.seq import SymSeq
from .world import World

STEPS = []
CORE = "amanda.compiler.check.core.Analyzer."


def step(name, props, functions, covers=("accepted", "refused"), **kw):
    def deco(f):
        STEPS.append(dict(name=name, fn=f, props=props.split(), covers=list(covers),
                          functions=[x if "." in x else CORE + x for x in functions.split()], kw=kw))
        return f
    return deco


def vcs(prop):
    out = []
    for s in STEPS:
        if prop not in s["props"]:
            continue

        def fn(cx, s=s):
            s["fn"](World(cx, prop))
        out.append(dict(name=s["name"], fn=fn, covers=s["covers"], functions=s["functions"], **s["kw"]))
    return out


def once(W, *nodes):
    for n in nodes:
        W.prove("C04", "every part is checked", n.visits >= 1, lambda n=n: n.label)


def is_type(W, node, ty):
    W.prove("C04", "the expression gets its type", node.eval_type is ty or W.eq(node.eval_type, ty),
            lambda: {"got": str(node.eval_type), "want": str(ty)})


def in_depth(W):
    """An arbitrary place: the global scope or some nested one."""
    if W.cx.choose("place", ["global", "nested"]) == "nested":
        f = W.Scope(W.g)
        s = W.Scope(f)
        W.set(W.an, ctx_scope=s, scope_depth=2)
        return s
    return W.g


# ------------------------------------------------------------------ expressions
@step("binary operation", "C04 C13", "visit_binop")
def binop(W):
    a = W.ast
    l, r = W.expr("left"), W.expr("right")
    op = W.cx.choose("op", ["PLUS", "DOUBLEEQUAL", "E", "LESS"])
    n = a.BinOp(W.tok(op, op), left=l, right=r)
    W.run(n)
    res = W.op("binop", l.ty, getattr(W.TT, op), r.ty)
    once(W, l, r)
    W.verdict("C04", "binary operation: exactly when the operator is defined on the types", res is not None)
    W.prove("C04", "binary operation: the result has the operator's type", n.eval_type is res)
    # operands convert to each other's type when one does
    for x, y in ((l, r), (r, l)):
        if W.prom(x.ty, y.ty) and not W.eq(x.ty, y.ty):
            W.prove("C04", "binary operation: the conversion of an operand is recorded",
                    bool(x.prom_type) and x.prom_type is not W.B.Unknown and W.eq(x.prom_type, y.ty))
        if not W.prom(x.ty, y.ty):
            W.prove("C04", "binary operation: no other conversion is recorded", not x.prom_type)
    W.restored()


@step("unary operation", "C04 C13", "visit_unaryop")
def unary(W):
    x = W.expr("operand")
    op = W.cx.choose("op", ["PLUS", "MINUS", "NAO"])
    n = W.ast.UnaryOp(W.tok(op, op), operand=x)
    W.run(n)
    res = W.op("unaryop", x.ty, getattr(W.TT, op), None)
    once(W, x)
    W.verdict("C04", "unary operation: exactly when the operator is defined on the type", res is not None)
    W.prove("C04", "unary operation: the result has the operator's type", n.eval_type is res)
    W.restored()


@step("conversion", "C04 C13", "visit_converta")
def converta(W):
    x, t = W.expr("value"), W.tnode("to")
    n = W.ast.Converta(W.tok("DOUBLECOLON"), x, t)
    W.run(n)
    once(W, x)
    W.verdict("C04", "converta: exactly when the conversion is allowed", W.rel("cast", x.ty, t.ty))
    is_type(W, n, t.ty)
    W.restored()


@step("list literal", "C04 C13", "visit_listliteral types_match", infer=3)
def listliteral(W):
    t = W.tnode("of")
    fits = lambda e: W.fits(e.ty, t.ty)
    conv = lambda e: W.conv_ok(e, t.ty)
    els = W.seq("elements", lambda: W.expr("element"), {"fits": fits, "converts": conv},
                {"fits": lambda e: None, "converts": lambda e: None})
    n = W.ast.ListLiteral(W.tok("LBRACKET"), list_type=t, elements=els)
    W.run(n)
    if W.out.rejected:
        e = els.current
        W.verdict("C04", "list literal: refused only for an element of another type", e is None or fits(e))
    W.cx.cover("accepted")
    for f in ("visited once", "fits", "converts"):
        W.prove("C04", f"list literal: every element {f}", W.done(els, f))
    W.prove("C04", "list literal: the type is a vector of the written type",
            type(n.eval_type) is W.ty.Vector and W.eq(n.eval_type.element_type, t.ty))
    W.restored()


@step("format string", "C04 C13", "visit_fmtstr", infer=3)
def fmtstr(W):
    tx = W.B.Texto
    ok = lambda e: W.rel("cast", e.ty, tx)
    parts = W.seq("parts", lambda: W.expr("part"), {"fits": ok}, {"fits": lambda e: None})
    n = W.ast.FmtStr(W.tok("STRING"), parts)
    W.run(n)
    if W.out.rejected:
        e = parts.current
        W.verdict("C04", "format string: refused only for a part that converts to no text", e is None or ok(e))
    W.cx.cover("accepted")
    for f in ("visited once", "fits"):
        W.prove("C04", f"format string: every part {f}", W.done(parts, f))
    is_type(W, n, tx)
    W.restored()


@step("index", "C04 C13", "visit_indexget")
def indexget(W):
    x, i = W.expr("target", ["prim", "vec", "reg", "opt", "uniao", "tvar"]), W.expr("index")
    n = W.ast.IndexGet(W.tok("LBRACKET"), x, i)
    W.run(n)
    once(W, x, i)
    real = W.deref(x.ty)
    seq = type(real) is W.ty.Vector or real is W.B.Texto
    W.verdict("C04", "index: of a vector or a text, by an int", seq and W.eq(i.ty, W.B.Int))
    is_type(W, n, W.B.Texto if real is W.B.Texto else real.element_type)
    W.restored()


@step("assignment to an element", "C04 C13", "visit_indexset visit_indexget")
def indexset(W):
    x, i = W.expr("target", ["prim", "vec", "reg", "opt"]), W.expr("index")
    v = W.expr("value")
    g = W.ast.IndexGet(W.tok("LBRACKET"), x, i)
    n = W.ast.IndexSet(W.tok("EQUAL"), g, v)
    W.run(n)
    once(W, x)
    real = W.deref(x.ty)
    isvec = type(real) is W.ty.Vector
    ok = isvec and W.eq(i.ty, W.B.Int) and W.fits(v.ty, real.element_type)
    W.verdict("C04", "element: of a vector, by an int, with a value of the element type", ok)
    once(W, i, v)
    W.prove("C04", "element: the conversion of the value is recorded", W.conv_ok(v, real.element_type))
    W.restored()


@step("assignment to a field", "C04 C12 C13", "visit_set")
def setfield(W):
    a = W.ast
    owner, v = W.expr("owner"), W.expr("value")
    tgt = W.stub("field", a.Get, target=owner, member=W.tok("IDENTIFIER", "campo", 60), eval_type=W.B.Unknown,
                 prom_type=None)
    tgt.ty = W.T("field")
    owner.eval_type = owner.ty
    n = a.Set(target=tgt, expr=v)
    W.run(n)
    mod = W.deref(owner.ty).is_module()
    W.prove("C12", "a variable of another module is never assigned", not (mod and W.out.ok))
    W.verdict("C04", "field: of a record, with a value of the field's type", not mod and W.fits(v.ty, tgt.ty))
    once(W, tgt, v)
    W.prove("C04", "field: the conversion of the value is recorded", W.conv_ok(v, tgt.ty))
    W.restored()


@step("assignment to a variable", "C04 C05 C12 C13", "visit_assign visit_variable")
def assign(W):
    a = W.ast
    v = W.expr("value")
    where = in_depth(W)
    home = W.cx.choose("declared", ["here", "in the global scope", "in another module", "nowhere"])
    t = W.T("variable")
    if home != "nowhere":
        m = W.other_module if home == "in another module" else W.module
        s = W.sym.VariableSymbol("x", t, m)
        (where if home == "here" else W.g).define("x", s)
    n = a.Assign(W.tok("EQUAL"), left=a.Variable(W.tok("IDENTIFIER", "x", 51)), right=v)
    W.run(n)
    if home == "nowhere":
        W.verdict("C05", "assignment: to a declared name", False)
    if home == "in another module":
        W.verdict("C12", "assignment: never to another module's variable", False)
    is_mod = type(W.deref(t)) is W.ty.ModuleTy
    W.verdict("C04", "assignment: of a value of the variable's type", not is_mod and W.fits(v.ty, t))
    once(W, v)
    W.prove("C04", "assignment: the conversion of the value is recorded", W.conv_ok(v, t))
    W.prove("C05", "assignment: to the innermost declaration", n.left.var_symbol is s)
    W.restored()


@step("literal", "C04 C13", "visit_constant validate_int")
def constant(W):
    k = W.cx.choose("token", ["INTEGER", "REAL", "STRING", "VERDADEIRO", "FALSO", "NULO"])
    v = W.cx.int("value", lo=0)

    class Lexeme:
        def sym_int(self):
            return v
    n = W.ast.Constant(W.tok(k, Lexeme() if k == "INTEGER" else "lexeme"))
    in_depth(W)
    W.run(n)
    W.verdict("C04", "literal: any that its type can hold",
              k != "INTEGER" or W.cx.decide((v <= 2 ** 63 - 1).t))
    is_type(W, n, {"INTEGER": W.B.Int, "REAL": W.B.Real, "STRING": W.B.Texto, "NULO": W.B.Nulo}.get(k, W.B.Bool))
    W.restored()


# ---------------------------------------------------------------------- names
KIND = ["variable", "function", "type", "module", "variant"]


def some_symbol(W, label, kind, module=None):
    m = module or W.module
    if kind == "variable":
        return W.sym.VariableSymbol("x", W.T(label), m)
    if kind == "function":
        return W.sym.FunctionSymbol("x", W.T(label), module=m, params={})
    if kind == "type":
        return W.ty.Registo("x", m, {})
    if kind == "module":
        return W.sym.VariableSymbol("x", W.obj(("module", "/m/" + label)), m)
    if kind == "union":
        return W.ty.Uniao("x", m, {})
    raise Unsupported(kind)


def populated(W, name="x"):
    """A chain of scopes in which the name may be declared in any of them, next to
    another name; returns what it means innermost first."""
    outer, mid, inner = W.g, W.Scope(W.g), None
    inner = W.Scope(mid)
    found = []
    for label, s in (("inner", inner), ("middle", mid), ("outer", outer)):
        s.define("other" + label, W.sym.VariableSymbol("other", W.B.Int, W.module))
        if W.cx.flag(f"declared in the {label} scope"):
            k = "variable" if found else W.cx.choose("kind", ["variable", "function", "type", "module"])
            sym = some_symbol(W, label, k)
            s.define(name, sym)
            found.append((k, sym))
    W.set(W.an, ctx_scope=inner, scope_depth=2)
    return found


@step("use of a name", "C05 C13", "visit_variable amanda.compiler.symbols.core.Scope.resolve amanda.compiler.symbols.core.Scope.get")
def variable(W):
    found = populated(W)
    n = W.ast.Variable(W.tok("IDENTIFIER", "x"))
    W.run(n)
    kind, sym = found[0] if found else (None, None)
    W.verdict("C05", "a name is used where it is visible and is a value", kind in ("variable", "module"))
    W.prove("C05", "a name means its innermost visible declaration", n.var_symbol is sym)
    W.prove("C05", "a name has the type of its declaration", n.eval_type is sym.type)
    W.restored()


@step("scopes", "C05", "amanda.compiler.symbols.core.Scope.resolve amanda.compiler.symbols.core.Scope.get "
      "amanda.compiler.symbols.core.Scope.define amanda.compiler.symbols.core.Scope.resolve_typed", covers=["found", "not found"])
def scopes(W):
    """Induction on the chain: the enclosing scope resolves by this same contract."""
    S = W.Scope
    outer = S()

    class Names:
        """The enclosing scope answers through its own contract only."""

        def __getattribute__(self, a):
            raise Unsupported("the names of an enclosing scope read directly")

        __contains__ = __getitem__ = __iter__ = __len__ = lambda self, *a: self.get
    outer.symbols = Names()
    s = S(outer if W.cx.flag("enclosed") else None)
    up = W.sym.VariableSymbol("x", W.B.Int, W.module) if W.cx.flag("found further out") else None
    real = S.resolve

    def resolve(self, name):
        if self is outer:
            W.prove("C05", "the same name is looked up further out", name == "x")
            return up
        return real(self, name)
    W.cx.patch(S, "resolve", resolve)
    if W.cx.flag("another name here"):
        s.define("y", W.sym.VariableSymbol("y", W.B.Int, W.module))
    here = None
    if W.cx.flag("declared here"):
        here = W.sym.VariableSymbol("x", W.B.Int, W.module)
        s.define("x", here)
    want = here or (up if s.enclosing_scope is outer else None)
    for f in ("resolve", "resolve_typed"):
        out = W.cx.call(getattr(s, f), "x")
        W.prove("C05", f"{f}: the innermost declaration, or none", out.ok and out.value is want)
    out = W.cx.call(s.get, "x")
    W.prove("C05", "get: the declaration of this very scope, or none", out.ok and out.value is here)
    W.cx.cover("found" if want else "not found")


@step("entering and leaving scopes", "C05", "enter_scope leave_scope", covers=["done"])
def enter_leave(W):
    where = in_depth(W)
    depth = W.an.scope_depth
    own = W.Scope(where) if W.cx.flag("scope given") else None
    out = W.cx.call(lambda: W.an.enter_scope(own) if own else W.an.enter_scope())
    new = W.an.ctx_scope
    W.prove("C05", "entering: the new scope lies within the current one",
            out.ok and new is not where and new.enclosing_scope is where and (own is None or new is own))
    W.prove("C05", "entering: nothing is declared in the new scope", not new.symbols)
    W.prove("C05", "entering: one level deeper", W.an.scope_depth == depth + 1)
    new.define("z", W.sym.VariableSymbol("z", W.B.Int, W.module))
    out = W.cx.call(W.an.leave_scope)
    W.prove("C05", "leaving: the enclosing scope again, without the block's names",
            out.ok and W.an.ctx_scope is where and W.an.scope_depth == depth and where.get("z") is None)
    W.cx.cover("done")


@step("alvo", "C05 C13", "visit_alvo")
def alvo(W):
    k = W.cx.choose("in", ["a method", "a function", "no function"])
    t = W.T("target")
    if k == "a method":
        f = W.sym.MethodSym("m", target_ty=W.ty.Registo("R", W.module, {}), return_ty=W.B.Int, module=W.module)
        f.target_ty = t
    else:
        f = W.sym.FunctionSymbol("f", W.B.Int, module=W.module) if k == "a function" else None
    W.set(W.an, ctx_func=f)
    n = W.ast.Alvo(W.tok("ALVO", "alvo"))
    W.run(n)
    W.verdict("C05", "alvo: only within a method", k == "a method")
    W.prove("C05", "alvo: is the method's own instance", n.eval_type is t and n.var_symbol.name == "alvo" and n.var_symbol.type is t)
    W.restored()


@step("member", "C05 C04 C13", "visit_get _bad_prop_err is_callee")
def get(W):
    a = W.ast
    x = W.expr("owner")
    has = W.cx.choose("the type has", ["no such member", "a field", "a method"])
    ft = W.T("member")
    sym = None
    if has == "a field":
        sym = W.sym.VariableSymbol("m", ft, W.module)
    elif has == "a method":
        sym = W.sym.FunctionSymbol("m", ft, module=W.module, params={})
    W.cx.patch(W.LT, "get_property", lambda self, p: (W.prove("C05", "the written member is looked up", p == "m"), sym)[1])
    W.cx.patch(W.LT, "supports_fields", lambda self: True)
    W.cx.patch(W.LT, "supports_methods", lambda self: True)
    n = a.Get(target=x, member=W.tok("IDENTIFIER", "m"))
    called = W.cx.flag("called")
    parent = a.Call(callee=n, fargs=[]) if called else a.UnaryOp(W.tok("MINUS"), operand=n)
    parent.tag_children()
    W.run(n, tag=False)
    once(W, x)
    W.verdict("C05", "member: a declared field, or a method that is called",
              has == "a field" or (has == "a method" and called))
    is_type(W, n, ft)
    W.prove("C05", "member: the declaration found is the one used", W.out.value is sym)
    W.restored()


@step("path", "C05 C04 C13", "visit_path is_callee")
def path(W):
    a = W.ast
    k = W.cx.choose("the first name is", ["nothing", "a union", "a record", "a variable"])
    nargs = W.cx.choose("arguments of the variant", [0, 1])
    u = W.ty.Uniao("x", W.module, {})
    u.add_variant("W", [])
    if W.cx.flag("the variant exists"):
        u.add_variant("V", [W.T("arg")] * nargs)
    sym = {"nothing": None, "a union": u, "a record": W.ty.Registo("x", W.module, {}),
           "a variable": W.sym.VariableSymbol("x", W.B.Int, W.module)}[k]
    where = in_depth(W)
    if sym:
        W.g.define("x", sym)
    use = W.cx.choose("used", ["called", "as a value", "in a pattern"])
    n = a.Path([a.Variable(W.tok("IDENTIFIER", "x")), a.Variable(W.tok("IDENTIFIER", "V"))])
    parent = (a.Call(callee=n, fargs=[]) if use == "called" else
              a.ADTPattern(n, []) if use == "in a pattern" else a.UnaryOp(W.tok("MINUS"), operand=n))
    parent.tag_children()
    W.run(n, tag=False)
    ok = k == "a union" and "V" in u.variants and (nargs == 0 or use != "as a value")
    W.verdict("C05", "path: an existing variant of a visible union, with its arguments", ok)
    W.prove("C05", "path: the variant named", n.symbol is u.variants["V"])
    is_type(W, n, u)
    W.restored()


@step("the name of a type", "C05 C13", "get_type get_type_sym_or_err construct_ty bind_generic_args")
def type_name(W):
    a = W.ast
    found = populated(W)
    param = None
    if W.cx.flag("a type parameter has the name"):
        param = W.base.TypeVar("x", W.module)
        ctx = W.Scope(W.Scope())
        (ctx if W.cx.flag("of the method") else ctx.enclosing_scope).define("x", param)
        W.set(W.an, ty_ctx=ctx)
    n = a.Type(W.tok("IDENTIFIER", "x"), W.cx.flag("optional"), None)
    W.an.ctx_node = W.at_line(55)
    W.before = W.context()
    out = W.cx.call(W.an.get_type, n)
    W.settle(out)
    want = param or (found[0][1] if found and found[0][0] == "type" else None)
    W.verdict("C05", "type: a visible name of a type", want is not None)
    t = out.value
    if n.maybe_ty:
        W.prove("C05", "type: an optional of the type named", type(t) is W.ty.ConstructedTy and
                t.generic_ty is W.bi.SrcBuiltins.Opcao and list(t.bound_ty_args.values())[0] is want)
    else:
        W.prove("C05", "type: the innermost declaration of the name", t is want)
    W.restored()


@step("vector type", "C05 C13", "get_type", covers=["accepted"])
def vec_type(W):
    n = W.ast.ArrayType(W.tnode("of"), W.cx.flag("optional"))
    W.an.ctx_node = W.at_line(55)
    W.before = W.context()
    out = W.cx.call(W.an.get_type, n)
    W.settle(out)
    W.verdict("C05", "vector type: of any type", True)
    t = out.value
    if n.maybe_ty:
        W.prove("C05", "vector type: optional as written", type(t) is W.ty.ConstructedTy and t.generic_ty is W.bi.SrcBuiltins.Opcao)
        t = list(t.bound_ty_args.values())[0]
    W.prove("C05", "vector type: of the type written", type(t) is W.ty.Vector and t.element_type is n.element_type.ty)


@step("type of a module", "C05 C12 C13", "get_type get_mod_or_err")
def type_path(W):
    first = W.cx.choose("the first name is", ["nothing", "a module", "a variable"])
    m = W.obj(("module", "/m/x"))
    t = W.ty.Registo("t", W.other_module, {})
    if first == "a module":
        W.g.define("x", W.sym.VariableSymbol("x", m, W.module))
    elif first == "a variable":
        W.g.define("x", W.sym.VariableSymbol("x", W.B.Int, W.module))
    second = W.cx.choose("the module has", ["nothing", "the type", "a variable"])
    tgt = m.module.ast.symbols
    hops = W.cx.choose("modules named", [1, 2])
    if hops == 2:
        m2 = W.obj(("module", "/m/y"))
        m.module.ast.symbols.define("y", W.sym.VariableSymbol("y", m2, W.other_module))
        tgt = m2.module.ast.symbols
    if second == "the type":
        tgt.define("t", t)
    elif second == "a variable":
        tgt.define("t", W.sym.VariableSymbol("t", W.B.Int, W.other_module))
    W.g.define("t", W.ty.Registo("t", W.module, {}))
    in_depth(W)
    n = W.ast.TypePath(W.tok("IDENTIFIER", "x"), ["x"] + ["y"] * (hops - 1) + ["t"], False, None)
    W.an.ctx_node = W.at_line(55)
    W.before = W.context()
    out = W.cx.call(W.an.get_type, n)
    W.settle(out)
    W.verdict("C05", "type of a module: a type that the module has", first == "a module" and second == "the type")
    W.prove("C12", "type of a module: the very definition of that module", out.value is t)


@step("generic arguments", "C14 C05 C13", "bind_generic_args get_generic_args construct_ty")
def generic_args(W):
    k = W.cx.choose("parameters", [0, 1, 2, 3])
    given = W.cx.choose("arguments", [1, 2, 3])
    names = ["B", "A", "C"][:k]
    ps = [W.base.TypeVar(p, W.module) for p in names]
    kind = W.cx.choose("the type is", ["a record", "a union", "primitive"])
    r = {"a record": lambda: W.ty.Registo("x", W.module, {}, ps), "a union": lambda: W.ty.Uniao("x", W.module, {}, ps),
         "primitive": lambda: W.B.Int}[kind]()
    W.g.define("x", r)
    args = [W.tnode(f"arg{i}") for i in range(given)]
    same = given == k and W.cx.flag("the arguments are the parameters")
    if same:
        for n, p in zip(args, ps):
            n.ty = p
    else:
        for n in args:
            n.ty = W.T(n.label, ["prim", "vec", "reg", "opt", "uniao"])
    n = W.ast.Type(W.tok("IDENTIFIER", "x"), W.cx.flag("optional"), [W.ast.GenericArg(x) for x in args])
    W.an.ctx_node = W.at_line(55)
    W.before = W.context()
    out = W.cx.call(W.an.get_type, n)
    W.settle(out)
    ok = kind != "primitive" and k == given and (kind == "a record" or same)
    W.verdict("C14", "generic arguments: as many as the type has parameters", ok)
    t = out.value
    if n.maybe_ty:
        W.prove("C14", "generic arguments: optional as written", type(t) is W.ty.ConstructedTy and t.generic_ty is W.bi.SrcBuiltins.Opcao)
        t = list(t.bound_ty_args.values())[0]
    if same:
        W.prove("C14", "generic arguments: the parameters themselves are the generic type", t is r)
    else:
        W.prove("C14", "generic arguments: of the type named", type(t) is W.ty.ConstructedTy and t.generic_ty is r)
        W.prove("C14", "generic arguments: bound in the order written",
                {p: id(v) for p, v in t.bound_ty_args.items()} == {p: id(x.ty) for p, x in zip(names, args)})
    W.cx.bounded.add("up to 3 type parameters and arguments")


# ---------------------------------------------------------------- declarations
# nodes that contain no variable
LEAVES = ("Constant", "IntPattern", "StrPattern", "LoopCtlStmt", "Usa", "Type", "FunctionDecl", "Registo", "Uniao", "Param",
          "Annotation", "GenericParam", "GenericArg", "TypePath", "ArrayType", "Alvo", "Path")


@step("variable declaration", "C04 C05 C10 C13", "visit_vardecl assert_can_use_ident define_symbol uses_symbol")
def vardecl(W):
    a = W.ast
    where = in_depth(W)
    in_reg = W.cx.flag("in a record")
    if in_reg:
        where = W.Scope(where)
        W.set(W.an, ctx_reg=W.ty.Registo("R", W.module, where.symbols), ctx_scope=where, scope_depth=W.an.scope_depth + 1)
    used = W.cx.choose("the name is", ["new", "declared here", "declared further out"])
    old = W.sym.VariableSymbol("x", W.T("old"), W.module)
    if used == "declared here":
        where.define("x", old)
    elif used == "declared further out":
        if where is W.g:
            raise PathEnd()
        where.enclosing_scope.define("x", old)
    t = W.tnode("type", ["prim", "vec", "reg", "opt", "tvar"])
    init = not in_reg and W.cx.flag("initialised")
    asg = None
    if init:
        v = W.expr("value", lacks=["var_symbol"])
        asg = a.Assign(W.tok("EQUAL"), left=a.Variable(W.tok("IDENTIFIER", "x")), right=v)
        if W.cx.flag("uses itself"):
            # the value, or anything inside it, mentions the variable
            at = v
            for i in range(W.cx.choose("how deep", [0, 1, 2])):
                at.parts = [W.stub(f"{w} {i}", W.ast.ASTNode, lacks=["var_symbol"], any_kind=True,
                                   kinds={getattr(W.ast, k): False for k in LEAVES if hasattr(W.ast, k)}) for w in ("part", "another part")]
                at = W.cx.choose(f"in part {i}", at.parts)

            def on_visit(node):
                at.var_symbol = W.an.ctx_scope.resolve("x")
            v.on_visit = on_visit
    n = a.VarDecl(W.tok("COLON"), name=W.tok("IDENTIFIER", "x"), var_type=t, assign=asg)
    W.run(n)
    if used == "declared here":
        W.verdict("C05", "declaration: once per scope", False)
    zero = W.deref(t.ty).zero_initialized
    if init:
        W.prove("C05", "declaration: the value does not see the variable", not (W.out.ok and v.__dict__.get("on_visit")))
        W.verdict("C04", "declaration: with a value of the declared type", W.fits(v.ty, t.ty) and not v.__dict__.get("on_visit"))
        W.prove("C04", "declaration: the conversion of the value is recorded", W.conv_ok(v, t.ty))
        W.prove("C04", "declaration: the value is checked once", v.visits == 1)
    else:
        W.verdict("C04", "declaration: without a value, of a type that has a default", in_reg or zero)
    s = where.get("x")
    W.prove("C05", "declaration: declares the name in this scope", s is not None and s is not old and s.name == "x" and s.type is t.ty)
    W.prove("C05", "declaration: nothing else is declared further out",
            where is W.g or where.enclosing_scope.get("x") in ((old,) if used == "declared further out" else (None,)))
    W.prove("C10", "declaration: a local has a storage name of its own",
            W.an.scope_depth == 0 or (s.out_id != "x" and not s.is_global))
    W.prove("C10", "declaration: a variable of the module is global", W.an.scope_depth > 0 or in_reg or s.is_global)
    W.restored()


class Names(dict):
    """The names of a scope: some, then those that were declared here."""

    def __init__(self, n):
        super().__init__()
        self.n = n

    def sym_len(self):
        return self.n + dict.__len__(self)

    def __bool__(self):
        raise Unsupported("whether a scope has names")


def some_scope(W, label, enclosing, depth):
    s = W.Scope(enclosing)
    s.symbols = Names(W.cx.int("names of " + label, 0))
    s.deep = depth
    return s


def own_places(W):
    """Scopes of any depth with any number of names in them."""
    W.cx.templates = True
    S = W.Scope
    real = S.depth
    W.cx.patch(S, "depth", lambda self: self.deep if self.__dict__.get("given") else real(self))
    d = W.cx.int("depth", 0)
    outer = W.Scope()
    outer.deep, outer.given = d, True
    f = some_scope(W, "scope", outer, d + 1)
    rel = W.cx.choose("the second is", ["in the same scope", "in a nested scope"])
    if rel == "in the same scope":
        return d, f, f
    between = some_scope(W, "between", f, None)
    d2 = W.cx.int("depth of the nested one", 0)
    W.cx.assume(d2 >= d + 1)
    between.deep, between.given = d2, True
    return d, f, some_scope(W, "nested", between, d2 + 1)


@step("storage names", "C10", "define_symbol is_valid_name amanda.compiler.symbols.core.Scope.count amanda.compiler.symbols.core.Scope.define", covers=["done"])
def storage(W):
    """Two declarations of nested or of the same scope, of any depth and with any number
    of names before and between them, never share a storage name."""
    d, f, s = own_places(W)
    names = ["x", "_a_", "print"]
    a = W.sym.VariableSymbol(W.cx.choose("first", names), W.B.Int, W.module)
    b = W.sym.VariableSymbol(W.cx.choose("second", names), W.B.Int, W.module)
    if f is s and a.name == b.name:
        raise PathEnd()
    o = W.cx.call(W.an.define_symbol, a, d + 1, f)
    W.prove("C10", "storage names: is declared", o.ok and f.symbols.get(a.name) is a)
    for x in {id(f): f, id(s): s}.values():
        more = W.cx.int("names between", 0)
        x.symbols.n = x.symbols.n + more
    o2 = W.cx.call(W.an.define_symbol, b, (d + 1) if s is f else s.enclosing_scope.deep + 1, s)
    W.prove("C10", "storage names: is declared", o2.ok and s.symbols.get(b.name) is b and f.symbols.get(a.name) is (b if s is f and a.name == b.name else a))
    W.prove("C10", "storage names: are different", a.out_id != b.out_id, lambda: (a.out_id, b.out_id))
    W.prove("C10", "storage names: are no identifiers of the program", all(getattr(x.out_id, "is_template", False) or x.out_id != "x" for x in (a, b)))
    W.cx.cover("done")


@step("places of the compiler", "C10 C07", "amanda.compiler.symbols.core.Scope.new_unique_var amanda.compiler.symbols.core.Scope.depth "
      "amanda.compiler.symbols.core.Scope.count amanda.compiler.symbols.core.Scope.define", covers=["done"])
def unique(W):
    """The variables that the compiler makes up, in any scope and with any number of names
    before and between them: different from each other and from the names of the program."""
    d, f, s = own_places(W)
    t, t2 = W.T("first"), W.T("second")
    o = W.cx.call(f.new_unique_var, t, W.module)
    for x in {id(f): f, id(s): s}.values():
        x.symbols.n = x.symbols.n + W.cx.int("names between", 0)
    o2 = W.cx.call(s.new_unique_var, t2, W.module)
    W.prove("C10 C07", "new variable: there always is one", o.ok and o2.ok)
    a, b = o.value, o2.value
    for p in ("C10", "C07"):
        for x, ty, sc in ((a, t, f), (b, t2, s)):
            W.prove(p, "new variable: of the type asked for", isinstance(x, W.sym.VariableSymbol) and x.type is ty and x.module is W.module)
            W.prove(p, "new variable: is declared in the scope", any(y is x for y in dict.values(sc.symbols)) and
                    any(k is x.name for k in dict.keys(sc.symbols)))
        W.prove(p, "new variable: has a name of its own", a.name != b.name, lambda: (a.name, b.name))
        W.prove(p, "new variable: has a place of its own", a.out_id != b.out_id, lambda: (a.out_id, b.out_id))
        W.prove(p, "new variable: its name is none of the program", all(not str(x.name)[0].isidentifier() and not str(x.name)[0].isdigit() for x in (a, b)))
    W.cx.cover("done")


@step("parameters", "C05 C04 C10 C13", "define_func_scope visit_param", covers=["accepted", "refused"])
def params(W):
    a = W.ast
    k = W.cx.choose("parameters", [0, 1, 2, 3])
    names = [W.cx.choose(f"name {i}", ["a", "b", "c"][:i + 1]) for i in range(k)]
    ts = [W.tnode(f"type{i}") for i in range(k)]
    for t in ts[:-1]:
        t.may_fail = False
    ps = [a.Param(t, W.tok("IDENTIFIER", n, 51 + i)) for i, (t, n) in enumerate(zip(ts, names))]
    W.an.ctx_node = W.at_line(50)
    W.before = W.context()
    out = W.cx.call(W.an.define_func_scope, "f", ps)
    W.settle(out)
    W.verdict("C05", "parameters: of different names", len(set(names)) == k)
    scope, d = out.value
    W.prove("C04", "parameters: in the order written, with the types written",
            [(n, s.type) for n, s in d.items()] == [(n, t.ty) for n, t in zip(names, ts)] if not k else
            list(d) == names and all(s.type is t.ty for s, t in zip(d.values(), ts)))
    W.prove("C05", "parameters: are visible in the function's scope only",
            all(scope.get(n) is d[n] for n in names) and scope.enclosing_scope is W.an.ctx_scope and
            all(W.g.get(n) is None for n in names))
    ids = [scope.get(n).out_id for n in names]
    W.prove("C10", "parameters: have storage names of their own", len(set(ids)) == k)
    W.prove("C10", "parameters: take the first slots in order", [scope.locals.get(i) for i in ids] == list(range(k)))
    W.cx.bounded.add("functions of up to 3 parameters")


@step("function declaration", "C04 C05 C06 C13", "visit_functiondecl validate_decl_in_scope validate_num_params make_func_symbol "
      "define_func_scope validate_return check_function_body")
def funcdecl(W):
    a = W.ast
    place = W.cx.choose("place", ["global", "nested"])
    if place == "nested":
        W.set(W.an, ctx_scope=W.Scope(W.Scope(W.g)), scope_depth=2)
    taken = W.cx.flag("the name is taken")
    if taken:
        W.an.ctx_scope.define("f", W.sym.VariableSymbol("f", W.B.Int, W.module))
    t = W.tnode("result")
    written = W.cx.flag("result written")
    body = W.block("body")
    p = W.tnode("param type")
    p.may_fail = False
    many = W.cx.choose("parameters", [1, 255, 256])
    ps = [a.Param(p, W.tok("IDENTIFIER", f"a{i}")) for i in range(many)]
    seen = {}

    def on_visit(node):
        f = W.an.ctx_func
        seen.update(func=f, symbol=W.g.get("f"), scope=node.seen[-1]["arg"], loop=W.an.in_loop, yb=W.an.ctx_yield_block)
    body.on_visit = on_visit
    n = a.FunctionDecl(name=W.tok("IDENTIFIER", "f"), params=ps, block=body, annotations=[], func_type=t if written else None)
    W.run(n)
    W.prove("C05", "function: only in the global scope, of a name that is not taken", W.out.rejected or (place == "global" and not taken))
    ty = t.ty if written else W.B.Vazio
    if place == "nested" or taken:
        W.verdict("C05", "function: only in the global scope, of a name that is not taken", False)
    if many > 255:
        W.verdict("C04", "function: of at most 255 parameters", False)
    void = W.eq(ty, W.B.Vazio)
    W.verdict("C06", "function: with a result, only if every path returns", void or body.returns_always())
    W.prove("C06", "function: the body is checked once", body.visits == 1)
    s = W.g.get("f")
    W.prove("C05", "function: declares its name", isinstance(s, W.sym.FunctionSymbol) and s.name == "f" and n.symbol is s)
    W.prove("C04", "function: has the type written", s.type is ty or W.eq(s.type, ty))
    W.prove("C05", "function: the body sees the function itself", seen.get("symbol") is s)
    W.prove("C06", "function: the body belongs to this function", seen.get("func") is s)
    sc = seen.get("scope")
    W.prove("C05", "function: the body sees the parameters and the global names",
            sc is not None and sc.enclosing_scope is W.g and all(sc.get(f"a{i}") is not None for i in range(many)))
    W.prove("C04", "function: declares its parameters in order", list(s.params) == [f"a{i}" for i in range(many)]
            and all(x.type is p.ty for x in s.params.values()))
    W.restored()


@step("method declaration", "C14 C04 C05 C06 C10 C13", "visit_methoddecl get_generic_params get_generic_ty_ctx validate_decl_in_scope "
      "make_func_symbol define_func_scope validate_return check_function_body")
def methoddecl(W):
    a = W.ast
    place = W.cx.choose("place", ["global", "nested"])
    kind = W.cx.choose("target", ["primitive", "record", "union", "optional", "vector", "parameter", "generic", "instance"])
    k, order = 0, []
    if place == "nested":
        W.set(W.an, ctx_scope=W.Scope(W.Scope(W.g)), scope_depth=2)
    ps = [W.base.TypeVar(x, W.module) for x in ("T", "A", "X")]
    names = []
    if kind == "primitive":
        target = base = W.obj(("prim", W.cx.choose("tag", ["TINT", "TTEXTO"])))
    elif kind == "record":
        target = base = W.ty.Registo("R", W.cx.choose("of", [W.module, W.other_module]), {})
    elif kind == "union":
        target = base = W.ty.Uniao("R", W.module, {})
    elif kind == "optional":
        target = base = W.bi.SrcBuiltins.Opcao.bind(T=W.B.Int)
    elif kind == "vector":
        target = base = W.ty.Vector(W.module, W.B.Int)
    elif kind == "parameter":
        target = base = W.base.TypeVar("X", W.module)
        names = ["X"]
    else:
        k = W.cx.choose("parameters", [1, 2, 3])
        ps = ps[:k]
        base = W.ty.Registo("R", W.module, {}, ps)
        if kind == "generic":
            names = W.cx.choose("names", [["T", "A", "X"], ["X", "Y", "Z"], ["A", "T", "U"]])[:k]
            order = W.cx.choose("order", [[0, 1, 2], [2, 1, 0], [1, 2, 0]])
            order = [i for i in order if i < k]
            tv = [W.base.TypeVar(x, W.module) for x in names]
            target = base.bind(**{p.name: tv[i] for p, i in zip(ps, order)})
            if list(target.bound_ty_args.values()) == ps:
                target = base   # what the name of the type stands for
        else:
            target = base = base.bind(**{p.name: W.B.Int for p in ps})
    # what is there already (method tables of primitives are kept in the class)
    W.cx.patch(W.ty.Primitive, "methods", {})
    has = W.cx.choose("the type has", ["nothing", "a field of the name", "a method of the name", "another method"])
    owner = base.generic_ty if type(base) is W.ty.ConstructedTy else base
    old = None
    if has == "a field of the name":
        if type(owner) is not W.ty.Registo or kind == "optional":
            raise PathEnd()
        old = owner.fields["m"] = W.sym.VariableSymbol("m", W.B.Int, W.module)
    elif has != "nothing":
        if kind in ("vector", "parameter"):
            raise PathEnd()
        x = "m" if has == "a method of the name" else "m2"
        o = W.sym.MethodSym(x, target_ty=base, return_ty=W.B.Int, module=W.module)
        if kind == "optional":
            W.cx.patch(owner, "methods", dict(owner.methods))
        owner.define_method(o)
        old = o if x == "m" else None
    elif kind == "optional":
        W.cx.patch(owner, "methods", dict(owner.methods))
    t_target, t_result = W.tnode("target", ty=target), W.tnode("result")
    t_param = W.tnode("param type")
    t_target.may_fail = t_param.may_fail = False
    want = {}
    if kind == "generic":
        for p, i in zip(ps, order):
            want[names[i]] = p
    seen = []

    def resolved(label):
        def f(n):
            seen.append((label, {x: W.an.ty_ctx.resolve(x) for x in names}))
        return f
    t_result.on_type, t_param.on_type = resolved("result"), resolved("parameter")
    body = W.block("body")

    def on_visit(node):
        resolved("body")(node)
        seen[-1] = seen[-1] + (W.an.ctx_func, node.seen[-1]["arg"])
    body.on_visit = on_visit
    outer = W.cx.choose("a name in use", ["m", "p", "none"])
    if outer != "none":
        W.g.define(outer, W.sym.VariableSymbol(outer, W.B.Int, W.module))
    n = a.MethodDecl(target_ty=t_target, name=W.tok("IDENTIFIER", "m"), return_ty=t_result, block=body, annotations=[],
                     params=[a.Param(t_param, W.tok("IDENTIFIER", "p"))],
                     generic_params=[a.GenericParam(W.tok("IDENTIFIER", x)) for x in names] or W.cx.choose("none as", [None, []]))
    W.run(n)
    bad = place == "nested" or kind in ("vector", "parameter")
    if bad or old is not None:
        W.verdict("C05", "method: in the global scope, of a type that may have it, of a name that is not taken", False)
    void = W.eq(t_result.ty, W.B.Vazio)
    W.verdict("C06", "method: with a result, only if every path returns", void or body.returns_always())
    W.prove("C06", "method: the body is checked once", body.visits == 1)
    s = n.symbol
    W.prove("C05", "method: belongs to the type written", type(s) is W.sym.MethodSym and s.target_ty is base and s.method_name == "m"
            and owner.get_property("m") is s)
    W.prove("C04", "method: has the result written", s.type is t_result.ty and s.return_ty is t_result.ty)
    W.prove("C04", "method: has the parameters written", list(s.params) == ["p"] and s.params["p"].type is t_param.ty)
    W.prove("C05", "method: is no name of the module", W.g.get("m") is None or outer == "m")
    for x in seen:
        W.prove("C14", f"method: a parameter of its own names the one of the type in its place: {x[0]}",
                {q: v and v.name for q, v in x[1].items()} == {q: v.name for q, v in want.items()})
    inside = [x for x in seen if x[0] == "body"][0]
    W.prove("C05", "method: the body belongs to this method", inside[2] is s)
    sc = inside[3]
    W.prove("C05", "method: the body sees the parameters and its instance", sc.enclosing_scope is W.g and sc.get("p") is s.params["p"]
            and sc.get("alvo") is not None and sc.get("alvo").type is base)
    W.prove("C10", "method: the instance and the parameters have storage of their own", sc.get("alvo").out_id != sc.get("p").out_id)
    W.restored()


@step("record declaration", "C05 C04 C13", "visit_registo visit_vardecl get_generic_params get_generic_ty_ctx assert_can_use_ident")
def registo(W):
    a = W.ast
    taken = W.cx.flag("the name is taken")
    if taken:
        W.g.define("R", W.sym.VariableSymbol("R", W.B.Int, W.module))
    k = W.cx.choose("fields", [0, 1, 2, 3])
    names = [W.cx.choose(f"name {i}", ["a", "b", "c"][:i + 1]) for i in range(k)]
    ts = [W.tnode(f"type{i}") for i in range(k)]
    seen = []
    for t in ts[:-1]:
        t.may_fail = False
    gp = W.cx.choose("type parameters", [None, ["T"], ["B", "A"], ["T", "T"]])
    fs = [a.VarDecl(W.tok("COLON"), name=W.tok("IDENTIFIER", n), var_type=t) for n, t in zip(names, ts)]
    n = a.Registo(name=W.tok("IDENTIFIER", "R"), fields=fs, annotations=[],
                  generic_params=None if gp is None else [a.GenericParam(W.tok("IDENTIFIER", g)) for g in gp])
    outer = W.g.get("a")
    W.run(n)
    dup = gp is not None and len(set(gp)) < len(gp)
    W.verdict("C05", "record: of a new name, with fields and type parameters of different names",
              not taken and len(set(names)) == k and not dup)
    r = W.g.get("R")
    W.prove("C05", "record: declares a type", type(r) is W.ty.Registo and r.name == "R" and r.is_type())
    W.prove("C04", "record: has the fields written, in order, with their types",
            list(r.fields) == names and all(f.type is t.ty for f, t in zip(r.fields.values(), ts)))
    W.prove("C05", "record: its fields are no names of the module", all(W.g.get(x) is None for x in names))
    W.prove("C05", "record: its type parameters are those written, in order", [p.name for p in r.ty_params] == (gp or []))
    W.restored()
    W.cx.bounded.add("records of up to 3 fields")


@step("union declaration", "C05 C04 C13", "visit_uniao amanda.compiler.check.uniao.check_uniao amanda.compiler.check.uniao.check_variant "
      "amanda.compiler.types.core.Uniao.add_variant amanda.compiler.types.core.Uniao.contains_variant")
def uniao(W):
    a = W.ast
    taken = W.cx.flag("the name is taken")
    if taken:
        W.g.define("U", W.sym.VariableSymbol("U", W.B.Int, W.module))
    k = W.cx.choose("variants", [1, 2, 3])
    names = [W.cx.choose(f"name {i}", ["A", "B", "C"][:i + 1]) for i in range(k)]
    ar = [W.cx.choose(f"arity {i}", [0, 1, 2] if i == 0 else [0, 1]) for i in range(k)]
    ts = [[W.tnode(f"type{i}.{j}") for j in range(m)] for i, m in enumerate(ar)]
    for x in ts:
        for t in x[:-1]:
            t.may_fail = False
    n = a.Uniao(name=W.tok("IDENTIFIER", "U"), variants=[a.UniaoVariant(W.tok("IDENTIFIER", x), t) for x, t in zip(names, ts)],
                annotations=[], generic_params=[])
    W.run(n)
    W.verdict("C05", "union: of a new name, with variants of different names", not taken and len(set(names)) == k)
    u = W.g.get("U")
    W.prove("C05", "union: declares a type", type(u) is W.ty.Uniao and u.name == "U")
    W.prove("C04", "union: has the variants written, in order", list(u.variants) == names and [v.tag for v in u.variants.values()] == list(range(k)))
    W.prove("C04", "union: each variant has the arguments written, in order",
            all(len(v.params) == len(t) and all(p is x.ty for p, x in zip(v.params, t)) for v, t in zip(u.variants.values(), ts)))
    W.prove("C05", "union: its variants are no names of the module", all(W.g.get(x) is None for x in names))
    W.restored()
    W.cx.bounded.add("unions of up to 3 variants of up to 2 arguments")


# ------------------------------------------------------------------ statements
@step("block", "C05 C04 C06", "visit_block visit_children enter_scope leave_scope", covers=["accepted"], infer=2)
def block(W):
    where = in_depth(W)
    own = W.Scope(where) if W.cx.flag("scope given") else None
    loop = W.cx.flag("in a loop")
    W.set(W.an, in_loop=loop)
    inside = {}

    def on_visit(node):
        inside["scope"] = W.an.ctx_scope
        inside["depth"] = W.an.scope_depth
        W.prove("C05", "block: its statements run in its own scope", W.an.ctx_scope.enclosing_scope is where and
                (own is None or W.an.ctx_scope is own) and W.an.scope_depth == W.before["scope_depth"] + 1)
        W.prove("C06", "block: its statements are in the same loop and function", W.an.in_loop == loop)
    ch = W.seq("statements", lambda: W.stub("statement", W.ast.ASTNode, on_visit=on_visit))
    n = W.ast.Block.__new__(W.ast.Block)
    W.ast.Block.__init__(n)
    n.children = ch
    W.before = W.context()
    out = W.cx.call(lambda: W.an.visit(n, own) if own else W.an.visit(n))
    W.settle(out)
    W.verdict("C04", "block: any statements", True)
    W.prove("C04", "block: every statement is checked once", W.done(ch, "visited once"))
    W.prove("C05", "block: keeps its scope", n.symbols is not None and (n.symbols is own or own is None) and n.symbols.enclosing_scope is where)
    W.restored()


@step("se", "C04 C06 C13", "visit_se visit_senaose", infer=2)
def se(W):
    a = W.ast
    c, t = W.expr("condition"), W.block("then")
    els = W.block("else") if W.cx.flag("else") else None
    br = W.seq("branches", lambda: W.stub("branch", a.SenaoSe))
    n = a.Se(W.tok("SE"), c, t, elsif_branches=br, else_branch=els)
    W.set(W.an, in_loop=W.cx.flag("in a loop"))
    W.run(n)
    W.verdict("C04", "se: on a bool", W.eq(c.ty, W.B.Bool))
    once(W, c, t, *([els] if els else []))
    W.prove("C04", "se: every branch is checked", W.done(br, "visited once"))
    W.prove("C06", "se: branches are in the same loop", all(x["in_loop"] == W.before["in_loop"] for b in (t, els) if b for x in b.seen))
    W.restored()


@step("senaose", "C04 C13", "visit_senaose")
def senaose(W):
    c, t = W.expr("condition"), W.block("then")
    n = W.ast.SenaoSe(W.tok("SENAOSE"), c, t)
    W.run(n)
    W.verdict("C04", "senaose: on a bool", W.eq(c.ty, W.B.Bool))
    once(W, c, t)
    W.restored()


@step("enquanto", "C04 C06 C13", "visit_enquanto")
def enquanto(W):
    c, b = W.expr("condition"), W.block("body")
    loop = W.cx.flag("in a loop")
    W.set(W.an, in_loop=loop)
    n = W.ast.Enquanto(W.tok("ENQUANTO"), c, b)
    W.run(n)
    W.verdict("C04", "enquanto: on a bool", W.eq(c.ty, W.B.Bool))
    once(W, c, b)
    W.prove("C06", "enquanto: the body is in a loop", b.visits == 1 and b.seen[0]["in_loop"])
    W.prove("C06", "enquanto: the condition is not", c.seen[0]["in_loop"] == loop)
    W.restored()


@step("para", "C04 C05 C06 C10 C13", "visit_para visit_paraexpr visit_rangeexpr")
def para(W):
    a = W.ast
    where = in_depth(W)
    loop = W.cx.flag("in a loop")
    W.set(W.an, in_loop=loop)
    s, e = W.expr("start"), W.expr("end")
    i = W.expr("inc") if W.cx.flag("increment") else None
    b = W.block("body")
    n = a.Para(W.tok("PARA"), a.ParaExpr(W.tok("IDENTIFIER", "i"), a.RangeExpr(W.tok("DE"), s, e, i)), b)
    W.run(n)
    parts = [x for x in (s, e, i) if x]
    W.verdict("C04", "para: over a range of ints", all(W.eq(x.ty, W.B.Int) for x in parts))
    once(W, b, *parts)
    c = b.seen[0]
    v = c["arg"].get("i") if c["arg"] is not None else None
    W.prove("C05", "para: the body has a scope with the loop variable", v is not None and c["arg"].enclosing_scope is where)
    W.prove("C05", "para: the loop variable is an int of its own", W.eq(v.type, W.B.Int) and where.get("i") is None)
    W.prove("C05", "para: the range does not see the loop variable", all(x.seen[0]["ctx_scope"] is where for x in parts))
    W.prove("C06", "para: the body is in a loop", c["in_loop"])
    W.prove("C06", "para: the range is not", all(x.seen[0]["in_loop"] == loop for x in parts))
    W.prove("C10", "para: the loop variable has a storage name of its own", v.out_id != "i" and not v.is_global)
    W.restored()


@step("escolha", "C04 C05 C10 C13", "visit_escolha", infer=3)
def escolha(W):
    a = W.ast
    where = in_depth(W)
    x = W.expr("value")

    def case():
        c = W.stub("case", a.CaseBlock)
        c.is_stub = True
        c.expression, c.block = W.expr("case value"), W.block("case block")
        c.expression.seq = c.block.seq = None
        return c
    fits = lambda c: W.fits(c.expression.ty, x.ty)
    seen = lambda c: c.expression.visits >= 1 and c.block.visits == 1
    cs = W.seq("cases", case, {"fits": fits, "seen": seen}, {})
    for f in ("visited once", "checked"):
        cs.facts.pop(f)
    d = W.block("default") if W.cx.flag("default") else None
    n = a.Escolha(W.tok("ESCOLHA"), x, cs, d)
    W.run(n)
    val = W.eq(x.ty, W.B.Int) or W.eq(x.ty, W.B.Texto)
    if W.out.rejected:
        W.verdict("C04", "escolha: refused only for another type of value or of a case", val and (cs.current is None or fits(cs.current)))
    W.verdict("C04", "escolha: on an int or a text", val)
    once(W, x, *([d] if d else []))
    for f in ("fits", "seen"):
        W.prove("C04", f"escolha: every case {f}", W.done(cs, f))
    s = n.target_binding
    W.prove("C10", "escolha: the value is kept in a variable of its own", s is not None and s.type is x.ty and
            " " in s.name and s.out_id != s.name)
    W.prove("C05", "escolha: declares no name", set(where.symbols) == set(where.symbols) - {" escolha"})
    W.restored()


@step("mostra", "C04 C13", "visit_mostra", covers=["accepted"])
def mostra(W):
    x = W.expr("value")
    n = W.ast.Mostra(W.tok("MOSTRA"), x)
    W.run(n)
    W.verdict("C04", "mostra: of any value", True)
    once(W, x)


@step("quebra and continua", "C06 C13", "visit_loopctlstmt")
def loopctl(W):
    in_depth(W)
    loop = W.cx.flag("in a loop")
    W.set(W.an, in_loop=loop)
    k = W.cx.choose("statement", ["QUEBRA", "CONTINUA"])
    n = W.ast.LoopCtlStmt(W.tok(k, k.lower()))
    W.run(n)
    W.verdict("C06", "quebra and continua: exactly within a loop", loop)
    W.restored()


@step("retorna", "C04 C06 C13", "visit_retorna")
def retorna(W):
    inside = W.cx.flag("in a function")
    t = W.T("result")
    f = W.sym.FunctionSymbol("f", t, module=W.module) if inside else None
    yb = None
    if inside and W.cx.flag("in an arm"):
        yb = W.ast.YieldBlock(W.tok("FACA"), [])
        yb.has_return = W.cx.flag("after another return")
    W.set(W.an, ctx_func=f, ctx_yield_block=yb)
    x = W.expr("value") if W.cx.flag("value given") else None
    n = W.ast.Retorna(W.tok("RETORNA"), x)
    W.run(n)
    if not inside:
        W.verdict("C06", "retorna: only within a function", False)
    void = W.eq(t, W.B.Vazio)
    if void or x is None:
        W.verdict("C04", "retorna: a value exactly when the function has a result", void == (x is None))
    else:
        W.verdict("C04", "retorna: a value of the function's type", W.fits(x.ty, t))
        once(W, x)
        W.prove("C04", "retorna: the conversion of the value is recorded", W.conv_ok(x, t))
    if yb is not None:
        W.prove("C06", "retorna: the arm is known to return", yb.has_return is True)
    W.restored()


@step("produz", "C06 C04 C13", "visit_produz")
def produz(W):
    x = W.expr("value")
    n = W.ast.Produz(W.tok("PRODUZ"), x)
    where = W.cx.choose("place", ["no arm", "last", "not last", "nested"])
    yb = None
    if where != "no arm":
        other = W.stub("other", W.ast.ASTNode)
        yb = W.ast.YieldBlock(W.tok("FACA"), {"last": [other, n], "not last": [n, other], "nested": [other]}[where])
    W.set(W.an, ctx_yield_block=yb)
    W.run(n)
    W.verdict("C06", "produz: only as the last statement of an arm", where == "last")
    once(W, x)
    W.prove("C04", "produz: the arm has the type of the value", yb.eval_type is x.ty)
    W.restored()


@step("arm", "C06 C05 C04 C13", "visit_yieldblock", infer=2)
def yieldblock(W):
    where = in_depth(W)
    loop = W.cx.flag("in a loop")
    W.set(W.an, in_loop=loop, ctx_yield_block=W.ast.YieldBlock(W.tok("FACA"), []))
    own = W.Scope(where)
    t = W.T("value")
    n = W.ast.YieldBlock(W.tok("FACA"), [])
    n.symbols = own
    produces = W.cx.flag("produces")
    returns = W.cx.flag("returns")

    def on_visit(node):
        W.prove("C05", "arm: its statements run in the scope of its pattern", W.an.ctx_scope is own)
        W.prove("C06", "arm: its statements belong to it", W.an.ctx_yield_block is n and W.an.in_loop == loop)
    ch = [W.stub("first", W.ast.ASTNode, on_visit=on_visit), W.stub("last", W.ast.ASTNode)]

    def last(node):
        on_visit(node)
        if produces:
            n.eval_type = t
        if returns:
            n.has_return = True
    ch[1].on_visit = last
    n.children = ch
    W.run(n)
    W.verdict("C06", "arm: does not both produce a value and return", not (produces and returns and not W.eq(t, W.B.Vazio)))
    W.prove("C04", "arm: every statement is checked once", all(c.visits == 1 for c in ch))
    W.prove("C04", "arm: has the type of the value it produces", n.eval_type is t if produces else W.eq(n.eval_type, W.B.Vazio))
    W.restored()
    W.cx.bounded.add("an arm of two statements")


# ---------------------------------------------------------------------- calls
@step("call of a function", "C04 C05 C13", "visit_call validate_call check_arity refuse_named_args", infer=4)
def call(W):
    a = W.ast
    t = W.T("result")

    def arg():
        named = W.cx.choose("argument", ["plain", "named"]) == "named"
        e = W.expr("argument", base=a.NamedArg if named else a.Expr)
        e.named = named
        if named:
            e.name = W.tok("IDENTIFIER", "k")
        e.partner = W.sym.VariableSymbol("p", W.T("param"), W.module)
        return e
    fits = lambda e: W.fits(e.ty, e.partner.type)
    conv = lambda e: W.conv_ok(e, e.partner.type)

    def plain(e):
        if e.named:
            raise PathEnd()
    args = W.seq("arguments", arg, {"fits": fits, "converts": conv, "plain": lambda e: not e.named},
                 {"fits": lambda e: W.cx.assume(True), "converts": lambda e: None, "plain": plain})
    params = SymSeq(W.cx, "parameters", lambda: None)
    params.mate = args
    f = W.sym.FunctionSymbol("f", t, module=W.module)
    f.params = params
    f.is_property = W.cx.flag("method")
    kind = W.cx.choose("the name is", ["a function", "nothing", "a variable"])
    in_depth(W)
    if kind == "a function":
        W.g.define("f", f)
    elif kind == "a variable":
        W.g.define("f", W.sym.VariableSymbol("f", W.T("v"), W.module))
    n = a.Call(callee=a.Variable(W.tok("IDENTIFIER", "f")), fargs=args)
    W.run(n)
    if kind != "a function":
        W.verdict("C05", "call: of a visible function", False)
    if W.out.rejected:
        e = args.current
        same = W.cx.decide(args.n.t == params.n.t)
        bad = e is not None and (e.named or not fits(e))
        W.verdict("C04", "call: refused only for the number, names or types of the arguments", same and not bad)
    W.cx.cover("accepted")
    W.prove("C04", "call: as many arguments as parameters", args.n == params.n)
    for f_ in ("visited once", "plain", "fits", "converts"):
        W.prove("C04", f"call: every argument {f_}", W.done(args, f_))
    W.prove("C04", "call: has the function's type", n.eval_type is t)
    W.prove("C05", "call: of the function named", n.symbol is f)
    W.restored()


@step("initialiser of a record", "C04 C13", "visit_call validate_initializer visit_namedarg")
def initializer(W):
    a = W.ast
    k = W.cx.choose("fields", [0, 1, 2])
    fields = {n: W.sym.VariableSymbol(n, W.T("field " + n), W.module) for n in ["a", "b"][:k]}
    r = W.ty.Registo("R", W.module, fields)
    W.g.define("R", r)
    m = W.cx.choose("arguments", [0, 1, 2, 3] if k == 2 else [0, 1, 2])
    vals, args, names = [], [], []
    for i in range(m):
        v = W.expr(f"value{i}")
        v.may_fail = i == m - 1
        nm = W.cx.choose(f"name{i}", ["a", "b", "c", None])
        vals.append(v)
        names.append(nm)
        args.append(v if nm is None else a.NamedArg(name=W.tok("IDENTIFIER", nm), arg=v))
    n = a.Call(callee=a.Variable(W.tok("IDENTIFIER", "R")), fargs=args)
    W.run(n)
    ok = sorted(map(str, names)) == sorted(fields)
    W.verdict("C04", "initialiser: each field exactly once, with a value of its type",
              ok and all(W.fits(v.ty, fields[nm].type) for v, nm in zip(vals, names)))
    once(W, *vals)
    W.prove("C04", "initialiser: makes the record", n.eval_type is r and n.symbol is r)
    for x, v, nm in zip(args, vals, names):
        x.ty = v.ty
        W.prove("C04", "initialiser: the argument has the type of its value", x.eval_type is v.ty)
        W.prove("C04", "initialiser: the conversion of the value is recorded", W.conv_ok(x, fields[nm].type))
    W.restored()
    W.cx.bounded.add("records of up to 2 fields, initialisers of up to 3 arguments")


@step("construction of a variant", "C04 C13", "visit_call visit_path amanda.compiler.check.uniao.validate_variant_init", infer=4)
def variant(W):
    a = W.ast

    def arg():
        named = W.cx.choose("argument", ["plain", "named"]) == "named"
        e = W.expr("argument", base=a.NamedArg if named else a.Expr)
        e.named = named
        e.partner = W.T("param")
        return e

    def plain(e):
        if e.named:
            raise PathEnd()
    fits = lambda e: W.fits(e.ty, e.partner)
    conv = lambda e: W.conv_ok(e, e.partner)
    args = W.seq("arguments", arg, {"fits": fits, "converts": conv, "plain": lambda e: not e.named},
                 {"fits": lambda e: None, "converts": lambda e: None, "plain": plain})
    params = SymSeq(W.cx, "parameters", lambda: None)
    params.mate = args
    u = W.ty.Uniao("U", W.module, {})
    u.add_variant("W", [])
    u.add_variant("V", params)
    W.g.define("U", u)
    n = a.Call(callee=a.Path([a.Variable(W.tok("IDENTIFIER", "U")), a.Variable(W.tok("IDENTIFIER", "V"))]), fargs=args)
    W.cx.patch(W.ty.Variant, "is_callable", lambda self: bool(self.params.n > 0))
    W.run(n)
    if W.out.rejected:
        e = args.current
        same = W.cx.decide(args.n.t == params.n.t) and W.cx.decide(params.n.t > 0)
        bad = e is not None and (e.named or not fits(e))
        W.verdict("C04", "variant: refused only for the number, names or types of the arguments", same and not bad)
    W.cx.cover("accepted")
    W.prove("C04", "variant: as many arguments as declared", args.n == params.n)
    for f_ in ("visited once", "plain", "fits", "converts"):
        W.prove("C04", f"variant: every argument {f_}", W.done(args, f_))
    W.prove("C04", "variant: is a value of its union", n.eval_type is u and n.symbol is u.variants["V"])
    W.restored()


@step("call of something else", "C05 C13", "visit_call", covers=["refused"])
def call_other(W):
    a = W.ast
    c = W.cx.choose("callee", [a.Constant, a.BinOp, a.Call, a.IndexGet])
    n = a.Call(callee=W.expr("callee", base=c, exact=True), fargs=[])
    n.token = W.tok("LPAR")
    W.run(n)
    W.verdict("C05", "call: only of a name, a member or a variant", False)


@step("builtin functions", "C04 C13", "visit_call builtin_call check_vec_op check_arity refuse_named_args", covers=["accepted", "refused"])
def builtins_(W):
    a = W.ast
    B = W.ns["amanda.compiler.builtinfn"].BuiltinFn
    which = W.cx.choose("function", ["anexa", "remova", "tam"])
    f = W.sym.FunctionSymbol(which, W.T("declared"), module=W.bi.builtin_module, params={})
    f.set_annotations([a.Annotation("embutido", {}, W.tok("IDENTIFIER"))])
    W.g.define(which, f)
    W.g.define("tam", f if which == "tam" else W.sym.FunctionSymbol("tam", W.B.Int, module=W.bi.builtin_module))
    m = W.cx.choose("arguments", [0, 1, 2, 3])
    first = W.expr("first", ["vec", "prim", "reg", "opt", "uniao", "tvar"])
    args = [first, W.expr("second"), W.expr("third")][:m]
    if m > 1:
        first.may_fail = False
    n = a.Call(callee=a.Variable(W.tok("IDENTIFIER", which)), fargs=args)
    W.run(n)
    arity = m == (1 if which == "tam" else 2)
    if not arity:
        W.verdict("C04", "builtin: as many arguments as it takes", False)
    v = W.deref(first.ty)
    isvec = type(v) is W.ty.Vector
    once(W, *args)
    if which == "tam":
        W.verdict("C04", "tam: of a vector or a text", isvec or v is W.B.Texto)
        is_type(W, n, W.B.Int)
    elif which == "anexa":
        W.verdict("C04", "anexa: to a vector, a value of its element type", isvec and W.fits(args[1].ty, v.element_type))
        W.prove("C04", "anexa: the conversion of the value is recorded", W.conv_ok(args[1], v.element_type))
        is_type(W, n, W.B.Vazio)
    else:
        W.verdict("C04", "remova: from a vector, at an int", isvec and W.eq(args[1].ty, W.B.Int))
        is_type(W, n, v.element_type)
    W.restored()


@step("vec", "C04 C13", "builtin_call", covers=["accepted", "refused"])
def vec(W):
    a = W.ast
    f = W.sym.FunctionSymbol("vec", W.T("declared"), module=W.bi.builtin_module, params={})
    f.set_annotations([a.Annotation("embutido", {}, W.tok("IDENTIFIER"))])
    W.g.define("vec", f)
    m = W.cx.choose("arguments", [0, 1, 2, 3, 4])
    t = W.cx.choose("of", ["int", "real", "bool", "texto", "indef", "a record", "no type", "a variable", "not a name"])
    name = {"a record": "R", "no type": "zzz", "a variable": "v", "not a name": "1"}.get(t, t)
    W.g.define("R", W.ty.Registo("R", W.module, {}))
    W.g.define("v", W.sym.VariableSymbol("v", W.B.Int, W.module))
    ty = a.Constant(W.tok("INTEGER", "1")) if t == "not a name" else a.Variable(W.tok("IDENTIFIER", name))
    sizes = [W.expr(f"size{i}") for i in range(max(m - 1, 0))]
    for s in sizes[:-1]:
        s.may_fail = False
    n = a.Call(callee=a.Variable(W.tok("IDENTIFIER", "vec")), fargs=([ty] + sizes)[:m])
    W.run(n)
    ok = m >= 2 and t in ("int", "real", "bool", "texto") and all(W.eq(s.ty, W.B.Int) for s in sizes)
    W.verdict("C04", "vec: of a simple type, with sizes of type int", ok)
    once(W, *sizes)
    r = n.eval_type
    for i in range(m - 1):
        W.prove("C04", "vec: one dimension for each size", type(r) is W.ty.Vector)
        if type(r) is not W.ty.Vector:
            raise PathEnd()
        r = r.element_type
    W.prove("C04", "vec: of the type written", W.eq(r, {"int": W.B.Int, "real": W.B.Real, "bool": W.B.Bool, "texto": W.B.Texto}[t]))
    W.restored()
    W.cx.bounded.add("vectors of up to 3 dimensions")


# ------------------------------------------------------------- return analysis
@step("return analysis: se", "C06", "has_return_se has_return", covers=["yes", "no"], infer=2)
def ret_se(W):
    a = W.ast
    t = W.block("then")
    e = W.block("else") if W.cx.flag("else") else None

    def branch():
        b = W.stub("branch", a.SenaoSe)
        b.then_branch = W.block("branch block")
        return b
    all_ret = {"returns": lambda b: b.then_branch.returns_always()}
    br = W.seq("branches", branch, all_ret, {})
    for f in ("visited once", "checked"):
        br.facts.pop(f)
    n = a.Se(W.tok("SE"), W.expr("c"), t, elsif_branches=br, else_branch=e)
    out = W.cx.call(W.an.has_return, n)
    want = None
    if not (e and t.returns_always() and e.returns_always()):
        want = False
    elif W.done(br, "returns"):
        want = True
    elif br.current is not None and not br.current.then_branch.returns_always():
        want = False
    W.prove("C06", "se: returns exactly when there is an else and every branch returns",
            out.ok and want is not None and bool(out.value) == want)
    W.cx.cover("yes" if want else "no")


@step("return analysis: escolha", "C06", "has_return_escolha has_return", covers=["yes", "no"], infer=2)
def ret_escolha(W):
    a = W.ast
    d = W.block("default") if W.cx.flag("default") else None

    def case():
        b = W.stub("case", a.CaseBlock)
        b.block, b.expression = W.block("case block"), W.expr("value")
        return b
    cs = W.seq("cases", case, {"returns": lambda b: b.block.returns_always()}, {})
    for f in ("visited once", "checked"):
        cs.facts.pop(f)
    n = a.Escolha(W.tok("ESCOLHA"), W.expr("x"), cs, d)
    out = W.cx.call(W.an.has_return, n)
    if d is None or not d.returns_always():
        want = False
    elif W.done(cs, "returns"):
        want = True
    else:
        want = False if cs.current is not None and not cs.current.block.returns_always() else None
    W.prove("C06", "escolha: returns exactly when there is a default and every case returns",
            out.ok and want is not None and bool(out.value) == want)
    W.cx.cover("yes" if want else "no")


@step("return analysis: iguala", "C06", "has_return_iguala has_return_igualaarm has_return_block has_return", covers=["yes", "no"], infer=2)
def ret_iguala(W):
    a = W.ast
    arms = W.seq("arms", lambda: W.stub("arm", a.IgualaArm), {"returns": lambda b: b.returns_always()}, {})
    for f in ("visited once", "checked"):
        arms.facts.pop(f)
    n = a.Iguala(W.tok("IGUALA"), W.expr("x"), arms)
    out = W.cx.call(W.an.has_return, n)
    if W.done(arms, "returns"):
        want = True
    else:
        want = False if arms.current is not None and not arms.current.returns_always() else None
    W.prove("C06", "iguala: returns exactly when every arm returns", out.ok and want is not None and bool(out.value) == want)
    W.cx.cover("yes" if want else "no")


@step("return analysis: sequence", "C06", "has_return_block has_return_igualaarm has_return", covers=["yes", "no"], infer=2)
def ret_block(W):
    a = W.ast
    ch = W.seq("statements", lambda: W.stub("statement", a.ASTNode), {"falls through": lambda b: not b.returns_always()}, {})
    for f in ("visited once", "checked"):
        ch.facts.pop(f)
    if W.cx.flag("arm"):
        body = a.YieldBlock(W.tok("FACA"), [])
        body.children = ch
        n = a.IgualaArm(W.tok("ARROW"), W.expr("pattern"), body)
    else:
        n = a.Block()
        n.children = ch
    out = W.cx.call(W.an.has_return, n)
    if W.done(ch, "falls through"):
        want = False
    else:
        want = True if ch.current is not None and ch.current.returns_always() else None
    W.prove("C06", "sequence: returns exactly when one of its statements does", out.ok and want is not None and bool(out.value) == want)
    W.cx.cover("yes" if want else "no")


@step("return analysis: other statements", "C06", "has_return_retorna general_check has_return", covers=["yes", "no"])
def ret_other(W):
    a = W.ast
    x = W.expr("x")
    n = W.cx.choose("statement", [
        a.Retorna(W.tok("RETORNA"), x), a.Mostra(W.tok("MOSTRA"), x), a.LoopCtlStmt(W.tok("QUEBRA")), a.Produz(W.tok("PRODUZ"), x),
        a.Assign(W.tok("EQUAL"), left=x, right=x), a.Call(callee=x, fargs=[]), a.VarDecl(W.tok("COLON"), name=W.tok("IDENTIFIER"))])
    out = W.cx.call(W.an.has_return, n)
    want = isinstance(n, a.Retorna)
    W.prove("C06", "retorna returns, other simple statements do not", out.ok and bool(out.value) == want)
    W.cx.cover("yes" if want else "no")


# --------------------------------------------------------------------- iguala
IG = "amanda.compiler.check.iguala."


def an_arm(W, label, pattern, body):
    arm = W.ast.IgualaArm(W.tok("ARROW", label, W.line()), pattern, body)
    arm.label = label
    return arm


def body_of(W, label, **kw):
    b = W.stub(label, W.ast.YieldBlock, symbols=None, **kw)
    b.children, b.eval_type, b.has_return = [], W.B.Unknown, False
    b.ty = W.T(label)
    return b


def given(n):
    n.eval_type = n.ty


@step("pattern: a literal", "C07 C04 C13", IG + "check_pattern validate_int", covers=["accepted", "refused"])
def pattern_literal(W):
    ig = W.ns["amanda.compiler.check.iguala"]
    t = W.T("target")
    arm = an_arm(W, "arm", None, body_of(W, "body"))
    text = W.cx.flag("a text")
    v = W.cx.int("value", lo=0)

    class Lexeme:
        def sym_int(self):
            return v
    p = W.ast.StrPattern(W.tok("STRING", "'a'")) if text else W.ast.IntPattern(W.tok("INTEGER", Lexeme()))
    p.eval_type = W.B.Unknown
    arm.pattern = p
    W.before = W.context()
    W.settle(W.cx.call(ig.check_pattern, W.an, arm, p, t))
    W.verdict("C04", "pattern: a literal that its type can hold", text or W.cx.decide((v <= 2 ** 63 - 1).t))
    is_type(W, p, W.B.Texto if text else W.B.Int)
    W.prove("C07", "pattern: a literal has its own type", p.eval_type is (W.B.Texto if text else W.B.Int))
    W.restored()


@step("pattern: a name", "C07 C04 C05 C10 C13", IG + "check_pattern " + IG + "check_binding_pattern define_symbol")
def pattern_name(W):
    ig = W.ns["amanda.compiler.check.iguala"]
    where = in_depth(W)
    t = W.T("target")
    body = body_of(W, "body")
    scope = body.symbols = W.Scope(where)
    arm = an_arm(W, "arm", None, body)
    if W.cx.flag("the name is declared outside"):
        where.define("x", W.sym.VariableSymbol("x", W.T("outside"), W.module))
    used = W.cx.flag("the pattern binds it twice")
    if used:
        scope.define("x", W.sym.VariableSymbol("x", W.T("earlier"), W.module))
    if W.cx.flag("the pattern binds another"):
        scope.define("y", W.sym.VariableSymbol("y", W.T("other"), W.module))
        scope.symbols["y"].out_id = "_taken_"
    outside, inside = dict(where.symbols), dict(scope.symbols)
    asked = []

    def define_symbol(self, symbol, depth, s):
        asked.append((symbol, depth, s))
        return real(self, symbol, depth, s)
    A = type(W.an)
    real = A.define_symbol
    W.cx.patch(A, "define_symbol", define_symbol)
    p = W.ast.BindingPattern(W.ast.Variable(W.tok("IDENTIFIER", "x")))
    arm.pattern = p
    W.before = W.context()
    W.settle(W.cx.call(ig.check_pattern, W.an, arm, p, t))
    W.verdict("C05", "pattern: a name is bound once", not used)
    sym = scope.symbols.get("x")
    W.prove("C05", "pattern: the name is declared in the scope of its arm", isinstance(sym, W.sym.VariableSymbol) and sym.name == "x")
    W.prove("C05", "pattern: nothing else is declared", dict(where.symbols) == outside and set(scope.symbols) == set(inside) | {"x"}
            and all(scope.symbols[k] is x for k, x in inside.items()))
    for c in ("C07", "C04"):
        W.prove(c, "pattern: the name has the type of what it stands for", sym.type is t)
    W.prove("C07", "pattern: a name takes any value of the type", p.eval_type is t)
    W.prove("C10", "pattern: the name has a place of its own", len(asked) == 1 and asked[0][0] is sym and asked[0][1] > W.an.scope_depth
            and asked[0][2] is scope)
    W.restored()


@step("pattern: a variant", "C07 C04 C05 C13", IG + "check_pattern " + IG + "check_adt_pattern visit_path", infer=4)
def pattern_variant(W):
    a = W.ast
    ig = W.ns["amanda.compiler.check.iguala"]
    t = W.T("target")
    arm = an_arm(W, "arm", None, body_of(W, "body"))

    def arg():
        e = W.expr("argument", base=a.BindingPattern)
        e.partner = W.T("param")
        return e
    fits = lambda e: W.eq(e.ty, e.partner)
    args = W.seq("arguments", arg, {"fits": fits}, {"fits": lambda e: None})
    params = SymSeq(W.cx, "parameters", lambda: None)
    params.mate = args
    u = W.ty.Uniao("U", W.module, {})
    u.add_variant("W", [])
    u.add_variant("V", params)
    W.cx.patch(W.ty.Variant, "is_callable", lambda self: bool(self.params.n > 0) if self.params is params else len(self.params) > 0)
    real = ig.check_pattern

    def check_pattern(checker, arm_, p, ty):
        if getattr(p, "is_stub", False):
            ok = checker is W.an and arm_ is arm and W.eq(ty, p.partner)
            for c in ("C07", "C04"):
                W.prove(c, "pattern: each part is checked against the type declared for it", ok)
            return W.visit_stub(p, (), {})
        return real(checker, arm_, p, ty)
    from .gen import shadow
    shadow(W.cx, ig, "check_pattern", check_pattern)
    what = W.cx.choose("written", ["U::V", "U::W", "U::Z", "U", "nothing", "a variable"])
    W.g.define("U", u)
    W.g.define("x", W.sym.VariableSymbol("x", W.T("variable"), W.module))
    var = lambda x: a.Variable(W.tok("IDENTIFIER", x))
    adt = {"U::V": lambda: a.Path([var("U"), var("V")]), "U::W": lambda: a.Path([var("U"), var("W")]),
           "U::Z": lambda: a.Path([var("U"), var("Z")]), "U": lambda: var("U"), "nothing": lambda: var("nothing"),
           "a variable": lambda: var("x")}[what]()
    p = a.ADTPattern(adt, args)
    arm.pattern = p
    p.tag_children()
    in_depth(W)
    W.before = W.context()
    W.settle(W.cx.call(real, W.an, arm, p, t))
    n = params.n if what == "U::V" else 0
    if W.out.rejected:
        e = args.current
        same = what in ("U::V", "U::W") and W.cx.decide((args.n == n).t)
        W.verdict("C07 C04", "pattern: refused only for its name or for the number or types of its parts", same and (e is None or fits(e)))
    W.cx.cover("accepted")
    W.prove("C05", "pattern: an existing variant of a visible union", what in ("U::V", "U::W"))
    v = u.variants[what[3:]]
    for c in ("C07", "C04"):
        W.prove(c, "pattern: as many parts as declared", args.n == n)
        if what == "U::V":
            for f_ in ("visited once", "fits"):
                W.prove(c, f"pattern: every part {f_}", W.done(args, f_))
        W.prove(c, "pattern: is a value of its union", p.eval_type is u)
    k = p.cons
    W.prove("C07", "pattern: tests for the variant named", isinstance(k, W.ty.VariantCons) and k.tag == v.tag and k.uniao is u
            and k.cons_args is v.params and k.name == f"U::{v.name}")
    W.restored()


@step("arm of iguala: its pattern", "C07 C04 C05 C13", IG + "check_arm", infer=2)
def arm_pattern(W):
    ig = W.ns["amanda.compiler.check.iguala"]
    where = in_depth(W)
    target = W.expr("target")
    target.eval_type = target.ty
    p = W.expr("pattern", base=W.ast.BindingPattern)
    body = body_of(W, "body")
    arm = an_arm(W, "arm", p, body)
    n = W.ast.Iguala(W.tok("IGUALA"), target, [arm])

    def check_pattern(checker, arm_, p_, ty):
        for c in ("C07", "C04"):
            W.prove(c, "arm: its pattern is checked against what is matched", checker is W.an and arm_ is arm and p_ is p and ty is target.ty)
        W.prove("C05", "arm: has a scope of its own within the current one", type(body.symbols) is W.Scope and body.symbols is not where
                and body.symbols.enclosing_scope is where and not body.symbols.symbols)
        return W.visit_stub(p, (), {})
    from .gen import shadow
    shadow(W.cx, ig, "check_pattern", check_pattern)
    W.before = W.context()
    W.settle(W.cx.call(ig.check_arm, W.an, n, arm))
    W.verdict("C07 C04", "arm: its pattern is of the type of what is matched", W.eq(p.ty, target.ty))
    for c in ("C07", "C04"):
        W.prove(c, "arm: its pattern is checked once", p.visits == 1)
    W.restored()


@step("iguala", "C07 C04 C05 C06 C10 C13", "visit_iguala " + IG + "check_iguala")
def iguala(W):
    a = W.ast
    ig, ex = W.ns["amanda.compiler.check.iguala"], W.ns["amanda.compiler.check.exhaustiveness"]
    where = in_depth(W)
    depth, loop = W.an.scope_depth, W.cx.flag("in a loop")
    W.set(W.an, in_loop=loop)
    kind = W.cx.choose("matched", ["a variable", "alvo", "a value"])
    target = W.expr("target", exact=True, base={"a variable": a.Variable, "alvo": a.Alvo, "a value": a.Expr}[kind])
    var = W.sym.VariableSymbol("x", target.ty, W.module)

    def seen(n):
        if kind != "a value":
            n.var_symbol = var
    target.on_visit = seen
    target.var_symbol = None
    k = W.cx.choose("arms", [1, 2, 3])
    arms = []
    for i in range(k):
        b = body_of(W, f"arm {i}", on_visit=lambda n: inside(n))
        arms.append(an_arm(W, f"arm {i}", None, b))
    n = a.Iguala(W.tok("IGUALA"), target, arms)
    own, checked, made = [], [], []

    def inside(b):
        s = W.an.ctx_scope
        W.prove("C05", "iguala: its arms are checked within it", s.enclosing_scope is where and s is own[0] and W.an.scope_depth == depth + 1)
        W.prove("C06", "iguala: its arms belong where it stands", W.an.in_loop == loop)
        given(b)

    def check_arm(checker, ig_, arm):
        W.prove("C07", "iguala: what is matched is checked first", target.visits == 1 and ig_ is n)
        own.append(W.an.ctx_scope)
        W.prove("C05", "iguala: has a scope of its own", own[0] is not where and all(s is own[0] for s in own)
                and own[0].enclosing_scope is where and W.an.scope_depth == depth + 1)
        checked.append(arm)
        if W.cx.choose(f"{arm.label}'s pattern is", ["fine", "refused"]) == "refused":
            e = W.err.AmandaError.common_error(W.module.fpath, "pattern", arm.token.line)
            W.rejected_by = e
            e.pvc_modelled = True
            raise e
        W.an.ctx_node = W.at_line(arm.token.line)
    from .gen import shadow
    shadow(W.cx, ig, "check_arm", check_arm)
    missing = W.cx.flag("a case is missing")
    reach = W.cx.choose("reached", [r for r in ([], [0], [1], [2], [1, 0], [0, 2], [2, 0, 1]) if all(i < k for i in r) and (r or missing)])

    class Compiler:
        def __init__(self, scope, module):
            W.prove("C07", "iguala: the tree is made in the scope of the iguala", bool(own) and scope is own[0] and module is W.module)

        def compile(self, x):
            W.prove("C07", "iguala: the tree is made of the checked arms", x is n and len(checked) == k and all(c is y for c, y in zip(checked, arms)))
            b = n.target_binding
            if kind == "a value":
                W.prove("C07", "iguala: a value that is matched is kept in a place of its own", isinstance(b, W.sym.VariableSymbol) and b is not var
                        and b.type is target.ty)
                W.prove("C05", "iguala: the place takes no name of the program", not b.name.isidentifier())
                W.prove("C10", "iguala: the place is one of its scope", own[0].symbols.get(b.name) is b)
            else:
                W.prove("C07", "iguala: what is matched is the variable", b is var)
            m = ex.Match(scope=own[0], tree=object(), diagnostics=ex.Diagnostics(missing, [arms[i].body for i in reach]))
            made.append(m)
            return m
    shadow(W.cx, ig, "IgualaCompiler", Compiler)
    W.cx.patch(ex.Match, "missing_patterns", lambda self: ["U::A", "U::B(_)"])
    W.run(n)
    void = W.eq(target.ty, W.B.Vazio)
    if void:
        W.verdict("C07 C04", "iguala: not over what has no value", False)
    if missing:
        W.verdict("C07 C04", "iguala: not while a case is missing", False)
    bodies = [arms[i].body for i in reach] + [x.body for i, x in enumerate(arms) if i not in reach]
    same = all(W.eq(b.ty, bodies[0].ty) for b in bodies[1:])
    W.verdict("C04", "iguala: all its arms have one type", same)
    W.prove("C04", "iguala: every arm is checked once", all(x.body.visits == 1 for x in arms) and target.visits == 1)
    is_type(W, n, bodies[0].ty)
    W.prove("C07", "iguala: keeps the tree of its arms", len(made) == 1 and n.ir is made[0])
    W.restored()
    W.cx.bounded.add("up to 3 arms")


from . import modules, errors  # noqa: E402,F401
