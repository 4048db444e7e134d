"""Contracts of the code generator (amanda/compiler/codegen.py).

Each step generates one construct whose parts are known by contract, in an arbitrary
state of the generator, and runs the emitted code on the machine of genworld.py next
to the meaning of the construct.
"""
from pvc.engine import PathEnd, Unsupported, mkb, ti, SymInt
from pvc.seq import SymSeq, View
from pvc.acc import AccSpec, is_all
from .genworld import GW, GSeq, AbsTable, PSpec

STEPS = []
CG = "amanda.compiler.codegen.ByteGen."


def step(name, props, functions, covers=("compiled",), **kw):
    def deco(f):
        STEPS.append(dict(name="generate: " + name, fn=f, props=props.split(), covers=list(covers),
                          functions=[x if "." in x else CG + x for x in functions.split()], kw=kw))
        return f
    return deco


def vcs(prop):
    out = []
    for s in STEPS:
        if prop not in s["props"]:
            continue

        def fn(cx, s=s):
            s["fn"](GW(cx, prop))
        out.append(dict(name=s["name"], fn=fn, covers=s["covers"], functions=s["functions"], **s["kw"]))
    return out


ALL = "C08 C09 C10 C13"


# ---------------------------------------------------------------- expressions
@step("literal", ALL, "gen gen_constant get_table_index")
def constant(W):
    x = W.cx.choose("literal", [0, 12, "0.5", "'abc'", '"abc"', "verdadeiro", "falso", "nulo"])
    n = W.ast.Constant(W.tok("INTEGER", x))
    n.eval_type, n.prom_type = W.B.Texto, None
    W.gen(n)
    W.straight("C08", "literal: leaves its value", lambda S: S.push(("const", str(x))))


@step("use of a name", "C08 C09 C10 C12 C13", "gen_variable load_variable gen_alvo get_table_index")
def variable(W):
    v = W.var("v")
    if W.cx.flag("alvo"):
        n = W.ast.Alvo(W.tok("ALVO", "alvo"))
        n.var_symbol = v
    else:
        n = W.ast.Variable(W.tok("IDENTIFIER", "v"))
        if W.cx.flag("resolved"):
            n.var_symbol = v
        else:
            W.here.define("v", v)
    n.eval_type, n.prom_type = W.B.Texto, None
    W.gen(n)
    for p in ("C08", "C12", "C10"):
        W.straight(p, "name: leaves the value of its variable", lambda S: S.push(S.load(v)))


@step("conversion to real of a value", ALL, "gen_auto_cast gen load_variable")
def auto_cast(W):
    B, opt = W.B, W.bi.SrcBuiltins.Opcao
    x = W.expr("x")
    w = lambda t: opt.bind(T=t)
    frm = W.cx.choose("type", ["int", "real", "texto", "option of int"])
    to = W.cx.choose("wanted", ["nothing", "unknown", "real", "int", "option of real", "option of option of real", "option of int", "indef"])
    x = W.ast.UnaryOp(W.tok("PLUS"), operand=x)
    x.eval_type = {"int": B.Int, "real": B.Real, "texto": B.Texto, "option of int": w(B.Int)}[frm]
    x.prom_type = {"nothing": None, "unknown": B.Unknown, "real": B.Real, "int": B.Int, "option of real": w(B.Real),
                   "option of option of real": w(w(B.Real)), "option of int": w(B.Int), "indef": B.Indef}[to]
    if (frm in ("real", "texto") and to not in ("nothing", "unknown", "indef")) or (
            frm == "option of int" and "option" not in to and to not in ("nothing", "unknown", "indef")):
        raise PathEnd()
    W.gen(x)

    def spec(S):
        v = S.eval(x.operand)
        if frm == "int" and to in ("real", "option of real", "option of option of real"):
            v = S.op("cast", v, S.load(B.Real), 0)
        S.push(v)
    W.straight("C08", "an int is converted where a real is wanted", spec)


@step("conversion", ALL, "gen_converta load_variable")
def converta(W):
    B = W.B
    tys = {"int": B.Int, "real": B.Real, "texto": B.Texto, "bool": B.Bool, "indef": B.Indef}
    f, t = W.cx.choose("from", list(tys)), W.cx.choose("to", list(tys))
    x = W.expr("x", eval_type=tys[f])
    n = W.ast.Converta(W.tok("DOUBLECOLON"), x, W.expr("type"))
    n.eval_type, n.prom_type = tys[t], None
    W.gen(n)

    def spec(S):
        v = S.eval(x)
        if f != t and t != "indef":
            v = S.op("cast", v, S.load(tys[t]), 1 if f == "indef" else 0)
        S.push(v)
    W.straight("C08", "converta: converts the value to the type", spec)


@step("unary operation", "C08 C10 C13", "gen_unaryop")
def unary(W):
    x = W.expr("x")
    op = W.cx.choose("op", ["PLUS", "MINUS", "NAO"])
    n = W.ast.UnaryOp(W.tok(op), operand=x)
    n.eval_type, n.prom_type = W.B.Texto, None
    W.gen(n)

    def spec(S):
        v = S.eval(x)
        S.push(S.op("neg", v) if op == "MINUS" else S.neg(v) if op == "NAO" else v)
    W.straight("C08", "unary operation: applies its operator", spec)


BINOPS = {"PLUS": "OP_ADD", "MINUS": "OP_MINUS", "STAR": "OP_MUL", "SLASH": "OP_DIV", "DOUBLESLASH": "OP_FLOORDIV",
          "MODULO": "OP_MODULO", "E": "OP_AND", "OU": "OP_OR", "DOUBLEEQUAL": "OP_EQ", "NOTEQUAL": "OP_NOTEQ",
          "GREATER": "OP_GREATER", "GREATEREQ": "OP_GREATEREQ", "LESS": "OP_LESS", "LESSEQ": "OP_LESSEQ"}


@step("binary operation", "C08 C10 C13", "gen_binop")
def binop(W):
    B = W.B
    nul = W.cx.choose("nulo", ["neither", "left", "right", "both"])
    l = W.expr("left", eval_type=B.Nulo if nul in ("left", "both") else B.Int)
    r = W.expr("right", eval_type=B.Nulo if nul in ("right", "both") else B.Int)
    op = W.cx.choose("op", list(BINOPS) if nul == "neither" else ["DOUBLEEQUAL", "NOTEQUAL"])
    n = W.ast.BinOp(W.tok(op), left=l, right=r)
    n.eval_type, n.prom_type = B.Texto, None
    W.gen(n)

    def spec(S):
        if nul == "neither":
            a = S.eval(l)
            b = S.eval(r)
            S.push(S.bin(BINOPS[op], a, b))
            return
        # a comparison with nulo asks whether the other side is null
        v = ("isnull", S.eval(r if nul in ("left", "both") else l))
        S.push(v if op == "DOUBLEEQUAL" else S.neg(v))
    W.straight("C08", "binary operation: both operands, in order, then the operator", spec)


@step("index", "C08 C10 C13", "gen_indexget")
def indexget(W):
    x, i = W.expr("target"), W.expr("index")
    n = W.ast.IndexGet(W.tok("LBRACKET"), x, i)
    n.eval_type, n.prom_type = W.B.Texto, None
    W.gen(n)

    def spec(S):
        a = S.eval(x)
        b = S.eval(i)
        S.push(S.op("index", a, b))
    W.straight("C08", "index: the element at the index", spec)


@step("assignment to an element", "C08 C10 C13", "gen_indexset gen_indexget")
def indexset(W):
    x, i, v = W.expr("target"), W.expr("index"), W.expr("value")
    n = W.ast.IndexSet(W.tok("EQUAL"), W.ast.IndexGet(W.tok("LBRACKET"), x, i), v)
    n.eval_type, n.prom_type = W.B.Texto, None
    W.gen(n)

    def spec(S):
        a = S.eval(x)
        b = S.eval(i)
        S.op("setindex", a, b, S.eval(v))
    W.straight("C08", "element: stores the value at the index", spec)


@step("member", ALL, "gen_get load_name")
def get(W):
    x = W.expr("target")
    n = W.ast.Get(target=x, member=W.tok("IDENTIFIER", "campo"))
    n.eval_type, n.prom_type = W.B.Texto, None
    n.parent = W.cx.choose("inside", [W.stmt("parent", kinds={W.ast.Set: False}), W.expr("parent", kinds={W.ast.Set: False}), W.ast.Set(target=W.expr("other", W.ast.Get, target=x, member=None), expr=n)])
    W.gen(n)
    W.straight("C08", "member: the field of the record", lambda S: S.push(S.op("getprop", S.eval(x), ("name", "campo"))))


@step("assignment to a field", ALL, "gen_set gen_get load_name")
def setfield(W):
    x, v = W.expr("target"), W.expr("value")
    g = W.ast.Get(target=x, member=W.tok("IDENTIFIER", "campo"))
    g.eval_type, g.prom_type = W.B.Texto, None
    n = W.ast.Set(target=g, expr=v)
    n.eval_type, n.prom_type = W.B.Texto, None
    g.parent = n
    W.gen(n)

    def spec(S):
        a = S.eval(x)
        S.op("setprop", a, ("name", "campo"), S.eval(v))
    W.straight("C08", "field: stores the value in the field", spec)


@step("format string", ALL, "gen_fmtstr", infer=1)
def fmtstr(W):
    ps = W.seq("parts", lambda: W.expr("part"))
    n = W.ast.FmtStr(W.tok("STRING"), ps)
    n.eval_type, n.prom_type = W.B.Texto, None
    W.gen(n)

    def spec(S):
        S.each(ps)
        S.push(S.op("str", S.popn(ps.n)))
    W.straight("C08", "format string: all its parts in order", spec)


@step("list", ALL, "gen_listliteral", infer=1)
def listliteral(W):
    es = W.seq("elements", lambda: W.expr("element"))
    n = W.ast.ListLiteral(W.tok("LBRACKET"), list_type=W.expr("type"), elements=es)
    n.eval_type, n.prom_type = W.B.Texto, None
    W.gen(n)

    def spec(S):
        S.each(es)
        S.push(S.op("vec", S.popn(es.n)))
    W.straight("C08", "list: all its elements in order", spec)


@step("unwrap", "C08 C10 C13", "gen_unwrap")
def unwrap(W):
    x = W.expr("option")
    d = W.expr("default") if W.cx.flag("default") else None
    n = W.ast.Unwrap(option=x, default_val=d)
    n.eval_type, n.prom_type = W.B.Texto, None
    W.gen(n)

    def spec(S):
        v = S.eval(x)
        S.push(S.op("unwrap or", v, S.eval(d)) if d else S.op("unwrap", v))
    W.straight("C08", "unwrap: the value, or the default", spec)


@step("path", ALL, "gen_path get_variant_index load_const")
def path(W):
    u = W.ty.Uniao("U", W.cx.choose("union of", [W.module, W.other]), {})
    ps = W.cx.choose("variant", [[], [W.B.Int]])
    u.add_variant("A", [])
    u.add_variant("V", ps)
    v = u.variants["V"]
    n = W.ast.Path([W.ast.Variable(W.tok("IDENTIFIER", "U")), W.ast.Variable(W.tok("IDENTIFIER", "V"))])
    n.symbol = v
    n.eval_type, n.prom_type = u, None
    W.gen(n)

    def spec(S):
        t = ("tag", f"{v.uniao.module.fpath}::U::V")
        S.push(t if ps else S.op("variant", t, ()))
    W.straight("C08", "path: the variant it names", spec)


@step("call", ALL, "gen_call", infer=1)
def call(W):
    kind = W.cx.choose("of", ["function", "method", "record", "variant"])
    base = W.ast.NamedArg if kind == "record" else W.ast.Expr
    args = W.seq("arguments", lambda: W.expr("argument", base))
    callee = W.expr("callee")
    n = W.ast.Call(callee=callee, fargs=args)
    n.token = W.tok("LPAR")
    n.eval_type, n.prom_type = W.B.Texto, None
    u = W.ty.Uniao("U", W.module, {})
    u.add_variant("V", [W.B.Int])
    n.symbol = {"function": W.sym.FunctionSymbol("f", W.B.Int, module=W.module),
                "method": W.sym.MethodSym("m", target_ty=W.B.Int, return_ty=W.B.Int, module=W.module),
                "record": W.ty.Registo("R", W.module, {}), "variant": u.variants["V"]}[kind]
    W.gen(n)

    def spec(S):
        S.each(args)
        c = S.eval(callee)
        if kind == "record":
            S.push(S.op("obj", c, S.popn(args.n, 2)))
        else:
            S.push(S.op("variant" if kind == "variant" else "call", c, S.popn(args.n)))
    W.straight("C08", "call: the arguments in order, then what is called", spec)


@step("named argument", ALL, "gen_namedarg load_name")
def namedarg(W):
    x = W.expr("value")
    n = W.ast.NamedArg(name=W.tok("IDENTIFIER", "campo"), arg=x)
    n.eval_type, n.prom_type = W.B.Texto, None
    W.gen(n)

    def spec(S):
        S.push(("name", "campo"))
        S.push(S.eval(x))
    W.straight("C08", "named argument: the name and the value", spec)


# ----------------------------------------------------------------- statements
@step("assignment", ALL, "gen_assign set_variable declare_local load_variable gen_auto_cast")
def assign(W):
    v, x = W.fresh("v"), W.expr("value")
    left = W.ast.Variable(W.tok("IDENTIFIER", "v"))
    left.var_symbol = v
    chained = W.cx.flag("of an assignment")
    right = x
    if chained:
        w = W.fresh("w")
        l2 = W.ast.Variable(W.tok("IDENTIFIER", "w"))
        l2.var_symbol = w
        right = W.ast.Assign(W.tok("EQUAL"), left=l2, right=x)
        right.eval_type = W.cx.choose("inner type", [W.B.Texto, W.B.Int])
        right.prom_type = W.B.Real if right.eval_type is W.B.Int and W.cx.flag("converts") else None
        x.eval_type = right.eval_type
    n = W.ast.Assign(W.tok("EQUAL"), left=left, right=right)
    n.eval_type, n.prom_type = W.B.Texto, W.cx.choose("conversion", [None, W.B.Real])
    if n.prom_type:
        n.eval_type = W.B.Int
    W.gen(n)

    def spec(S):
        a = S.eval(x)
        if chained:
            S.store(w, a)
            a = S.load(w)
            if right.prom_type:
                a = S.op("cast", a, S.load(W.B.Real), 0)
        S.store(v, a)
    W.straight("C08", "assignment: the value goes to the variable, and leaves nothing", spec)
    W.straight("C10", "assignment: writes the place of its variable only", spec)


@step("variable declaration", ALL, "gen_vardecl gen_assign set_variable")
def vardecl(W):
    v = W.fresh("v")
    W.here.define("v", v)
    a = None
    x = W.expr("value")
    t = W.cx.choose("type", ["int", "real", "bool", "texto", "other"])
    if W.cx.flag("initialised"):
        left = W.ast.Variable(W.tok("IDENTIFIER", "v"))
        left.var_symbol = v
        a = W.ast.Assign(W.tok("EQUAL"), left=left, right=x)
        a.eval_type, a.prom_type = W.B.Texto, None
    B = W.B
    ty = {"int": B.Int, "real": B.Real, "bool": B.Bool, "texto": B.Texto, "other": W.ty.Registo("R", W.module, {})}[t]
    n = W.ast.VarDecl(W.tok("COLON"), name=W.tok("IDENTIFIER", "v"), var_type=ty, assign=a)
    W.gen(n)
    zero = {"int": "0", "real": "0.0", "texto": "''"}.get(t, "falso")

    def spec(S):
        S.store(v, S.eval(x) if a else ("const", zero))
    W.straight("C08", "declaration: the variable starts with its value", spec)
    W.straight("C10", "declaration: writes the place of its variable only", spec)


@step("se", ALL, "gen_se compile_block new_label patch_label_loc", infer=2)
def se(W):
    c, t = W.expr("condition"), W.block("then")
    e = W.block("else") if W.cx.flag("else") else None

    def branch():
        b = W.stub("branch", W.ast.SenaoSe, "stmt")
        b.condition, b.then_branch = W.expr("other condition"), W.block("branch")
        return b

    def meaning(M, b):
        if W.truth(M.eval(b.condition)):
            M.child(b.then_branch)
            return "done"
    bs = GSeq(W, "branches", branch, meaning, can_exit=True)
    n = W.ast.Se(W.tok("SE"), c, t, elsif_branches=bs, else_branch=e)
    W.gen(n)

    def spec(S):
        if W.truth(S.eval(c)):
            S.child(t)
        elif S.each(bs) is None and e:
            S.child(e)
    W.straight("C08", "se: the first branch whose condition holds, or the last", spec)


@step("escolha", ALL, "gen_escolha set_variable load_variable", infer=2)
def escolha(W):
    x = W.expr("value")
    d = W.block("default") if W.cx.flag("default") else None
    v = W.temp(W.fresh(" escolha"))

    def case():
        b = W.stub("case", W.ast.CaseBlock, "stmt")
        b.expression, b.block = W.expr("option"), W.block("case")
        return b

    def meaning(M, b):
        o = M.eval(b.expression)
        if W.truth(M.bin("OP_EQ", o, M.load(v))):
            M.child(b.block)
            return "done"
    cs = GSeq(W, "cases", case, meaning, can_exit=True)
    n = W.ast.Escolha(W.tok("ESCOLHA"), x, cs, d)
    n.target_binding = v
    W.gen(n)

    def spec(S):
        S.store(v, S.eval(x))
        if S.each(cs) is None and d:
            S.child(d)
    W.straight("C08", "escolha: the first case equal to the value, or the default", spec)


def loop_head(W):
    """The place the code jumps back to."""
    back = {W.pos(i.args[0]) for k, i in enumerate(W.code) if i.kind == "OP" and i.op.name == "JUMP" and k >= W.base
            and isinstance(W.pos(i.args[0]), int) and W.pos(i.args[0]) <= k}
    if len(back) != 1:
        W.prove("C08", "loop: goes back to one place", False, lambda: repr(W.code))
        raise PathEnd()
    return back.pop()


def body_env(W, body, name):
    segs = [i for i in W.code[W.base:] if i.kind == "SEG" and i.seq is body.children]
    W.prove("C08", "loop: the body is there once", len(segs) == 1)
    if len(segs) != 1:
        raise PathEnd()
    e = segs[0].env
    W.prove("C10", "loop: the body is generated in its own scope", e[0] == name)
    W.prove("C08", "loop: quebra goes behind the loop", W.pos(e[2]) == len(W.code), lambda: (e, repr(W.code)))
    return e


@step("enquanto", ALL, "gen_enquanto enter_block exit_block", infer=1)
def enquanto(W):
    c, b = W.expr("condition"), W.openblock("body")
    n = W.ast.Enquanto(W.tok("ENQUANTO"), c, b)
    W.gen(n)
    h = loop_head(W)
    env = body_env(W, b, "body scope")
    W.prove("C08", "enquanto: starts with its condition", h == W.base, lambda: repr(W.code))
    W.prove("C08", "enquanto: continua tests the condition again", W.pos(env[1]) == h)
    M, S = W.mach(), W.spec()
    S.env = env
    end = M.run(h, len(W.code), cuts=(h,))
    if W.truth(S.eval(c)):
        S.each(b.children)
        want = ("cut", h)
    else:
        want = "end"
    W.prove("C08", "enquanto: goes on exactly while the condition holds", end == want, lambda: (end, want, repr(W.code)))
    W.same("C08", "enquanto: one turn", M, S)


@step("para", ALL, "gen_para enter_block exit_block set_variable load_variable", infer=1)
def para(W):
    s, e = W.expr("start"), W.expr("end")
    i = W.expr("step") if W.cx.flag("step") else None
    b = W.openblock("body")
    v = W.fresh("i")
    b.symbols.define("i", v)
    r = W.ast.RangeExpr(W.tok("DOUBLEDOT") if hasattr(W.TT, "DOUBLEDOT") else W.tok("COLON"), s, e, i)
    n = W.ast.Para(W.tok("PARA"), W.ast.ParaExpr(W.tok("IDENTIFIER", "i"), r), b)
    W.gen(n)
    h = loop_head(W)
    env = body_env(W, b, "body scope")
    M, S = W.mach(), W.spec()
    end = M.run(W.base, len(W.code), cuts=(h,))
    S.store(v, S.eval(s))
    W.prove("C08", "para: starts at the start", end == ("cut", h), lambda: (end, repr(W.code)))
    W.same("C08", "para: starts at the start", M, S)

    def update(S):
        d = S.eval(i) if i else ("const", "1")
        S.store(v, S.bin("OP_ADD", d, S.load(v)))
    u = W.pos(env[1])
    M, S = W.mach(), W.spec()
    end = M.run(u, len(W.code), cuts=(h,)) if isinstance(u, int) else None
    update(S)
    W.prove("C08", "para: continua goes on with the next value", end == ("cut", h), lambda: (end, repr(W.code)))
    W.same("C08", "para: continua goes on with the next value", M, S)
    M, S = W.mach(), W.spec()
    S.env = env
    end = M.run(h, len(W.code), cuts=(h,))
    a = S.load(v)
    lim = S.eval(e)
    if W.truth(S.bin("OP_LESS", a, lim)):
        S.each(b.children)
        update(S)
        want = ("cut", h)
    else:
        want = "end"
    W.prove("C08", "para: goes on exactly while the end is not reached", end == want, lambda: (end, want, repr(W.code)))
    W.same("C08", "para: one turn", M, S)


@step("quebra and continua", ALL, "gen_loopctlstmt")
def loopctl(W):
    k = W.cx.choose("statement", ["QUEBRA", "CONTINUA"])
    n = W.ast.LoopCtlStmt(W.tok(k))
    W.gen(n)
    M = W.mach()
    end = M.run(W.base, len(W.code))
    W.prove("C08", "quebra leaves the innermost loop, continua starts its next turn",
            end == ("label", 8 if k == "QUEBRA" else 7) and not M.trace and not M.stack, lambda: repr(W.code))


@step("block", "C08 C10 C13", "compile_block enter_block exit_block", infer=1)
def block(W):
    b = W.openblock("body")
    W.run(W.g.compile_block, b)
    W.straight("C08", "block: its statements in order, in its scope", lambda S: S.each(b.children, ("body scope", 7, 8)))


@step("arm", "C08 C10 C13", "gen_yieldblock enter_block exit_block", infer=1)
def yieldblock(W):
    b = W.openblock("body", W.ast.YieldBlock)
    b.eval_type, b.prom_type = W.B.Texto, None
    W.gen(b)
    W.straight("C08", "arm: its statements in order, in its scope", lambda S: S.each(b.children, ("body scope", 7, 8)))


@step("retorna, produz and mostra", ALL, "gen_retorna gen_produz gen_mostra load_const")
def simple(W):
    x = W.expr("value")
    k = W.cx.choose("statement", ["retorna", "retorna nothing", "produz", "mostra"])
    a = W.ast
    n = {"retorna": lambda: a.Retorna(W.tok("RETORNA"), x), "retorna nothing": lambda: a.Retorna(W.tok("RETORNA")),
         "produz": lambda: a.Produz(W.tok("PRODUZ"), x), "mostra": lambda: a.Mostra(W.tok("MOSTRA"), x)}[k]()
    W.gen(n)
    M, S = W.mach(), W.spec()
    end = M.run(W.base, len(W.code))
    v = ("const", "falso") if k == "retorna nothing" else S.eval(x)
    if k.startswith("retorna"):
        S.op("return", v)
    elif k == "mostra":
        S.op("print", v)
    else:
        S.push(v)
    W.prove("C08", k + ": ends as it should", end == ("returned" if k.startswith("retorna") else "end"), lambda: (end, repr(W.code)))
    W.same("C08", k, M, S)


@step("nothing", ALL, "gen_noop gen_usa gen_uniao")
def nothing(W):
    a = W.ast
    k = W.cx.choose("statement", ["noop", "usa", "uniao"])
    if k == "noop":
        n = a.NoOp()
    elif k == "usa":
        n = a.Usa(W.tok("USA"), usa_mode=list(a.UsaMode)[0], module=W.tok("STRING", "'m'"))
    else:
        u = W.ty.Uniao("U", W.module, {})
        u.add_variant("A", [])
        u.add_variant("B", [])
        W.here.define("U", u)
        cls = type("Uniao", (a.Uniao,), {"__init__": lambda self: None, "for_each_child": lambda self, f: None})
        n = cls()
        n.__dict__.update(token=W.tok("UNIAO"), lineno=50, name=W.tok("IDENTIFIER", "U"), variants=[], parent=None)
    W.gen(n)
    W.straight("C08", "a declaration does nothing when it runs", lambda S: None)


@step("record", ALL, "gen_registo set_variable")
def registo(W):
    a = W.ast
    cx = W.cx
    W.set(registos=Listed(cx, "records"))
    n0 = W.g.registos.n
    v = W.ty.Registo("R", W.module, {})
    W.here.define("R", v)
    fs = SymSeq(cx, "fields", lambda: W.stmt("field", a.VarDecl, name=W.tok("IDENTIFIER", "some field")))
    cls = type("Registo", (a.Registo,), {"__init__": lambda self: None, "for_each_child": lambda self, f: None})
    n = cls()
    n.__dict__.update(token=W.tok("REGISTO"), lineno=50, name=W.tok("IDENTIFIER", "R"), fields=fs, parent=None)
    W.gen(n)
    W.straight("C08", "record: its definition goes to its name", lambda S: S.store(v, ("record", str(n0))))
    r = W.g.registos
    if not isinstance(r, Listed):
        raise Unsupported("the list of records")
    d = r.new[0] if len(r.new) == 1 and isinstance(r.new[0], dict) else {}
    W.prove("C08", "record: there is one definition, with its name", set(d) == {"name", "fields"} and d["name"] == "R")
    f = d.get("fields")
    if not isinstance(f, View):
        raise Unsupported("the fields of a record")
    e = fs.fresh()
    W.prove("C08", "record: the definition has the fields in order", f.seq is fs and f.view(e) == e.name.lexeme)


class Listed:
    """A list of unknown length to which things are appended."""

    def __init__(self, cx, label):
        self.cx, self.n, self.new, self.label = cx, cx.int(label, 0), [], label

    def append(self, x):
        self.new.append(x)

    def sym_len(self):
        return self.n + len(self.new)

    def __len__(self):
        raise Unsupported("len")

    def __repr__(self):
        return f"<{self.label}>"


@step("function", ALL, "gen_functiondecl gen_methoddecl enter_block exit_block", infer=1)
def function(W):
    a = W.ast
    meth = W.cx.flag("method")
    m = W.module
    if W.cx.flag("imported"):
        W.g.modules[m.fpath] = 5
    ps = Params(W)
    if meth:
        f = W.sym.MethodSym("f", target_ty=W.B.Int, return_ty=W.B.Int, module=m, params=ps)
    else:
        f = W.sym.FunctionSymbol("f", W.B.Int, module=m, params=ps)
    native = W.cx.flag("native")
    if native:
        f.set_annotations([a.Annotation("embutido", {}, W.tok("IDENTIFIER"))])
    b = W.openblock("body")
    kw = dict(name=W.tok("IDENTIFIER", "f"), params=[], block=b, annotations=[], func_type=None)
    n = (a.MethodDecl if meth else a.FunctionDecl).__new__(a.MethodDecl if meth else a.FunctionDecl)
    n.__dict__.update(token=W.tok("FUNC"), lineno=50, parent=None, symbol=f, is_native=native, return_ty=None, target_ty=None, **kw)
    outer = W.g.func_locals
    W.gen(n)
    M = W.mach()
    end = M.run(W.base, len(W.code))
    W.prove("C08", "function: declaring it runs nothing", end == "end" and not M.trace and not M.stack, lambda: repr(W.code))
    W.prove("C08", "function: is listed once", len(W.g.funcs) == 1)
    if len(W.g.funcs) != 1:
        raise PathEnd()
    d = W.g.funcs[0]
    W.prove("C08", "function: has its name", d["name"] == f.name)
    W.prove("C12", "function: belongs to its module", d["module"] == W.g.modules.get(m.fpath, -1))
    at = [k for k in range(W.base, len(W.code)) if W.valid(W.code[k].ip, d["start_ip"])]
    W.prove("C08", "function: starts at an instruction of its own", bool(at), lambda: (d, repr(W.code)))
    if not at:
        raise PathEnd()
    want = {"alvo": 0} if meth else {}
    segs = [i for i in W.code[W.base:] if i.kind == "SEG"]
    M, S = W.mach(), W.spec()
    end = M.run(at[0], len(W.code))
    if not native:
        W.prove("C10", "function: the body is generated once", len(segs) == 1)
        if len(segs) != 1:
            raise PathEnd()
        loc = segs[0].locals
        W.prove("C10", "function: has places of its own", loc is not outer)
        W.prove("C10", "function: the arguments are in its first places, in order", ps.placed is loc and ps.base == want, lambda: (ps.base, want))
        W.prove("C10", "function: has room for every variable of its body", W.valid(d["locals"], loc.n), lambda: (d, loc.n))
        S.each(b.children, ("body scope",) + segs[0].env[1:])
    else:
        W.prove("C10", "function: has room for its arguments", W.valid(d["locals"], ps.n + len(want)))
    S.op("return", ("const", "falso"))
    W.prove("C08", "function: returns at the end of its body", end == "returned", lambda: (end, repr(W.code)))
    W.same("C08", "function: runs its body", M, S)


class Params(SymSeq):
    """The parameters: each gets the next place, from the first free one on."""

    def __init__(self, W):
        def make():
            p = W.sym.VariableSymbol("p", W.B.Texto, W.module)
            p.out_id = "_p"
            p.seq = self
            return p
        super().__init__(W.cx, "parameters", make)
        self.W, self.placed, self.base = W, None, None

    def loop_spec(self, key, names):
        return PSpec(self, lambda e: e, key, names)


# --------------------------------------------------------------------- iguala
@step("iguala", ALL + " C07", "gen_iguala set_variable")
def iguala(W):
    b = W.var("subject", ["local", "global"])
    kind = W.cx.choose("subject is", ["a variable", "another variable", "an expression"])
    if kind == "a variable":
        t = W.expr("subject", W.ast.Variable, var_symbol=b)
    else:
        W.temp(b)
        o = W.sym.VariableSymbol("other", W.B.Texto, W.module)
        t = W.expr("subject", W.ast.Variable, var_symbol=o) if kind == "another variable" else W.expr("subject", W.ast.Call, lacks=["var_symbol"])
    tree = W.expr("decision")
    n = W.ast.Iguala.__new__(W.ast.Iguala)
    ir = type("Ir", (), {})()
    ir.tree = tree
    n.__dict__.update(token=W.tok("IGUALA"), lineno=50, parent=None, target=t, arms=[], target_binding=b, ir=ir,
                      eval_type=W.B.Texto, prom_type=None)
    W.gen(n)

    def spec(S):
        if kind != "a variable":
            S.store(b, S.eval(t))
        S.child(tree)
    for p in ("C08", "C07"):
        W.straight(p, "iguala: the subject is evaluated once, then decided", spec)


@step("iguala: an arm is chosen", ALL + " C07", "gen_iguala_from_ir load_variable set_variable", infer=1)
def success(W):
    void = W.cx.flag("vazio")
    value = W.stub("arm", W.ast.YieldBlock, "stmt" if void else "expr", eval_type=W.B.Vazio if void else W.B.Texto, prom_type=None)

    def binding():
        e = W.stub("binding", W.ast.ASTNode, "stmt")
        e.src, e.dst = W.temp(W.var("source", ["local"])), W.fresh("name")
        table["name"] = e.dst
        return e
    table = {}
    Sc = type("Names", (), {"resolve": lambda self, n: table[n], "get": lambda self, n: table[n]})
    value.symbols = Sc()
    W.scopes[id(value.symbols)] = ("arm scope", value.symbols)

    def meaning(M, e):
        M.store(e.dst, M.load(e.src))
    bs = GSeq(W, "bindings", binding, meaning, view=lambda e: ("name", e.src))
    d = W.ex.DSuccess(W.ex.Body(bs, value))
    n = W.ast.Iguala.__new__(W.ast.Iguala)
    n.__dict__.update(token=W.tok("IGUALA"), lineno=50)
    W.g.lineno = 50
    W.run(W.g.gen_iguala_from_ir, n, d)

    def spec(S):
        S.each(bs)
        S.child(value)
        if void:
            S.push(("const", "falso"))
    for p in ("C08", "C07"):
        W.straight(p, "iguala: names get what was matched, then the arm runs", spec)


@step("iguala: cases", ALL + " C07", "gen_iguala_from_ir gen_iguala_cases gen_iguala_test gen_iguala_case_bindings declare_local "
      "get_variant_index load_const", infer=2)
def switch(W):
    v = W.temp(W.var("subject", ["local", "global"]))
    fb = W.expr("fallback") if W.cx.flag("fallback") else None
    u = W.ty.Uniao("U", W.module, {})
    u.add_variant("A", [])
    u.add_variant("V", [W.B.Int])
    u.add_variant("Z", [W.B.Int])

    def arg():
        e = W.sym.VariableSymbol("t", W.B.Texto, W.module)
        e.out_id = W.cx.choose("argument", ["t1"])
        if W.cx.flag("has a place"):
            W.declared(e)
        return e

    def case():
        k = W.cx.choose("case", ["int", "texto", "variant", "variant with arguments"])
        body = W.expr("body")
        args = []
        if k == "int":
            c = W.ty.IntCons(W.cx.choose("number", [0, 7, -3]))
            test = lambda M: M.bin("OP_EQ", M.load(v), ("const", str(c.val)))
        elif k == "texto":
            c = W.ty.StrCons("'abc'")
            test = lambda M: M.bin("OP_EQ", M.load(v), ("const", "'abc'"))
        else:
            x = u.variants["A" if k == "variant" else "V"]
            c = W.ty.VariantCons(x.tag, u, x.name, x.params)
            test = lambda M: ("is variant", M.load(v), f"{W.module.fpath}::U::{x.name}")
            if k != "variant":
                args = GSeq(W, "arguments", arg, lambda M, e: M.push(("slot", e.out_id)), pushes=1)
        e = W.ex.Case(c, args, body)
        e.test, e.k, e.label = test, k, "case"
        return e

    def meaning(M, e):
        if W.truth(e.test(M)):
            if e.k == "variant with arguments" and e.arguments:
                x = M.load(v)
                M.each(e.arguments)
                M.op("bind", x, M.popn(e.arguments.n))
            M.child(e.body)
            return "done"
    cs = GSeq(W, "cases", case, meaning, can_exit=True)
    d = W.ex.DSwitch(v, cs, fb)
    n = W.ast.Iguala.__new__(W.ast.Iguala)
    n.__dict__.update(token=W.tok("IGUALA"), lineno=50)
    W.g.lineno = 50
    W.run(W.g.gen_iguala_from_ir, n, d)

    def spec(S):
        if S.each(cs) is None:
            if fb is None:
                raise PathEnd()     # the cases are exhaustive
            S.child(fb)
    for p in ("C08", "C07"):
        W.straight(p, "iguala: the first case that matches, or the fallback", spec)


# ------------------------------------------------------------------- encoding
# The machine's instruction set: the number of an instruction is its place here.
OPS = ("MOSTRA LOAD_CONST LOAD_NAME OP_ADD OP_MINUS OP_MUL OP_DIV OP_FLOORDIV OP_MODULO OP_INVERT OP_AND OP_OR OP_NOT OP_EQ "
       "OP_NOTEQ OP_GREATER OP_GREATEREQ OP_LESS OP_LESSEQ OP_INDEX_GET OP_INDEX_SET GET_GLOBAL SET_GLOBAL JUMP JUMP_IF_FALSE "
       "GET_LOCAL SET_LOCAL CALL_FUNCTION RETURN CAST BUILD_STR BUILD_VEC LOAD_REGISTO BUILD_OBJ GET_PROP SET_PROP OP_UNWRAP "
       "OP_ISNULL LOAD_MODULE_DEF BUILD_VARIANT BIND_MATCH_ARGS MATCH_VARIANT").split()


def widths(W, op):
    n = op.name
    return [1] if n in W.U8 else [2] if n in W.U16 else [8] if n in W.U64 else [8, 8] if n == "LOAD_MODULE_DEF" else []


@step("an instruction", "C09 C13", "append_op amanda.compiler.codegen.OpCode.op_size", covers=["compiled", "refused"])
def append(W):
    cx, g = W.cx, W.g
    cx.patch(W.cg.ByteGen, "append_op", W.real_append)
    op = cx.choose("op", list(W.Op))
    ws = widths(W, op)
    args = [cx.int(f"operand{i}", 0) for i in range(len(ws))]
    g.lineno = 50
    ip = g.ip
    first = cx.choose("line map", ["empty", "same line", "another line", "one before"])
    a, b = cx.int("first", 0), cx.int("last", 0)
    cx.assume(mkb(cx, ti(a) <= ti(b)))
    if first != "empty":
        # the offsets so far are covered without a gap
        cx.assume(mkb(cx, ti(b) == ti(ip) - 1))
    old = {"empty": [], "same line": [[a, b, 50]], "another line": [[a, b, 49]], "one before": [[0, a - 1, 50], [a, b, 49]]}[first]
    g.src_map = [list(x) for x in old]
    if first == "empty":
        cx.assume(mkb(cx, ti(ip) == 0))
    before = {k: v for k, v in g.__dict__.items()}
    nops = len(g.ops)
    out = cx.call(g.append_op, op, *args)
    fits = True
    if ws and ws[0] < 8:
        fits = cx.decide(ti(args[0]) < 256 ** ws[0])
    if out.crashed:
        W.prove("*", "no crash", False, lambda: out.tb)
        raise PathEnd()
    W.prove("C09", "an operand that does not fit is refused, and no other", out.ok == bool(fits), lambda: (op.name, str(args)))
    if out.rejected:
        cx.cover("refused")
        W.prove("C13", "the refusal names the line being compiled", out.value.line == 50)
        raise PathEnd()
    cx.cover("compiled")
    size = 1 + sum(ws)
    W.prove("C09", "the offset grows by the size of the instruction", W.valid(g.ip, ip + size), lambda: (op.name, str(g.ip)))
    W.prove("C09", "the instruction is appended", len(g.ops) == nops + 1 and g.ops[-1][0] is op and
            len(g.ops[-1][1]) == len(args) and all(x is y or W.valid(x, y) for x, y in zip(g.ops[-1][1], args)))
    m = g.src_map
    shape = len(m) == len(old) + (first != "same line") and all(
        W.valid(x, y) for r, q in zip(m, old[:-1] if first == "same line" else old) for x, y in zip(r, q))
    W.prove("C13", "the line map keeps what it knew", shape, lambda: (str(old), str(m)))
    if not shape:
        raise PathEnd()
    lo = a if first == "same line" else ip
    W.prove("C13", "the line map covers the instruction, and no other offset", W.valid(m[-1][0], lo) and W.valid(m[-1][1], ip + size - 1)
            and m[-1][2] == 50, lambda: (str(old), str(m), str(ip)))
    for k, v in before.items():
        if k not in ("ip", "src_map", "ops"):
            W.prove("C09", f"{k} is left alone", g.__dict__[k] is v or g.__dict__[k] == v)


class Bytes:
    """A list of bytes with symbolic elements."""

    def __init__(self, cx, xs):
        self.cx, self.xs = cx, list(xs)

    def __iter__(self):
        return iter(self.xs)

    def __add__(self, o):
        return Bytes(self.cx, self.xs + list(o))

    def __radd__(self, o):
        return Bytes(self.cx, list(o) + self.xs)

    def sym_len(self):
        return len(self.xs)

    __len__ = sym_len

    def __getitem__(self, i):
        return self.xs[i] if isinstance(i, int) else Bytes(self.cx, self.xs[i])


def big_endian(cx, v, w):
    return [mk_(cx, v, 8 * (w - 1 - i)) for i in range(w)]


def mk_(cx, v, s):
    return (v >> s) % 256


class StructModel:
    """struct.pack of unsigned integers (struct's documentation)."""
    SIZE = {"B": 1, "H": 2, "I": 4, "L": 4, "Q": 8}

    def __init__(self, cx):
        self.cx = cx

    def pack(self, fmt, *vs):
        if not fmt or fmt[0] not in "<>!" or any(c not in self.SIZE for c in fmt[1:]) or len(fmt) - 1 != len(vs):
            raise Unsupported(f"struct format {fmt}")
        out = []
        for c, v in zip(fmt[1:], vs):
            w = self.SIZE[c]
            if not self.cx.decide(ti(v) < 256 ** w) or not self.cx.decide(ti(v) >= 0):
                raise self.cx.modelled(__import__("struct").error("out of range"))
            b = big_endian(self.cx, v, w)
            out += b if fmt[0] != "<" else b[::-1]
        return Bytes(self.cx, out)


def make_bytes(cx):
    def bytes_(xs=()):
        xs = list(xs)
        for x in xs:
            if isinstance(x, SymInt) and not (cx.decide(x.t >= 0) and cx.decide(x.t < 256)):
                raise cx.modelled(ValueError("bytes must be in range(0, 256)"))
        return Bytes(cx, xs)
    return bytes_


def shadow(cx, mod, name, value):
    """A name of the module stands for something else on this path."""
    missing = object()
    cx.cleanup.append((mod, name, mod.__dict__.get(name, missing), missing))
    setattr(mod, name, value)


@step("the bytes of an instruction", "C09", "write_op_bytes format_u16_arg format_u64_arg amanda.compiler.codegen.OpCode.op_size",
      covers=["done"])
def encode(W):
    cx, g = W.cx, W.g
    op = cx.choose("op", list(W.Op))
    num = 255 if op.name == "HALT" else OPS.index(op.name) if op.name in OPS else None
    W.prove("C09", "the machine knows the instruction", num is not None and op.value == num, lambda: op.name)
    shadow(cx, W.cg, "struct", StructModel(cx))
    shadow(cx, W.cg, "bytes", make_bytes(cx))
    ws = widths(W, op)
    vals = [cx.int(f"operand{i}", 0) for i in range(len(ws))]
    for v, w in zip(vals, ws):
        cx.assume(mkb(cx, ti(v) < 256 ** w))
    args = list(vals)
    if op.name in ("JUMP", "JUMP_IF_FALSE"):
        g.labels.at[1003] = vals[0]
        g.labels.n = 1004
        args = [1003]
    out = cx.call(g.write_op_bytes, (op, tuple(args)))
    W.prove("*", "no crash", not out.crashed, lambda: out.tb)
    if not out.ok:
        W.prove("C09", "an instruction that was accepted is encoded", False)
        raise PathEnd()
    cx.cover("done")
    want = [num]
    for v, w in zip(vals, ws):
        want += big_endian(cx, v, w)
    got = list(out.value)
    W.prove("C09", "the instruction number, then every operand, highest byte first",
            len(got) == len(want) and all(W.valid(x, y) for x, y in zip(got, want)), lambda: (op.name, str(got)))


@step("labels", "C09 C08", "new_label patch_label_loc", covers=["done"])
def labels(W):
    cx, g = W.cx, W.g
    g.labels = old = SomeLabels(cx)
    ip = g.ip
    out = cx.call(g.new_label)
    for p in ("C09", "C08"):
        W.prove(p, "a new label is a new one", out.ok and old.fresh(out.value, 0), lambda: str(out.value))
    if not out.ok or g.labels is not old:
        raise PathEnd()
    l = out.value
    W.prove("C08", "a new label marks this place", W.valid(old.get(l), ip))
    g.ip = cx.int("later", 0)
    cx.assume(mkb(cx, ti(g.ip) < 2 ** 63))
    out2 = cx.call(g.new_label)
    for p in ("C09", "C08"):
        W.prove(p, "two labels differ", out2.ok and old.fresh(out2.value, 1))
    n = len(old.new)
    out = cx.call(g.patch_label_loc, l)
    for p in ("C09", "C08"):
        W.prove(p, "a patched label marks this place", out.ok and W.valid(old.get(l), g.ip))
        W.prove(p, "no other label moves", len(old.new) == n and not old.moved)
    cx.cover("done")


class SomeLabels:
    """Labels 0..n-1 at unknown places."""

    def __init__(self, cx):
        self.cx, self.n0, self.new, self.moved = cx, cx.int("labels", 0), [], False

    def sym_len(self):
        return self.n0 + len(self.new)

    def find(self, k):
        if not isinstance(k, (int, SymInt)):
            raise Unsupported("a label that is no number")
        for i, (q, _) in enumerate(self.new):
            if self.cx.check(ti(q) != ti(k)) == __import__("z3").unsat:
                return i
        return None

    def get(self, k):
        i = self.find(k)
        return None if i is None else self.new[i][1]

    __getitem__ = get

    def __setitem__(self, k, v):
        i = self.find(k)
        if i is not None:
            self.new[i] = (k, v)
            return
        if self.cx.decide(ti(k) < ti(self.n0)):
            self.moved = True
        self.new.append((k, v))

    def fresh(self, k, i):
        """k was no label before, and is the i-th new one."""
        z = self.cx.check(ti(k) < ti(self.n0)).r if isinstance(k, (int, SymInt)) else 1
        return z == -1 and self.find(k) == i and not self.moved

    def __len__(self):
        raise Unsupported("len")


@step("tables", "C09 C10 C08 C14", "get_table_index declare_local get_variant_index load_const load_name", covers=["compiled", "refused"])
def tables(W):
    cx, g = W.cx, W.g
    which = cx.choose("table", ["constants", "names", "locals", "variants"])
    g.lineno = 50
    t = {"constants": g.const_table, "names": g.names, "locals": g.func_locals, "variants": g.uniao_variants}[which]
    k = cx.choose("entry", ["abc", 5]) if which == "constants" else "abc"
    had = k in t
    n0 = t.n
    was = t.find(k)
    v = W.sym.VariableSymbol("abc", W.B.Texto, W.module)
    u = W.ty.Uniao("U", W.module, {})
    u.add_variant("V", [])
    call = {"constants": lambda: g.get_table_index(k, g.CONST_TABLE), "names": lambda: g.get_table_index(k, g.NAME_TABLE),
            "locals": lambda: g.declare_local(v), "variants": lambda: g.get_variant_index(u.variants["V"])}[which]
    if which == "variants":
        k = u.variants["V"].variant_id()
        had = k in t
        was = t.find(k)
    out = cx.call(call)
    W.prove("*", "no crash", not out.crashed, lambda: out.tb)
    idx = was if had else n0
    if which in ("constants", "names"):
        small = cx.decide(ti(idx) < 65535)
        W.prove("C09", "an index that does not fit is refused, and no other", out.ok == bool(small))
    if not out.ok:
        cx.cover("refused")
        raise PathEnd()
    cx.cover("compiled")
    for p in ("C09", "C10", "C08"):
        W.prove(p, "the index is the one of the entry", W.valid(out.value, idx) and k in t and W.valid(t.find(k), idx))
        W.prove(p, "at most one entry is added", W.valid(t.n, n0 + (0 if had else 1)))


@step("variants", "C08 C07", "amanda.compiler.types.core.Variant.variant_id", covers=["done"])
def variant_id(W):
    """Two variants have the same tag exactly when they are the same one."""
    cx = W.cx
    names, mods = ["A", "B"], [W.module, W.other]

    def one(i):
        u = W.ty.Uniao(cx.choose(f"union{i}", names), cx.choose(f"module{i}", mods), {})
        n = cx.choose(f"variant{i}", names)
        u.add_variant(n, [])
        return u.variants[n], (u.module.fpath, u.name, n)
    (a, ka), (b, kb) = one(0), one(1)
    for p in ("C08", "C07"):
        W.prove(p, "variants have one tag each", (a.variant_id() == b.variant_id()) == (ka == kb))
    cx.cover("done")


# ---------------------------------------------------------------- the module
@step("module", "C08 C09 C10 C11 C12 C13 C14", "compile compile_builtin", covers=["compiled"], infer=2)
def module(W):
    cx, g, cg = W.cx, W.g, W.cg
    B = cg.ByteGen
    Mod = type(W.module)
    main = W.module
    prog = W.openblock("program")
    g = W.g = B(main)
    # the tables of a new generator are empty; nothing here depends on it
    for k, v in g.__dict__.items():
        if k in ("const_table", "names", "func_locals", "uniao_variants", "labels", "modules") and v != {} or \
                k in ("ops", "funcs", "registos", "src_map") and v != []:
            W.prove("C08", "module: a new generator has an empty " + k, False)
    W.set(const_table=AbsTable(W, "constants", {}), names=AbsTable(W, "names", {}), func_locals=AbsTable(W, "locals", {}),
          uniao_variants=AbsTable(W, "variants"), modules=AbsTable(W, "modules"), funcs=Listed(cx, "functions"),
          registos=Listed(cx, "records"), ops=Instrs(W), src_map=Ranges(W))
    tables = g.const_table, g.names
    real = B.compile
    made = []

    def compile_(self, imports, raw=True):
        if self is g:
            return real(self, imports, raw)
        doc = ("document of", self.ctx_module)
        made.append((self.ctx_module, self.modules is g.modules, self.uniao_variants is g.uniao_variants, imports, raw))
        return doc
    cx.patch(B, "compile", compile_)

    # imports
    class Imports(SymSeq):
        def values(self):
            return self

        def sym_enumerate(self, start=0):
            # counted from the number of modules: the count follows that number
            if not W.valid(start, g.modules.n):
                raise Unsupported("imports counted from another number than that of the modules")

            class Counted:
                is_sym_seq = True

                def loop_spec(s, key, names):
                    spec = self.loop_spec(key, names)

                    def view(e):
                        s.at = g.modules.n
                        return s.at, e
                    back = spec.check

                    def check(e, added):
                        if not W.valid(g.modules.n, s.at + 1):
                            raise Unsupported("imports counted apart from the modules")
                        back(e, added)
                    spec.view, spec.check = view, check
                    return spec
            return Counted()

        def loop_spec(self, key, names):
            def check(e, added):
                if not e.looked:
                    # the loop that gives the indices
                    W.prove("C12", "module: every import has an index", e.fpath in g.modules)
                    W.prove("C12", "module: nothing is compiled before every import has one", not made and not added)
                    return
                new = not e.was
                W.prove("C12", "module: an import is compiled exactly once", len(made) == new and all(m[0] is e for m in made)
                        and e.compiled is True, lambda: (str(made), e.was, e.compiled))
                W.prove("C11", "module: the imports are written in order", (added or []) == [("document of", e)] * new, lambda: repr(added))
                W.prove("C12", "module: an import is compiled with the indices of the whole program", all(m[1] for m in made))
                W.prove("C07", "module: variants have one tag in the whole program", all(m[2] for m in made))
                W.prove("C08", "module: variants have one tag in the whole program", all(m[2] for m in made))
                W.prove("C12", "module: an import imports nothing again", all(m[3] == {} for m in made))
                W.prove("C11", "module: an import is not written on its own", all(m[4] is False for m in made))

            def end():
                self.loops.append(key)
            return AccSpec(self, lambda e: e, key, names, check, end=end)

    class Import(Mod):
        @property
        def compiled(self):
            self.looked = True
            return self.state

        @compiled.setter
        def compiled(self, v):
            self.state = v

    def make():
        m = Import.__new__(Import)
        m.looked = False
        # any program, the empty one too
        m.__dict__.update(fpath="/m/importado.ama", seq=imps, builtin=cx.flag("builtin"), ast=W.openblock("imported program"))
        m.was = m.state = cx.flag("compiled already")
        if imps.loops:
            # every import has an index by now
            if m.fpath not in g.modules:
                raise PathEnd()
        else:
            g.modules.absent.append(m.fpath)    # imports are of different files
        return m
    imps = Imports(cx, "imports", make)
    imps.loops = []

    # the symbols of the program
    class Symbols(SymSeq):
        def items(self):
            return self

        def loop_spec(self, key, names):
            def check(e, added):
                if e[1].__class__ in (W.sym.VariableSymbol, W.sym.FunctionSymbol):
                    W.prove("C08", "module: its variables and functions have names", e[0] in g.names)
            return AccSpec(self, lambda e: e, key, names, check)

    class Pair(tuple):
        pass

    def symbol():
        k = cx.choose("symbol", ["variable", "function", "record"])
        s = W.sym.VariableSymbol("v", W.B.Int, main) if k == "variable" else \
            W.sym.FunctionSymbol("f", W.B.Int, module=main) if k == "function" else W.ty.Registo("R", main, {})
        p = Pair((s.name, s))
        p.seq = syms
        return p
    syms = Symbols(cx, "symbols", symbol)
    prog.symbols.symbols = syms
    main.ast = prog
    body = []

    def compile_block(self, node):
        W.prove("C08", "module: compiles its own program", node is prog)
        body.append(len(imps.loops))
        W.prove("C08", "module: the program is compiled in its own scope", self.scope_symtab is prog.symbols and self.program_symtab is prog.symbols)
        self.ops.grow()
        self.src_map.grow()
        self.func_locals.grow()
        self.const_table.grow()
        self.names.grow()
        self.ip = cx.int("end of the program", 0)
    cx.patch(B, "compile_block", compile_block)

    def append_op(self, op, *args):
        W.prove("C13", "module: the end has no line", self.lineno == 0)
        self.ops.tail.append((op, args))
    cx.patch(B, "append_op", append_op)
    cx.patch(B, "write_op_bytes", lambda self, op: Code(("bytes of", op)))

    class Code(tuple):
        pass

    class Buf:
        def __init__(self):
            self.xs = []

        def write(self, x):
            self.xs.append(x)

        def getvalue(self):
            return tuple(self.xs)

        def close(self):
            pass

        def acc_items(self):
            return list(self.xs)

        def acc_add(self, part):
            self.xs.append(part)
            if part.whole:
                self.xs += [Code(("bytes of", x)) for x in part.seq.tail]
    shadow(cx, cg, "BytesIO", Buf)
    dumped = []

    class Dump:
        @staticmethod
        def dumps(d):
            dumped.append(d)
            return b"dumped"
    shadow(cx, cg, "bindump", Dump)
    raw = cx.flag("raw")
    out = cx.call(g.compile, imps, raw) if not raw or cx.flag("says so") else cx.call(g.compile, imps)
    W.prove("*", "no crash", not out.crashed, lambda: out.tb)
    if out.rejected:
        for p in ("C08", "C09"):
            W.prove(p, "module: refused only when a name does not fit", W.full())
        raise PathEnd()
    if not out.ok:
        raise PathEnd()
    cx.cover("compiled")
    d = out.value
    if raw:
        W.prove("C11", "module: what is written is the module", d == b"dumped" and len(dumped) == 1)
        d = dumped[0] if dumped else {}
    if not isinstance(d, dict) or len(body) != 1:
        W.prove("C08", "module: the program is compiled once", False)
        raise PathEnd()
    P = lambda p, c, x: W.prove(p, "module: " + c, x, lambda: repr(d)[:600])
    P("C11", "has exactly these parts", set(d) == {"name", "builtin", "entry_locals", "constants", "names", "ops", "functions", "registos", "src_map", "imports"})
    P("C11", "has the name of its file", d.get("name") == "este")
    P("C11", "is not builtin", d.get("builtin") == 0)
    P("C12", "imports are compiled before the module", body[0] == 2)
    ops = d.get("ops")
    for p in ("C09", "C11", "C08"):
        P(p, "the code is every instruction in order, then the end", isinstance(ops, tuple) and len(ops) == 2 and
          is_all(list(ops[:1]), g.ops) and ops[1] == ("bytes of", (W.Op.HALT, ())))
    P("C10", "has room for the variables outside of functions", W.valid(d.get("entry_locals"), g.func_locals.n))
    P("C08", "the tables are those of the program", (g.const_table, g.names) == tables)
    for p in ("C08", "C11"):
        for k, t in (("constants", g.const_table), ("names", g.names)):
            x = d.get(k)
            if x is not None and not hasattr(x, "tab"):
                raise Unsupported("the list of " + k)
            P(p, f"the {k} are at their indices", x is not None and x.tab is t)
        P(p, "the functions and records are all there", d.get("functions") is g.funcs and d.get("registos") is g.registos)
    P("C08", "true and false are constants", "verdadeiro" in g.const_table and "falso" in g.const_table)
    P("C13", "the line map is kept, but for the end", is_all(d.get("src_map"), g.src_map))
    P("C11", "the imports are all there", is_all(d.get("imports"), imps))


@step("builtin module", "C08 C11 C12", "compile compile_builtin", covers=["done"])
def builtin(W):
    """Closed: a builtin module has no code of its own, only its name."""
    cx, cg = W.cx, W.cg
    main = W.module
    main.builtin = True
    main.ast = W.openblock("program")
    main.ast.symbols.define("f", W.sym.FunctionSymbol("f", W.B.Int, module=main))
    g = cg.ByteGen(main)
    dumped = []

    class Dump:
        @staticmethod
        def dumps(d):
            dumped.append(d)
            return b"dumped"
    shadow(cx, cg, "bindump", Dump)
    raw = cx.flag("raw")
    other = type(main)("/m/outro.ama")
    out = cx.call(g.compile, {other.fpath: other} if cx.flag("imports") else {}, raw)
    if not out.ok:
        W.prove("*", "no crash", False, lambda: out.tb or repr(out.value))
        raise PathEnd()
    d = out.value
    if raw:
        W.prove("C11", "builtin: what is written is the module", d == b"dumped" and len(dumped) == 1)
        d = dumped[0] if dumped else {}
    d = d if isinstance(d, dict) else {}
    P = lambda p, c, x: W.prove(p, "builtin: " + c, x, lambda: repr(d)[:600])
    P("C11", "has exactly these parts", set(d) == {"name", "builtin", "entry_locals", "constants", "names", "ops", "functions", "registos", "src_map", "imports"})
    for p in ("C11", "C12"):
        P(p, "has the name of its file, and says that it is builtin", d.get("name") == "este" and d.get("builtin") == 1)
    P("C08", "does nothing but end", d.get("ops") == bytes([W.Op.HALT.value]) and d.get("entry_locals") == 0)
    P("C12", "is compiled without its imports", d.get("imports") == [] and d.get("functions") == [] and d.get("registos") == [])
    cx.cover("done")


class Instrs(SymSeq):
    """The instructions: some, then those that were appended here."""

    def __init__(self, W):
        super().__init__(W.cx, "instructions", self.one, n=0)
        self.W, self.tail = W, []

    def one(self):
        if not self.grown or self.cx.choose("instruction", ["of the program", "the end"]) == "the end":
            return self.tail[-1]
        return ("some", "instruction")

    grown = False

    def grow(self):
        self.grown = True
        self.n = self.cx.int("instructions", 1)

    def append(self, x):
        self.tail.append(x)

    def fresh(self):
        return self.one()

    def loop_spec(self, key, names):
        def check(e, added):
            for p in ("C09", "C11", "C08"):
                self.W.prove(p, "module: every instruction is encoded once, in order", bool(added) and len(added) == 1 and added[0] == ("bytes of", e),
                             lambda: repr((added, e)))
        return AccSpec(self, lambda e: e, key, names, check)


class Ranges(SymSeq):
    """The line map."""

    def __init__(self, W):
        super().__init__(W.cx, "lines", self.one, n=0)
        self.W = W

    def one(self):
        return [self.cx.int("first", 0), self.cx.int("last", 0), self.cx.int("line", 0)]

    def grow(self):
        self.n = self.cx.int("lines", 1)

    def loop_spec(self, key, names):
        def check(e, added):
            end = self.cx.decide(ti(e[2]) == 0)
            self.W.prove("C13", "module: a range of the line map is written as it is, but for the end",
                         not added if end else bool(added) and len(added) == 3 and all(self.W.valid(x, y) for x, y in zip(added, e)),
                         lambda: repr((added, e)))
        return AccSpec(self, lambda e: e, key, names, check)
