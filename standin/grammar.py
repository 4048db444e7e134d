"""The grammar of the language, written once and used twice.

Each function `g_<name>(s, *args)` derives one nonterminal through the cursor
`s`.  The contracts of the parser (checks/c02.py) run one function over the
items a parser method consumed (tokens, and phrases of its callees); the
bounded stand-in runs the same grammar recursively over concrete tokens.
"""


class Fail(Exception):
    """The text does not derive the nonterminal (at the cursor)."""

    def __init__(self, why=""):
        self.why = why


class N:
    """An expected tree node: class and the parts the property speaks of."""

    def __init__(self, cls, **parts):
        self.cls, self.parts = cls, parts

    def __repr__(self):
        return f"{self.cls}({', '.join(f'{k}={v!r}' for k, v in self.parts.items())})"


class Tk:
    """An expected token, by its contents."""

    def __init__(self, kind, lexeme, line=None):
        self.kind, self.lexeme, self.line = kind, lexeme, line

    def __repr__(self):
        return f"{self.kind}:{self.lexeme}@{self.line}"


class Lexeme:
    """The text of a token."""

    def __init__(self, tok):
        self.tok = tok


CONSTS = ("INTEGER", "REAL", "STRING", "NULO", "VERDADEIRO", "FALSO")
EQ, CMP = ("DOUBLEEQUAL", "NOTEQUAL"), ("GREATER", "GREATEREQ", "LESS", "LESSEQ")
ADD, MUL = ("PLUS", "MINUS", "OU"), ("STAR", "DOUBLESLASH", "SLASH", "MODULO", "E")
COMPOUND = {"PLUSEQ": ("PLUS", "+"), "MINUSEQ": ("MINUS", "-"), "STAREQ": ("STAR", "*"), "SLASHEQ": ("SLASH", "/")}
ENDS = ("FIM", "SENAO", "SENAOSE", "CASO", "EOF")


def end_stmt(s):
    if s.at("NEWLINE"):
        s.tok("NEWLINE")
    elif s.at("SEMI"):
        s.tok("SEMI")
    elif s.at("EOF"):
        s.eof()
    else:
        s.fail()


def body(s, ends, acc):
    def step(s, acc):
        if s.at("NEWLINE"):
            s.tok("NEWLINE")
            return acc
        d = s.nt("declaration")
        return acc + (s.spread(d))
    return s.many(lambda s: not s.at(*ends), step, acc)


def g_module(s):
    s.nls()
    ann = s.nt("module_annotations")

    def imp(s, acc):
        u = s.nt("usa_stmt")
        s.nls()
        return acc + [u]
    ch = s.many(lambda s: s.at("USA"), imp, [])
    ch = body(s, ("EOF",), ch)
    return N("Module", annotations=ann, children=ch)


def annots(s, kind):
    def step(s, acc):
        s.tok(kind)
        return acc + [s.nt("annotation_body")]
    return s.many(lambda s: s.at(kind), step, [])


def g_module_annotations(s):
    return annots(s, "DOUBLEAT")


def g_annotations(s):
    return annots(s, "AT")


def g_annotation_body(s):
    t = s.tok("IDENTIFIER")
    if not s.at("LPAR"):
        return N("Annotation", name=Lexeme(t), attrs=[], location_tok=t)
    s.tok("LPAR")
    if s.at("RPAR"):
        s.fail()

    def step(s, acc):
        a = s.tok("IDENTIFIER")
        s.tok("EQUAL")
        v = s.tok("STRING")
        if s.at("COMMA"):
            s.tok("COMMA")
        return acc + [(Lexeme(a), Lexeme(v))]
    attrs = s.many(lambda s: not s.at("RPAR"), step, [])
    s.tok("RPAR")
    return N("Annotation", name=Lexeme(t), attrs=attrs, location_tok=t)


def g_usa_stmt(s):
    t = s.tok("USA")
    m = s.tok("STRING")
    if not s.at("ARROW"):
        end_stmt(s)
        return N("Usa", token=t, usa_mode="Global", module=m, alias=None, items=[])
    s.tok("ARROW")
    if s.at("IDENTIFIER"):
        a = s.tok("IDENTIFIER")
        end_stmt(s)
        return N("Usa", token=t, usa_mode="Scoped", module=m, alias=a, items=[])
    if s.at("LBRACKET"):
        s.tok("LBRACKET")
        items = [Lexeme(s.tok("IDENTIFIER"))]

        def step(s, acc):
            s.tok("COMMA")
            return acc + [Lexeme(s.tok("IDENTIFIER"))]
        items = s.many(lambda s: s.at("COMMA"), step, items)
        s.tok("RBRACKET")
        end_stmt(s)
        return N("Usa", token=t, usa_mode="Item", module=m, alias=None, items=items)
    s.fail()


def g_block(s):
    return N("Block", children=body(s, ENDS, []))


def g_declaration(s):
    ann = []
    if s.at("AT"):
        ann = s.nt("annotations")
        s.nls()
        if not s.at("FUNC", "MET", "REGISTO", "UNIAO"):
            s.fail()
    if s.at("FUNC"):
        return s.nt("function_decl", ann)
    if s.at("MET"):
        return s.nt("method_decl", ann)
    if s.at("REGISTO"):
        return s.nt("registo_decl", ann)
    if s.at("UNIAO"):
        return s.nt("uniao_decl", ann)
    return s.nt("statement")


def maybe(s):
    if s.at("QMARK"):
        s.tok("QMARK")
        return True
    return False


def g_type_path(s, head):
    comps = [Lexeme(head)]

    def step(s, acc):
        s.tok("DOT")
        return acc + [Lexeme(s.tok("IDENTIFIER"))]
    comps = s.many(lambda s: s.at("DOT"), step, comps)
    ga = s.nt("generic_args")
    q = maybe(s)
    return N("TypePath", token=head, components=comps, generic_args=ga, maybe_ty=q)


def g_type(s):
    if s.at("IDENTIFIER"):
        n = s.tok("IDENTIFIER")
        if s.at("DOT"):
            return s.nt("type_path", n)
        ga = s.nt("generic_args")
        q = maybe(s)
        return N("Type", name=n, generic_args=ga, maybe_ty=q)
    if s.at("LBRACKET"):
        s.tok("LBRACKET")
        t = s.nt("type")
        s.tok("RBRACKET")
        q = maybe(s)
        return N("ArrayType", element_type=t, maybe_ty=q)
    s.fail()


def gen_list(s, one, none):
    if not s.at("LBRACKET"):
        return none
    s.tok("LBRACKET")
    if s.at("RBRACKET"):
        s.fail()

    def step(s, acc):
        e = one(s)
        if s.at("COMMA"):
            s.tok("COMMA")
        return acc + [e]
    r = s.many(lambda s: not s.at("RBRACKET"), step, [])
    s.tok("RBRACKET")
    return r


def g_generic_args(s):
    return gen_list(s, lambda s: N("GenericArg", arg=s.nt("type")), None)


def g_generic_params(s):
    return gen_list(s, lambda s: N("GenericParam", name=s.tok("IDENTIFIER")), [])


def g_function_header(s):
    n = s.tok("IDENTIFIER")
    s.tok("LPAR")
    ps = s.nt("formal_params")
    s.tok("RPAR")
    ty = None
    if s.at("COLON"):
        s.tok("COLON")
        if s.at("VAZIO"):
            s.tok("VAZIO")
        else:
            ty = s.nt("type")
    return N("FunctionDecl", name=n, params=ps, func_type=ty, block=None)


def g_native_func_decl(s):
    s.tok("NATIVA")
    f = s.nt("function_header")
    end_stmt(s)
    return s.update(f, is_native=True)


def g_function_decl(s, ann):
    s.tok("FUNC")
    if s.at("NATIVA"):
        return s.nt("native_func_decl")
    f = s.nt("function_header")
    b = s.nt("block")
    s.tok("FIM")
    return s.update(f, block=b, annotations=ann)


def g_method_decl(s, ann):
    s.tok("MET")
    gp = s.nt("generic_params")
    ty = s.nt("type")
    s.tok("DOUBLECOLON")
    n = s.tok("IDENTIFIER")
    s.tok("LPAR")
    s.tok("ALVO")
    ps = []
    if s.at("COMMA"):
        s.tok("COMMA")
        ps = s.nt("formal_params")
    s.tok("RPAR")
    rt = None
    if s.at("COLON"):
        s.tok("COLON")
        rt = s.nt("type")
    b = s.nt("block")
    s.tok("FIM")
    return N("MethodDecl", target_ty=ty, name=n, params=ps, return_ty=rt, func_type=rt, block=b,
             generic_params=gp, annotations=ann)


def g_uniao_decl(s, ann):
    s.tok("UNIAO")
    n = s.tok("IDENTIFIER")
    gp = s.nt("generic_params")
    v = s.nt("uniao_body")
    s.tok("FIM")
    return N("Uniao", name=n, generic_params=gp, variants=v, annotations=ann)


def g_uniao_body(s):
    s.nls()
    vs = []
    if s.at("IDENTIFIER"):
        vs = [s.nt("uniao_variant")]
        s.nls()

        def step(s, acc):
            s.nls()
            s.tok("COMMA")
            s.nls()
            return acc + [s.nt("uniao_variant")]
        vs = s.many(lambda s: s.at("COMMA"), step, vs)
    s.nls()
    return vs


def g_uniao_variant(s):
    n = s.tok("IDENTIFIER")
    ps = []
    if s.at("LPAR"):
        s.tok("LPAR")
        s.nls()
        ps = [s.nt("type")]

        def step(s, acc):
            s.nls()
            s.tok("COMMA")
            s.nls()
            t = s.nt("type")
            s.nls()
            return acc + [t]
        ps = s.many(lambda s: s.at("COMMA"), step, ps)
        s.tok("RPAR")
    return N("UniaoVariant", name=n, params=ps)


def g_registo_decl(s, ann):
    s.tok("REGISTO")
    n = s.tok("IDENTIFIER")
    gp = s.nt("generic_params")
    f = s.nt("registo_body")
    s.tok("FIM")
    return N("Registo", name=n, generic_params=gp, fields=f, annotations=ann)


def g_registo_body(s):
    def step(s, acc):
        if s.at("NEWLINE"):
            s.nls()
            return acc
        n = s.tok("IDENTIFIER")
        if s.at("COMMA"):
            acc = acc + s.spread(s.nt("multi_decl", n))
        else:
            acc = acc + [s.nt("simple_decl", n)]
        end_stmt(s)
        return acc
    return s.many(lambda s: not s.at("FIM"), step, [])


def param(s):
    n = s.tok("IDENTIFIER")
    s.tok("COLON")
    return N("Param", name=n, param_type=s.nt("type"))


def g_formal_params(s):
    s.nls()
    ps = []
    if s.at("IDENTIFIER"):
        s.nls()
        ps = [param(s)]

        def step(s, acc):
            s.nls()
            s.tok("COMMA")
            s.nls()
            p = param(s)
            s.nls()
            return acc + [p]
        ps = s.many(lambda s: not s.at("RPAR"), step, ps)
    return ps


STATEMENTS = (("MOSTRA", "mostra_statement"), ("RETORNA", "retorna_statement"), ("PRODUZ", "produz_statement"),
              ("ENQUANTO", "enquanto_stmt"), ("SE", "se_statement"), ("PARA", "para_stmt"),
              ("ESCOLHA", "escolha_stmt"), ("QUEBRA", "loop_ctl_statement"), ("CONTINUA", "loop_ctl_statement"),
              ("IGUALA", "iguala_stmt"))


def g_statement(s):
    for k, nt in STATEMENTS:
        if s.at(k):
            return s.nt(nt)
    return s.nt("decl_stmt")


def g_mostra_statement(s):
    t = s.tok("MOSTRA")
    e = s.nt("equality")
    end_stmt(s)
    return N("Mostra", token=t, exp=e)


def g_loop_ctl_statement(s):
    t = s.tok("QUEBRA", "CONTINUA")
    end_stmt(s)
    return N("LoopCtlStmt", token=t)


def g_retorna_statement(s):
    t = s.tok("RETORNA")
    e = None if s.at("SEMI", "NEWLINE") else s.nt("equality")
    end_stmt(s)
    return N("Retorna", token=t, exp=e)


def g_produz_statement(s):
    t = s.tok("PRODUZ")
    e = s.nt("equality")
    end_stmt(s)
    return N("Produz", token=t, exp=e)


def g_se_statement(s):
    t = s.tok("SE")
    if s.at("IGUALA"):
        return s.nt("se_iguala_stmt", t)
    c = s.nt("equality")
    s.tok("ENTAO")
    then = s.nt("block")
    elifs = s.many(lambda s: s.at("SENAOSE"), lambda s, acc: acc + [s.nt("senaose_branch")], [])
    other = None
    if s.at("SENAO"):
        s.tok("SENAO")
        other = s.nt("block")
    s.tok("FIM")
    return N("Se", token=t, condition=c, then_branch=then, elsif_branches=elifs, else_branch=other)


def g_senaose_branch(s):
    t = s.tok("SENAOSE")
    c = s.nt("equality")
    s.tok("ENTAO")
    return N("SenaoSe", token=t, condition=c, then_branch=s.nt("block"))


def g_se_iguala_stmt(s, t):
    s.tok("IGUALA")
    target = s.nt("equality")
    s.tok("ARROW")
    p = s.nt("pattern")
    s.tok("ENTAO")
    then = s.nt("block")
    other = None
    if s.at("SENAO"):
        s.tok("SENAO")
        other = s.nt("block")
    s.tok("FIM")
    return N("Iguala", token=t, target=target, arms=[
        N("IgualaArm", pattern=p, body=N("YieldBlock", children=s.children(then))),
        N("IgualaArm", pattern=N("BindingPattern", var=N("Variable", token=Tk("IDENTIFIER", "_"))),
          body=N("YieldBlock", children=s.children(other) if other is not None else []))])


def g_enquanto_stmt(s):
    t = s.tok("ENQUANTO")
    c = s.nt("equality")
    s.tok("FACA")
    b = s.nt("block")
    s.tok("FIM")
    return N("Enquanto", token=t, condition=c, statement=b)


def g_para_stmt(s):
    t = s.tok("PARA")
    e = s.nt("for_expression")
    s.tok("FACA")
    b = s.nt("block")
    s.tok("FIM")
    return N("Para", token=t, expression=e, statement=b)


def g_for_expression(s):
    n = s.tok("IDENTIFIER")
    s.tok("DE")
    return N("ParaExpr", name=n, range_expr=s.nt("range_expression", n))


def g_range_expression(s, t):
    a = s.nt("equality")
    s.tok("DDOT")
    b = s.nt("equality")
    inc = None
    if s.at("INC"):
        s.tok("INC")
        inc = s.nt("equality")
    return N("RangeExpr", start=a, end=b, inc=inc)


def g_escolha_stmt(s):
    t = s.tok("ESCOLHA")
    e = s.nt("equality")
    s.tok("COLON")
    s.nls()

    def step(s, acc):
        k = s.tok("CASO")
        c = s.nt("equality")
        s.tok("COLON")
        return acc + [N("CaseBlock", token=k, expression=c, block=s.nt("block"))]
    cases = s.many(lambda s: s.at("CASO"), step, [])
    d = None
    if s.at("SENAO"):
        s.tok("SENAO")
        s.tok("COLON")
        d = s.nt("block")
    s.tok("FIM")
    return N("Escolha", token=t, expression=e, cases=cases, default_case=d)


def g_pattern(s):
    e = s.nt("primary")
    if s.is_a(e, "Path") or s.is_a(e, "Variable"):
        return s.nt("capture_or_adt_pattern", e)
    if s.is_a(e, "Constant"):
        t = s.node_token(e)
        if s.kind(t, "INTEGER"):
            return N("IntPattern", val=t)
        if s.kind(t, "STRING"):
            return N("StrPattern", val=t)
    s.reject()


def g_capture_or_adt_pattern(s, e):
    if not s.at("LPAR"):
        return N("ADTPattern", adt=e, args=[]) if s.is_a(e, "Path") else N("BindingPattern", var=e)
    s.tok("LPAR")
    args = [s.nt("pattern")]
    s.nls()

    def step(s, acc):
        s.tok("COMMA")
        return acc + [s.nt("pattern")]
    args = s.many(lambda s: s.at("COMMA"), step, args)
    s.tok("RPAR")
    return N("ADTPattern", adt=e, args=args)


def g_iguala_arm(s):
    s.nls()
    p = s.nt("pattern")
    s.tok("ARROW")
    s.nls()
    if s.at("FACA"):
        s.tok("FACA")
        b = s.nt("block")
        s.tok("FIM")
        y = N("YieldBlock", children=s.children(b))
    else:
        e = s.nt("equality")
        y = N("YieldBlock", children=[N("Produz", exp=e)])
    s.nls()
    return N("IgualaArm", pattern=p, body=y)


def g_iguala_stmt(s):
    t = s.tok("IGUALA")
    target = s.nt("equality")

    def more(s, acc):
        s.tok("COMMA")
        return acc + [s.nt("iguala_arm")]

    def step(s, acc):
        acc = acc + [s.nt("iguala_arm")]
        return s.many(lambda s: s.at("COMMA"), more, acc)
    arms = s.many(lambda s: not s.at("FIM"), step, [])
    s.tok("FIM")
    return N("Iguala", token=t, target=target, arms=arms)


def g_decl_stmt(s):
    e = s.nt("expression")
    if s.is_a(e, "Variable"):
        if s.at("COLON"):
            e = s.nt("simple_decl", s.node_token(e))
        elif s.at("COMMA"):
            e = s.nt("multi_decl", s.node_token(e))
    end_stmt(s)
    return e


def g_get_decl_assign(s, name):
    if not s.at("EQUAL"):
        return None
    t = s.tok("EQUAL")
    return N("Assign", token=t, left=N("Variable", token=name), right=s.nt("equality"))


def g_simple_decl(s, name):
    t = s.tok("COLON")
    ty = s.nt("type")
    return N("VarDecl", token=t, name=name, var_type=ty, assign=s.nt("get_decl_assign", name))


def g_multi_decl(s, name):
    def step(s, acc):
        s.tok("COMMA")
        return acc + [s.tok("IDENTIFIER")]
    names = s.many(lambda s: s.at("COMMA"), step, [name])
    t = s.tok("COLON")
    ty = s.nt("type")
    return [N("VarDecl", token=t, name=n, var_type=ty, assign=None) for n in names]


def g_expression(s):
    return s.nt("compound_assignment")


def assignable(s, e):
    return any(s.is_a(e, c) for c in ("Variable", "Get", "IndexGet"))


def store(s, e, t, v):
    if s.is_a(e, "Get"):
        return N("Set", target=e, expr=v)
    if s.is_a(e, "IndexGet"):
        return N("IndexSet", index=e, value=v)
    return N("Assign", left=e, right=v)


def g_compound_assignment(s):
    e = s.nt("assignment")
    for k, (op, text) in COMPOUND.items():
        if s.at(k):
            if not assignable(s, e):
                s.reject()
            t = s.tok(k)
            v = N("BinOp", token=Tk(op, text, s.line(t)), left=e, right=s.nt("equality"))
            return store(s, e, t, v)
    return e


def g_assignment(s):
    e = s.nt("equality")
    if not s.at("EQUAL"):
        return e
    t = s.tok("EQUAL")
    if not assignable(s, e):
        s.reject()
    return store(s, e, t, s.nt("assignment"))


def left_assoc(s, ops, nt):
    def step(s, acc):
        t = s.tok(*ops)
        return N("BinOp", token=t, left=acc, right=s.nt(nt))
    return s.many(lambda s: s.at(*ops), step, s.nt(nt))


def g_equality(s):
    return left_assoc(s, EQ, "comparison")


def g_comparison(s):
    return left_assoc(s, CMP, "addition")


def g_addition(s):
    return left_assoc(s, ADD, "term")


def g_term(s):
    return left_assoc(s, MUL, "unary")


def g_unary(s):
    if s.at("PLUS", "MINUS", "NAO"):
        t = s.tok("PLUS", "MINUS", "NAO")
        return N("UnaryOp", token=t, operand=s.nt("unary"))
    return s.nt("call")


def g_call(s):
    def step(s, e):
        if s.at("LPAR"):
            s.tok("LPAR")
            a = s.nt("args")
            s.tok("RPAR")
            return N("Call", callee=e, fargs=a)
        if s.at("LBRACKET"):
            s.tok("LBRACKET")
            i = s.nt("equality")
            s.tok("RBRACKET")
            return N("IndexGet", target=e, index=i)
        s.tok("DOT")
        return N("Get", target=e, member=s.tok("IDENTIFIER"))
    e = s.many(lambda s: s.at("LPAR", "LBRACKET", "DOT"), step, s.nt("primary"))
    if s.at("CAST"):
        t = s.tok("CAST")
        return N("Converta", token=t, target=e, new_type=s.nt("type"))
    return e


def g_primary(s):
    if s.at("IDENTIFIER"):
        v = N("Variable", token=s.tok("IDENTIFIER"))
        if not s.at("DOUBLECOLON"):
            return v

        def step(s, acc):
            s.tok("DOUBLECOLON")
            return acc + [N("Variable", token=s.tok("IDENTIFIER"))]
        return N("Path", components=s.many(lambda s: s.at("DOUBLECOLON"), step, [v]))
    if s.at(*CONSTS):
        return N("Constant", token=s.tok(*CONSTS))
    if s.at("LBRACKET"):
        t = s.tok("LBRACKET")
        s.nls()
        ty = s.nt("type")
        s.tok("COLON")
        es = []
        if not s.at("RBRACKET"):
            s.nls()
            es = [s.nt("equality")]

            def step(s, acc):
                s.nls()
                s.tok("COMMA")
                s.nls()
                e = s.nt("equality")
                s.nls()
                return acc + [e]
            es = s.many(lambda s: not s.at("RBRACKET"), step, es)
        s.nls()
        s.tok("RBRACKET")
        return N("ListLiteral", token=t, list_type=ty, elements=es)
    if s.at("FORMAT_STR"):
        return s.nt("parse_format_str")
    if s.at("LPAR"):
        s.tok("LPAR")
        e = s.nt("equality")
        s.tok("RPAR")
        return e
    if s.at("ALVO"):
        return N("Alvo", token=s.tok("ALVO"))
    if s.at("IGUALA"):
        return s.nt("iguala_stmt")
    s.fail()


def arg(s):
    e = s.nt("equality")
    if s.is_a(e, "Variable") and s.at("COLON"):
        return s.nt("named_arg", s.node_token(e))
    return e


def g_args(s):
    s.nls()
    a = []
    if not s.at("RPAR"):
        a = [arg(s)]
    s.nls()

    def step(s, acc):
        s.tok("COMMA")
        s.nls()
        e = arg(s)
        s.nls()
        return acc + [e]
    a = s.many(lambda s: s.at("COMMA"), step, a)
    s.nls()
    return a


def g_named_arg(s, name):
    s.tok("COLON")
    return N("NamedArg", name=name, arg=s.nt("equality"))


GRAMMAR = {k[2:]: v for k, v in list(globals().items()) if k.startswith("g_")}


# ------------------------------------------------------------- concrete derivation
class Concrete:
    """Derives a concrete token list [(kind, lexeme, line)]; builds N trees."""

    def __init__(self, toks, line0=1):
        self.toks = [Tk(*t) for t in toks]
        self.i = 0

    def cur(self):
        return self.toks[min(self.i, len(self.toks) - 1)]

    def at(self, *kinds):
        return self.cur().kind in kinds

    def fail(self):
        raise Fail(self.cur().line)

    reject = fail

    def tok(self, *kinds):
        t = self.cur()
        if t.kind not in kinds:
            self.fail()
        self.i += 1
        return t

    def eof(self):
        pass

    def nls(self):
        while self.at("NEWLINE"):
            self.i += 1

    def nt(self, name, *args):
        if name == "parse_format_str":
            return fmtstr(self)
        return GRAMMAR[name](self, *args)

    def many(self, cond, step, acc):
        while cond(self):
            acc = step(self, acc)
        return acc

    def is_a(self, n, cls):
        return isinstance(n, N) and n.cls == cls

    def node_token(self, n):
        return n.parts["token"]

    def kind(self, t, k):
        return t.kind == k

    def line(self, t):
        return t.line

    def spread(self, d):
        return d if isinstance(d, list) else [d]

    def children(self, b):
        return b.parts["children"]

    def update(self, n, **parts):
        return N(n.cls, **{**n.parts, **parts})


def fmtstr(s):
    from . import lexspec
    t = s.tok("FORMAT_STR")
    text = t.lexeme[1:-1]
    parts, buf, i, has = [], "", 0, False
    const = lambda x: N("Constant", token=Tk("STRING", f'"{x}"', t.line))
    while i < len(text):
        if text[i] == "{":
            if text[i + 1:i + 2] == "{":
                buf += "{"
                i += 2
                continue
            if buf:
                parts.append(const(buf))
            buf = ""
            j = text.find("}", i)
            inner = text[i + 1:j]
            if j < 0 or not inner.strip() or inner.strip()[:2] in ("f'", 'f"'):
                raise Fail(t.line)
            try:
                toks = lexspec.tokens(inner)
            except lexspec.Refused:
                raise Fail(t.line)
            toks = [(k, lx, ln + t.line - 1) for k, lx, ln in toks]
            sub = Concrete(toks)
            try:
                e = sub.nt("equality")
                if not sub.at("EOF"):
                    sub.fail()
            except Fail:
                raise Fail(t.line)
            parts.append(e)
            has = True
            i = j + 1
            continue
        buf += text[i]
        i += 1
    if buf or not parts:
        parts.append(const(buf))
    return N("FmtStr", token=t, parts=parts) if has else parts[0]


def parse(text):
    """('ok', tree) or ('err', line)."""
    from . import lexspec
    # a lexical error surfaces when the parser reaches the token, which may be
    # after an earlier syntax error: tokenise as far as possible
    toks, bad = lexspec.tokens_until(text)
    if bad is not None:
        toks = toks + [("BAD", None, bad)]
    c = Concrete(toks)
    try:
        tree = c.nt("module")
        return ("ok", tree)
    except Fail as e:
        return ("err", e.why)


def compare(actual, exp, path="tree"):
    """None, or where the real tree differs from the expected one."""
    if isinstance(exp, N):
        if type(actual).__name__ != exp.cls:
            return f"{path}: {type(actual).__name__} instead of {exp.cls}"
        for k, v in exp.parts.items():
            if not hasattr(actual, k):
                return None if k in ("usa_mode",) else f"{path}.{k}: missing"
            r = compare(getattr(actual, k), v, f"{path}.{k}")
            if r:
                return r
        return None
    if isinstance(exp, Tk):
        kind = getattr(getattr(actual, "token", None), "name", None)
        if kind is None:
            return f"{path}: not a token"
        if kind != exp.kind or actual.lexeme != exp.lexeme or type(actual.lexeme) is not type(exp.lexeme):
            return f"{path}: token {kind} {actual.lexeme!r} instead of {exp.kind} {exp.lexeme!r}"
        if exp.line is not None and actual.line != exp.line:
            return f"{path}: token line {actual.line} instead of {exp.line}"
        return None
    if isinstance(exp, Lexeme):
        return None if actual == exp.tok.lexeme else f"{path}: {actual!r} instead of {exp.tok.lexeme!r}"
    if isinstance(exp, list):
        if isinstance(actual, dict):
            actual = list(actual.items())
            d = {}
            for a, b in exp:
                d[a.tok.lexeme] = b
            exp = [(Lexeme(Tk("", a)), b) for a, b in d.items()]
        if not isinstance(actual, (list, tuple)) or len(actual) != len(exp):
            return f"{path}: {actual!r:.80} instead of {len(exp)} parts"
        for i, (a, b) in enumerate(zip(actual, exp)):
            r = compare(a, b, f"{path}[{i}]")
            if r:
                return r
        return None
    if isinstance(exp, tuple):
        return compare(list(actual), list(exp), path)
    if isinstance(exp, str) and hasattr(actual, "name"):
        return None if actual.name == exp else f"{path}: {actual.name} instead of {exp}"
    if isinstance(exp, bool):
        return None if actual is exp else f"{path}: {actual!r} instead of {exp!r}"
    return None if actual == exp else f"{path}: {actual!r:.80} instead of {exp!r}"
