"""Abstract token streams: what a recursive-descent parser is verified over.

Every method of the parser is run on a stream of tokens of arbitrary kind.
Calls to the other grammar methods are replaced by their contract: they consume
an arbitrary phrase of their nonterminal, or refuse.  What the method consumed
is the list of items; the grammar's own derivation (standin/grammar.py) is then
run over the same items and must agree with the method: on where the next token
may not continue the text, on the tree, and on refusal.

Loops are cut: the earlier iterations become one item (Rep), the loop's
accumulator a placeholder; which local holds the grammar's accumulator is
inferred (Houdini) and proved at loop entry and at the back edge.
"""
from .engine import PathEnd, Unsupported, SymInt, SymBool
from .hooks import LoopSpec, UNBOUND
from standin.grammar import GRAMMAR, N, Tk, Lexeme


class SymKind:
    """A token kind known up to a set of candidates."""
    is_sym = True

    def __init__(self, cx, cands):
        self.cx, self.cands = cx, frozenset(cands)

    def __eq__(self, o):
        if o is self:
            return True
        if isinstance(o, SymKind):
            return self.get() == o.get()
        if o not in self.cands:
            return False
        if len(self.cands) == 1:
            return True
        if self.cx.choose(f"kind {name(o)}", [True, False]):
            self.cands = frozenset([o])
            return True
        self.cands = self.cands - {o}
        return False

    def __ne__(self, o):
        return not self.__eq__(o)

    def within(self, ks):
        ks = frozenset(ks)
        if self.cands <= ks:
            return True
        if not self.cands & ks:
            return False
        if self.cx.choose("kind in " + "/".join(sorted(map(name, ks & self.cands)))[:40], [True, False]):
            self.cands &= ks
            return True
        self.cands -= ks
        return False

    def get(self):
        if len(self.cands) > 1:
            k = self.cx.choose("kind", sorted(self.cands, key=name))
            self.cands = frozenset([k])
        return next(iter(self.cands))

    def __hash__(self):
        return hash(self.get())

    def sym_is(self, o):
        return self == o

    @property
    def value(self):
        return getattr(next(iter(self.cands)), "value", "eof")

    @property
    def name(self):
        return name(self.get())

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return "|".join(sorted(map(name, self.cands))[:4]) + ("..." if len(self.cands) > 4 else "")


def name(k):
    return getattr(k, "name", "EOF")


class Ph:
    """A phrase of a nonterminal, consumed by a callee under its contract."""

    def __init__(self, nt, args, node, refused=False):
        self.nt, self.args, self.node, self.refused = nt, args, node, refused

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return f"<{self.nt}{' refused' if self.refused else ''}>"


class Rep:
    """The earlier iterations of a loop."""

    def __init__(self, first):
        self.first = first
        self.state = None

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return "<iterations>"


class Back:
    def __init__(self, rep, vals, la):
        self.rep, self.vals, self.la = rep, vals, la

    def __repr__(self):
        return "<back edge>"


class NLs:
    def __repr__(self):
        return "<line breaks>"


class BackReached(Exception):
    pass


class WantMore(Exception):
    """The grammar can consume the lookahead."""


class Off(Exception):
    """The grammar does not derive what was consumed."""

    def __init__(self, why, at):
        self.why, self.at = why, at


class GFail(Exception):
    """The grammar refuses at the lookahead."""


EMPTY_OK = {"generic_args", "generic_params", "module_annotations", "annotations", "block", "get_decl_assign",
            "uniao_body", "registo_body", "formal_params", "args", "module"}
PRE = {"loop_ctl_statement": ("QUEBRA", "CONTINUA")}
LISTS = {"module_annotations", "annotations", "generic_args", "generic_params", "uniao_body", "registo_body",
         "formal_params", "args", "multi_decl"}


PHRASES = {}


def phrase(cls):
    """What a callee returns: its class is known, and only some of its parts are."""
    if cls not in PHRASES:
        def missing(self, a):
            if a.startswith(("__", "pvc_", "sym_", "is_")):
                raise AttributeError(a)
            raise Unsupported(f"attribute {a} of what a callee returns")
        PHRASES[cls] = type(cls)(cls.__name__, (cls,), {"__getattr__": missing, "pvc_class": cls, "__eq__": lambda s, o: s is o,
                                                        "__hash__": lambda s: id(s)})
    return PHRASES[cls]


def cls_of(n):
    return getattr(type(n), "pvc_class", type(n))


class World:
    """One parser over an abstract stream, and the log of what it consumed."""

    def __init__(self, cx):
        self.cx = cx
        ns = cx.ns
        self.P, self.A, self.T = (ns["amanda.compiler.parse"], ns["amanda.compiler.ast"], ns["amanda.compiler.tokens"])
        self.TT = self.T.TokenType
        self.EOF = self.P.Lexer.EOF
        from standin import lexspec
        kinds = set(lexspec.KEYWORDS.values()) | set(lexspec.OPS.values()) | {
            "INTEGER", "REAL", "STRING", "FORMAT_STR", "NEWLINE", "IDENTIFIER"}
        self.universe = frozenset(self.TT[k] for k in kinds) | {self.EOF}
        self.log = []
        self.parser = None
        self.ended = False
        self.loops = []
        w = self

        class AbsLexer:
            def __init__(self, *a):
                self.line = 1

            def get_token(self):
                return w.next_token()
        AbsLexer.EOF = self.EOF
        self.AbsLexer = AbsLexer

    def kind(self, n):
        return self.EOF if n == "EOF" else self.TT[n]

    def token(self, cands=None, label="tok"):
        cx = self.cx
        return self.T.Token(SymKind(cx, cands or self.universe), cx.strname("lexeme"), line=cx.int("line", 1),
                            col=cx.int("col", 1))

    def next_token(self):
        la = getattr(self.parser, "lookahead", None) if self.parser is not None else None
        if la is not None:
            self.log.append(la)
        if la is not None and isinstance(la.token, SymKind) and la.token.cands == {self.EOF}:
            return self.token({self.EOF})
        return self.token()

    def node(self, cls, ph):
        n = object.__new__(phrase(getattr(self.A, cls)))
        t = self.token()
        if cls == "Variable":
            t = self.token({self.kind("IDENTIFIER")})
        if cls == "Constant":
            t = self.token({self.kind(k) for k in ("INTEGER", "REAL", "STRING", "NULO", "VERDADEIRO", "FALSO")})
        n.token, n.parent, n.lineno = t, None, t.line
        n.pvc_phrase = ph
        if cls in ("Type", "TypePath", "ArrayType"):
            n.name, n.maybe_ty, n.generic_args = t, False, None
        if cls == "Path":
            n.components = [n]
        return n

    def result(self, nt, ph):
        """A value meeting the postcondition of a callee."""
        A, cx = self.A, self.cx
        rest = lambda: [self.rest(ph)]
        if nt == "block":
            b = A.Block()
            b.children = rest()
            b.pvc_phrase = ph
            return b
        if nt in ("function_header", "native_func_decl", "function_decl"):
            return self.node("FunctionDecl", ph)
        if nt == "module":
            return self.node("Module", ph)
        if nt in LISTS:
            if nt == "generic_args" and cx.flag("no arguments"):
                ph.node = None
                return None
            l = rest()
            ph.node = l
            return l
        if nt in ("declaration", "statement", "decl_stmt") and cx.flag("several declarations"):
            ph.many = True
            return rest()
        if nt == "get_decl_assign" and cx.flag("no initialiser"):
            return None
        fixed = {"simple_decl": "VarDecl", "get_decl_assign": "Assign", "type": "Type", "type_path": "TypePath",
                 "named_arg": "NamedArg", "pattern": "ADTPattern", "iguala_arm": "IgualaArm",
                 "annotation_body": "Annotation", "usa_stmt": "Usa", "method_decl": "MethodDecl",
                 "uniao_decl": "Uniao", "registo_decl": "Registo", "uniao_variant": "UniaoVariant",
                 "senaose_branch": "SenaoSe", "for_expression": "ParaExpr", "range_expression": "RangeExpr",
                 "capture_or_adt_pattern": "ADTPattern", "iguala_stmt": "Iguala", "parse_format_str": "FmtStr",
                 "mostra_statement": "Mostra", "retorna_statement": "Retorna", "produz_statement": "Produz",
                 "loop_ctl_statement": "LoopCtlStmt", "enquanto_stmt": "Enquanto", "se_statement": "Se",
                 "se_iguala_stmt": "Iguala", "para_stmt": "Para", "escolha_stmt": "Escolha"}
        if nt in fixed:
            return self.node(fixed[nt], ph)
        # expressions: any class, where the caller may look
        cls = cx.choose(f"class of {nt}", ["Variable", "Get", "IndexGet", "Path", "Constant", "BinOp", "Call",
                                           "Assign", "Set", "IndexSet", "UnaryOp", "Converta", "ListLiteral"])
        return self.node(cls, ph)

    def rest(self, ph):
        n = object.__new__(self.A.ASTNode)
        t = self.token()
        n.token, n.parent, n.lineno, n.lexeme, n.line, n.col = t, None, t.line, t.lexeme, t.line, t.col
        n.pvc_rest = ph
        return n

    def stub(self, nt):
        w, cx = self, self.cx

        def callee(parser, *args, **kw):
            args = args + tuple(kw.values())
            first = parser.lookahead
            if nt in PRE:
                cx.prove(f"{w.nt}: {nt} is called where it may be", first.token.cands <= {w.kind(k) for k in PRE[nt]})
            if cx.choose(nt, ["parses", "refuses"]) == "refuses":
                w.log.append(Ph(nt, args, None, True))
                w.log[-1].first = first
                raise w.cx.modelled(w.refusal())
            ph = Ph(nt, args, None)
            ph.many, ph.first = False, first
            w.log.append(ph)
            r = w.result(nt, ph)
            ph.node = r
            parser.lookahead = w.token()
            return r
        return callee

    def refusal(self):
        E = self.cx.ns["amanda.compiler.error"].AmandaError
        e = E.syntax_error("prog.ama", "callee refuses", self.cx.int("line", 1), 1)
        e.pvc_callee = True
        return e

    def skip_stub(self):
        w = self

        def skip_newlines(parser):
            la = parser.lookahead
            nlk = w.kind("NEWLINE")
            if nlk not in la.token.cands:
                return
            w.log.append(NLs())
            k = SymKind(w.cx, w.universe - {nlk})
            t = w.T.Token(k, w.cx.strname("lexeme"), line=w.cx.int("line", 1), col=w.cx.int("col", 1))
            w.log[-1].first = la
            parser.lookahead = t
        return skip_newlines

    # ------------------------------------------------------------------ loops
    def policy(self, key, names, vals, loc):
        if loc.get("self") is not self.parser:
            return None
        return ParserLoop(self, key, names, loc)

    def enter(self, rep, acc):
        """Earlier iterations: which local holds the grammar's accumulator."""
        L = rep.loop
        match = {n for n, v in rep.state.items() if compare(v, acc) is None and (
            isinstance(v, list) == isinstance(acc, list))}
        if self.cx.inferring:
            L.inv["match"] = match if L.inv["match"] is None else L.inv["match"] & match
        elif not L.inv["match"]:
            raise Unsupported("no local of the loop holds what it has read")
        else:
            self.cx.prove("loop invariant at entry: " + self.nt, L.inv["match"] <= match)
        return acc + [RestOf(rep)] if isinstance(acc, list) else rep

    def close(self, back, acc):
        L = back.rep.loop
        for n in sorted(L.inv["match"] or ()):
            d = compare(back.vals.get(n), acc)
            if self.cx.inferring:
                if d:
                    L.inv["match"].discard(n)
            else:
                self.cx.prove("loop invariant after an iteration: " + self.nt, d is None, lambda: {"difference": d})
        for n, v in back.vals.items():
            if isinstance(v, list) and n not in (L.inv["match"] or ()) and n in L.h0 and not self.cx.inferring:
                if len(v) != len(L.h0[n]) or any(a is not b for a, b in zip(v, L.h0[n])):
                    raise Unsupported(f"the loop also changes the list {n}")

    def run(self, nt, args, out):
        """The grammar over what one path consumed, and its verdict."""
        cx = self.cx
        la = self.parser.lookahead if out is not None else None
        c = Cursor(self, la, out)
        info = lambda: {"consumed": repr(self.log)[:600], "next": repr(la), "result": repr(out and out.value)[:200],
                        "grammar": how, "trace": out and out.tb}
        how = None
        try:
            tree = GRAMMAR[nt](c, *args)
            how = "derives " + repr(tree)[:300]
            kind = "ok"
        except BackReached:
            kind = "back"
        except WantMore as e:
            kind, how = "more", f"goes on with {e}"
        except GFail:
            kind, how = "fail", "refuses the next token"
        except Refused:
            kind = "refused"
        except Off as e:
            kind, how = "off", f"{e.why} at {e.at}"
        p = lambda clause, b: cx.prove(f"{nt}: {clause}", b, info)
        if out is None:
            p("an iteration reads what the grammar repeats", kind == "back")
            return
        if out.crashed:
            p("no text makes the parser crash", False)
            return
        if out.rejected and getattr(out.value, "pvc_callee", False):
            cx.cover("callee refuses")
            p("a construct whose part is refused is refused", kind == "refused")
            return
        if out.rejected:
            cx.cover("refuses")
            if p("a text is refused only where the grammar refuses it", kind == "fail"):
                p("a syntax error is on the line of the offending text", out.value.line == la.line)
            return
        cx.cover("accepts")
        if not p("the text accepted is what the grammar derives", kind == "ok"):
            return
        if not p("nothing is read that the grammar does not ask for", c.i == len(self.log)):
            return
        d = compare(out.value, tree)
        how2 = d
        cx.prove(f"{nt}: the tree is the one the grammar prescribes", d is None, lambda: {**info(), "difference": how2})


class ParserLoop(LoopSpec):
    def __init__(self, w, key, names, loc):
        self.w, self.key, self.names = w, key, names
        self.loc = dict(loc)
        self.inv = w.cx.persist.setdefault(("acc", key, w.nt), {"match": None})

    def lists(self):
        """Every list the loop could append to: locals, and children of local nodes."""
        out = {}
        for n, v in self.loc.items():
            if isinstance(v, list):
                out[n] = v
            elif isinstance(v, self.w.A.ASTNode) and not hasattr(v, "pvc_phrase") and n != "self":
                for a, x in vars(v).items():
                    if isinstance(x, list):
                        out[f"{n}.{a}"] = x
            elif isinstance(v, dict):
                self.dicts = True
        return out

    def entry(self, vals):
        w = self.w
        if any(isinstance(v, dict) for v in self.loc.values()):
            raise Unsupported("a loop that fills a dictionary")
        self.rep = Rep(w.parser.lookahead)
        self.rep.loop = self
        self.l0 = {n: list(l) for n, l in self.lists().items()}
        self.rep.state = {**{n: v for n, v in vals.items() if v is not UNBOUND and not isinstance(v, list)},
                          **self.l0}
        w.log.append(self.rep)
        w.loops.append(self.rep)

    def head(self, vals):
        w = self.w
        w.parser.lookahead = w.token()
        out = {}
        self.h0 = {}
        m = self.inv["match"]
        live = lambda n: m is None or n in m
        for n, l in self.lists().items():
            if live(n):
                l[:] = self.l0[n] + [w.rest(self.rep)]
            self.h0[n] = list(l)
        for n in self.names:
            v = self.loc.get(n, UNBOUND)
            if isinstance(v, list):
                out[n] = v
            elif v is UNBOUND or not live(n):
                out[n] = UNBOUND
            elif isinstance(v, w.A.ASTNode):
                x = w.node("Expr", self.rep)
                out[n] = x
            else:
                out[n] = UNBOUND
        return out

    def back(self, vals):
        w = self.w
        now = {n: v for n, v in vals.items() if not isinstance(v, list)}
        for n, l in self.lists().items():
            cur = vals.get(n, l) if isinstance(vals.get(n, l), list) else l
            now[n] = list(cur)
        n0 = w.log.index(self.rep)
        w.cx.prove(f"{w.nt}: every iteration reads something", any(
            not isinstance(x, Rep) and not (isinstance(x, NLs) and x.first.token.cands != {w.kind("NEWLINE")}) and not (isinstance(x, Ph) and x.nt in EMPTY_OK) for x in w.log[n0 + 1:]))
        w.log.append(Back(self.rep, now, w.parser.lookahead))
        w.run(w.nt, w.args, None)


class Cursor:
    """Runs the grammar over the items one path consumed."""

    def __init__(self, w, lookahead, returned):
        self.w, self.items, self.la, self.returned = w, list(w.log), lookahead, returned
        self.i = 0

    def peek(self):
        return self.items[self.i] if self.i < len(self.items) else self.la

    def kindof(self, it):
        if isinstance(it, (Rep, NLs, Ph)):
            return it.first.token
        if isinstance(it, Back):
            return it.la.token
        return it.token

    def at(self, *kinds):
        it = self.peek()
        if it is None:
            raise Unsupported("the grammar looks at an unknown token")
        ks = [self.w.kind(k) for k in kinds]
        if isinstance(it, NLs):
            # one or more line breaks, or none and the following token
            if self.w.kind("NEWLINE") in ks:
                if it.first.token.within([self.w.kind("NEWLINE")]):
                    return True
        return self.kindof(it).within(ks)

    def off(self, why):
        raise Off(why, self.peek())

    def fail(self):
        if self.i < len(self.items):
            self.off("refuses")
        raise GFail()

    reject = fail

    def tok(self, *kinds):
        it = self.peek()
        ks = [self.w.kind(k) for k in kinds]
        if self.i >= len(self.items):
            if it.token.within(ks):
                raise WantMore(kinds)
            raise GFail()
        if isinstance(it, (Ph, Rep, NLs)):
            self.off(f"expects {kinds}")
        if isinstance(it, Back):
            raise Unsupported("an iteration of the loop ends inside a step of the grammar")
        if not it.token.within(ks):
            self.off(f"expects {kinds}")
        self.i += 1
        return it

    def eof(self):
        it = self.peek()
        if self.i < len(self.items) and isinstance(it, self.w.T.Token):
            self.i += 1

    def nls(self):
        while True:
            it = self.peek()
            if self.i < len(self.items) and isinstance(it, NLs):
                self.i += 1
                continue
            if self.i < len(self.items) and isinstance(it, self.w.T.Token) and it.token.within([self.w.kind("NEWLINE")]):
                self.i += 1
                continue
            if isinstance(it, Rep) and it.first.token.within([self.w.kind("NEWLINE")]):
                raise Unsupported("a loop over line breaks")
            break
        it = self.peek()
        if self.i >= len(self.items) and it is not None and it.token.within([self.w.kind("NEWLINE")]):
            raise WantMore(("NEWLINE",))

    def nt(self, nm, *args):
        it = self.peek()
        if isinstance(it, Ph) and it.nt == nm:
            if len(it.args) != len(args) or any(not same(a, b) for a, b in zip(it.args, args)):
                self.off(f"{nm} gets other arguments: {it.args} {args}")
            self.i += 1
            if it.refused:
                raise Refused()
            return it
        if nm == "parse_format_str":
            self.tok("FORMAT_STR")
            raise Unsupported("a format string read in place")
        if self.depth > 40:
            raise Unsupported("grammar expansion")
        self.depth += 1
        try:
            return GRAMMAR[nm](self, *args)
        finally:
            self.depth -= 1

    depth = 0

    def many(self, cond, step, acc):
        rep = None
        it = self.peek()
        if self.i < len(self.items) and isinstance(it, Rep):
            rep = it
            self.i += 1
            acc = self.w.enter(rep, acc)
        while True:
            it = self.peek()
            if isinstance(it, Back) and it.rep is rep:
                self.w.close(it, acc)
                raise BackReached()
            if not cond(self):
                return acc
            i0 = self.i
            acc = step(self, acc)
            if self.i == i0:
                raise Unsupported("the grammar does not advance")

    def is_a(self, e, cls):
        if isinstance(e, N):
            return e.cls == cls
        if isinstance(e, Ph):
            return cls_of(e.node).__name__ == cls
        raise Unsupported(f"class of {e!r}")

    def node_token(self, e):
        return e.parts["token"] if isinstance(e, N) else e.node.token

    def kind(self, t, k):
        return t.token.within([self.w.kind(k)])

    def line(self, t):
        return t.line

    def spread(self, d):
        if isinstance(d, Ph):
            return [RestOf(d)] if getattr(d, "many", False) or d.nt == "multi_decl" else [d]
        return d if isinstance(d, list) else [d]

    def children(self, b):
        if isinstance(b, Ph):
            return [RestOf(b)]
        return b.parts["children"]

    def update(self, n, **parts):
        if isinstance(n, Ph):
            return Upd(n, parts)
        return N(n.cls, **{**n.parts, **parts})


class Refused(Exception):
    pass


class RestOf:
    def __init__(self, of):
        self.of = of

    def __repr__(self):
        return f"<the rest of {self.of}>"


class Upd:
    def __init__(self, ph, parts):
        self.ph, self.parts = ph, parts


def same(a, b):
    if a is b:
        return True
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return compare(a, b) is None


def compare(actual, exp, path="tree"):
    """None, or where the built tree differs from the grammar's."""
    if isinstance(exp, Ph):
        if getattr(actual, "pvc_phrase", None) is exp or (isinstance(actual, list) and len(actual) == 1 and getattr(
                actual[0], "pvc_rest", None) is exp):
            return None
        if exp.node is None and actual is None:
            return None
        return f"{path}: {actual!r:.60} instead of {exp!r}"
    if isinstance(exp, Rep):
        return None if getattr(actual, "pvc_phrase", None) is exp else f"{path}: not what the loop built"
    if isinstance(exp, RestOf):
        return None if getattr(actual, "pvc_rest", None) is exp.of else f"{path}: {actual!r:.60} instead of {exp!r}"
    if isinstance(exp, Upd):
        r = compare(actual, exp.ph, path)
        for k, v in exp.parts.items():
            r = r or compare(getattr(actual, k, None), v, f"{path}.{k}")
        return r
    if isinstance(exp, N):
        if type(actual).__name__ != exp.cls or hasattr(actual, "pvc_phrase"):
            return f"{path}: {cls_of(actual).__name__} instead of {exp.cls}"
        for k, v in exp.parts.items():
            if not hasattr(actual, k):
                return f"{path}.{k}: missing"
            r = compare(getattr(actual, k), v, f"{path}.{k}")
            if r:
                return r
        return None
    if isinstance(exp, Tk):
        if getattr(getattr(actual, "token", None), "name", None) != exp.kind or actual.lexeme != exp.lexeme:
            return f"{path}: another token than {exp.kind}"
        if exp.line is not None and not (actual.line == exp.line):
            return f"{path}: token of another line"
        return None
    if isinstance(exp, Lexeme):
        return None if actual is exp.tok.lexeme else f"{path}: {actual!r} instead of {exp.tok.lexeme!r}"
    if isinstance(exp, (list, tuple)):
        if not isinstance(actual, (list, tuple)) or len(actual) != len(exp):
            return f"{path}: {actual!r:.80} instead of {exp!r:.80}"
        for i, (a, b) in enumerate(zip(actual, exp)):
            r = compare(a, b, f"{path}[{i}]")
            if r:
                return r
        return None
    if isinstance(exp, str) and hasattr(actual, "name"):
        return None if actual.name == exp else f"{path}: {actual.name} instead of {exp}"
    if actual is exp:
        return None
    if type(exp).__name__ == "Token":
        if isinstance(getattr(actual, "token", None), SymKind) and actual.token is exp.token and actual.lexeme is exp.lexeme:
            return None
        return f"{path}: another token"
    if isinstance(exp, (bool, int, str)) and type(actual) is type(exp) and actual == exp:
        return None
    return f"{path}: {actual!r:.80} instead of {exp!r:.80}"
