"""Abstract inputs of the checker: an analyzer in an arbitrary context, nodes whose
children are stubs that stand for any subtree meeting its contract, and types known
only through their relations."""
from pvc.engine import Unsupported, PathEnd, SymInt, mkb
from pvc.hooks import AnyNode
from pvc.seq import SymSeq

PRIMS = ["TINT", "TREAL", "TBOOL", "TTEXTO", "TINDEF", "TVAZIO", "TNULO"]
KINDS = ["prim", "vec", "reg", "uniao", "opt", "gen", "tvar", "module"]


def no_value(a):
    """What only occurs where it is asked for: the contracts give it its own case there."""
    return {c: False for c in (a.NamedArg, a.Assign, a.YieldBlock) if c is not None}


def stub_tok(W, label, line):
    """The token of a stub: only its place is known."""
    t = Some.of(W.tok_mod.Token)
    t = t.__new__(t)
    t.__dict__.update(label=label, line=line, col=1, whitespace=0)
    return t


class Some:
    classes = {}

    @classmethod
    def of(cls, Token):
        if Token not in cls.classes:
            def kind(self):
                raise Unsupported(f"the kind of the token of {self.label}")

            def lexeme(self):
                return self.__dict__["label"]
            cls.classes[Token] = type("SomeToken", (Token,), dict(token=property(kind), lexeme=property(lexeme)))
        return cls.classes[Token]


class World:
    stub_tok = stub_tok

    def __init__(self, cx, prop):
        self.cx, self.prop = cx, prop
        ns = cx.ns
        self.ns = ns
        self.ast = ns["amanda.compiler.ast"]
        self.core = ns["amanda.compiler.check.core"]
        self.sym = ns["amanda.compiler.symbols.core"]
        self.base = ns["amanda.compiler.symbols.base"]
        self.ty = ns["amanda.compiler.types.core"]
        self.bi = ns["amanda.compiler.types.builtins"]
        self.B = self.bi.Builtins
        self.tok_mod = ns["amanda.compiler.tokens"]
        self.TT = self.tok_mod.TokenType
        self.err = ns["amanda.compiler.error"]
        self.module = ns["amanda.compiler.module"].Module("/m/este.ama")
        self.other_module = ns["amanda.compiler.module"].Module("/m/outro.ama")
        self.log = []
        self.rejected_by = None
        self.types_init()
        self.analyzer_init()
        self.nlines = 0

    def valid_int(self, a, b):
        """Are the two integers always equal here?"""
        if not hasattr(a, "t") and not hasattr(b, "t"):
            return type(a) is type(b) and a == b
        import z3
        t = [x.t if hasattr(x, "t") else z3.IntVal(x) for x in (a, b) if hasattr(x, "t") or type(x) is int]
        return len(t) == 2 and mkb(self.cx, t[0] == t[1])

    # -- obligations
    def prove(self, prop, clause, cond, info=None):
        if self.prop in prop.split() or prop == "*":
            self.cx.prove(clause, cond, info)
            return
        return None

    # ---------------------------------------------------------------- analyzer
    def analyzer_init(self):
        cx, A = self.cx, self.core.Analyzer
        proto = getattr(self.ns, "_pvc_analyzer", None)
        if proto is None:
            hooks, self.cx.hooks.cx = self.cx.hooks.cx, None
            try:
                proto = A("este.ama", [], self.module)
            finally:
                self.cx.hooks.cx = hooks
            self.ns._pvc_analyzer = proto
        an = A.__new__(A)
        an.__dict__.update(proto.__dict__)
        self.Scope = self.sym.Scope
        g = self.Scope()
        for n, t in self.bi.builtin_types:
            g.define(n, t)
        g.define("Opcao", self.bi.SrcBuiltins.Opcao)
        self.set(an, global_scope=g, ctx_scope=g, scope_depth=0, in_loop=False, ctx_func=None,
                 ctx_yield_block=None, ctx_reg=None, ctx_node=None, imports={}, ctx_module=self.module,
                 ty_ctx=self.Scope())
        self.an, self.g = an, g
        W = self

        real_visit = A.visit
        def visit(self, node, *args, **kw):
            if getattr(node, "is_stub", False):
                return W.visit_stub(node, args, kw)
            return real_visit(self, node, *args, **kw)
        cx.patch(A, "visit", visit)

        real_get_type = A.get_type
        def get_type(self, node):
            if getattr(node, "is_type_stub", False):
                return W.type_stub(node)
            return real_get_type(self, node)
        cx.patch(A, "get_type", get_type)

        real_has = A.has_return
        def has_return(self, node):
            if getattr(node, "is_stub", False):
                W.log.append(("has_return", node))
                return node.returns_always()
            return real_has(self, node)
        cx.patch(A, "has_return", has_return)

    @staticmethod
    def set(an, **kw):
        for k, v in kw.items():
            if k not in an.__dict__:
                raise Unsupported(f"the analyzer has no field {k}")
            an.__dict__[k] = v

    FRAME = ("ctx_scope", "scope_depth", "in_loop", "ctx_func", "ctx_yield_block", "ctx_reg",
             "ctx_module", "ty_ctx")

    def frame(self):
        d = self.an.__dict__
        return tuple((k, id(d[k]) if not isinstance(d[k], (int, bool)) else d[k]) for k in sorted(d)
                     if k not in ("ctx_node",))

    def context(self):
        return {k: self.an.__dict__.get(k) for k in self.FRAME}

    # ---------------------------------------------------------------- nodes
    def line(self):
        self.nlines += 10
        return 100 + self.nlines

    def tok(self, tt, lexeme="tok", line=50):
        if isinstance(tt, str):
            tt = getattr(self.TT, tt)
        return self.tok_mod.Token(tt, lexeme, line, 1)

    def stub(self, label, base, line=None, last=None, **kw):
        """A child of kind `base`, visited by contract only."""
        W = self
        if base is None:
            base = self.ast.ASTNode

        cls = self._stub_class(base)
        n = cls.__new__(cls)
        line = line or self.line()
        n.__dict__.update(label=label, is_stub=True, token=self.stub_tok(label, line), parent=None,
                          lineno=line, first_line=line, last_line=last or line + 3, visits=0, seen=[],
                          ctx=None, W=W, seq=None, partner=None, kinds=no_value(self.ast))
        n.__dict__.update(kw)
        return n

    def _stub_class(self, base):
        cache = self.ns.__dict__.setdefault("_pvc_stubs", {})
        if base in cache:
            return cache[base]
        W = self

        class Stub(AnyNode, base):
            is_stub = True
            stub_of = base

            def __init__(self):
                pass

            def for_each_child(self, f):
                for c in self.__dict__.get("parts", ()):
                    f(c, "part")

            def tag_children(self):
                pass

            def returns_always(self):
                r = self.__dict__.get("ret")
                if r is None:
                    r = self.ret = self.W.cx.flag(f"{self.label} always returns")
                return r

            def __eq__(self, o):
                return self is o

            def __hash__(self):
                return id(self)

            def __repr__(self):
                return f"<{self.label}>"

        # dispatch by class name must go to the stub rule only
        Stub.__name__ = base.__name__
        cache[base] = Stub
        return Stub

    def expr(self, label, kinds=None, base=None, line=None, **kw):
        n = self.stub(label, base or self.ast.Expr, line, **kw)
        n.ty = kw.get("ty") or self.T(label, kinds)
        n.eval_type = self.B.Unknown
        n.prom_type = self.B.Unknown
        return n

    def block(self, label, **kw):
        return self.stub(label, self.ast.Block, symbols=None, **kw)

    def tnode(self, label, kinds=None, ty=None):
        """A written type, resolved by contract."""
        n = self.stub(label, self.ast.Type, maybe_ty=False, generic_args=None)
        n.is_stub = False
        n.__dict__["is_type_stub"] = True
        n.name = n.token
        n.ty = ty or self.T(label, kinds)
        return n

    def type_stub(self, n):
        self.log.append(("type", n))
        n.visits += 1
        self.maybe_reject(n)
        f = n.__dict__.get("on_type")
        if f:
            f(n)
        return n.ty

    def maybe_reject(self, n):
        if getattr(n, "may_fail", True) and n.visits == 1 and self.cx.choose(f"{n.label} is", ["fine", "refused"]) == "refused":
            e = self.err.AmandaError.common_error(self.module.fpath, "child", n.last_line)
            self.rejected_by = e
            e.pvc_modelled = True
            raise e

    def visit_stub(self, n, args, kw):
        n.visits += 1
        c = self.context()
        c["arg"] = args[0] if args else kw.get("args", kw.get("scope"))
        n.seen.append(c)
        self.log.append(("visit", n))
        self.maybe_reject(n)
        if issubclass(type(n), self.ast.Expr):
            n.eval_type = n.ty
        hook = n.__dict__.get("on_visit")
        r = hook(n) if hook else None
        self.an.ctx_node = self.at_line(n.last_line)
        return r

    def at_line(self, line):
        x = self.ast.ASTNode.__new__(self.ast.ASTNode)
        x.token = self.tok("IDENTIFIER", "inner", line)
        x.parent, x.lineno = None, line
        return x

    def seq(self, label, make, facts=None, effects=None, **kw):
        """An arbitrary sequence of children.  make() -> element."""
        W = self

        def mk():
            e = make()
            e.seq = s
            return e

        def head():
            # the last node looked at belongs to an earlier element or to the construct
            l = W.cx.int("line", lo=W.lo_line)
            W.cx.assume(l <= 999)
            W.an.ctx_node = W.at_line(l)
        f = {"visited once": lambda e: e.visits == 1, "checked": lambda e: e.visits >= 1}
        ef = {"visited once": W.mark, "checked": W.mark}
        f.update(facts or {})
        ef.update(effects or {})
        s = SymSeq(self.cx, label, mk, f, ef, frame=self.frame, head=head, **kw)
        return s

    def mark(self, e):
        if not e.visits:
            e.visits = 1
            e.may_fail = False
            if issubclass(type(e), self.ast.Expr):
                e.eval_type = e.ty

    def done(self, seq, fact):
        """Whether the fact holds of every element now."""
        if isinstance(seq, SymSeq):
            return fact in seq.est or (not self.cx.inferring and self.cx.check(seq.n.t != 0).r == -1)
        return all(self.FACTS[fact](e) for e in seq)

    # ---------------------------------------------------------------- running
    def run(self, node, tag=True):
        self.before = self.context()
        self.node = node
        if tag:
            node.tag_children()
        out = self.cx.call(self.an.visit, node)
        return self.settle(out, node)

    def settle(self, out, node=None):
        self.out = out
        if out.crashed:
            self.prove("*", "no crash", False, lambda: out.tb)
            raise PathEnd()
        if self.rejected_by is not None:
            self.prove("*", "an error of a child is passed on", out.rejected and out.value is self.rejected_by)
            raise PathEnd()
        if out.rejected:
            e = out.value
            self.prove("C13", "errors name the file being compiled", e.fpath == self.module.fpath)
            lo, hi = self.lines()
            self.prove("C13", "errors name a line of the construct",
                       mkb(self.cx, _and(lo <= e.line, e.line <= hi)))
        return out

    lo_line = 50

    def lines(self):
        return self.lo_line, 999

    def verdict(self, prop, clause, ok, info=None):
        """The construct is accepted exactly when ok."""
        got = self.out.ok
        self.cx.cover("accepted" if got else "refused")
        self.prove(prop, clause + (": accepted" if ok else ": refused"), got == bool(ok),
                   info or (lambda: {"outcome": repr(self.out.value)[:300]}))
        if not got:
            raise PathEnd()

    def restored(self):
        """An accepted construct leaves the context as it found it."""
        a = self.context()
        for k in self.FRAME:
            x, y = self.before[k], a[k]
            for p in ("C05", "C06"):
                self.prove(p, f"{k} is restored", x is y or (isinstance(x, (int, bool)) and x == y))

    # ---------------------------------------------------------------- types
    def types_init(self):
        self.uf, self.ne, self.memo, self.objs, self.lts = {}, set(), {}, {}, {}
        cx, t, b, W = self.cx, self.ty, self.base, self
        classes = [t.Primitive, t.Vector, t.Registo, t.Uniao, t.ConstructedTy, t.ModuleTy, b.TypeVar]
        self.LT = self._lt_class()
        for c in classes:
            real = c.__eq__
            def eq(self, other, real=real):
                if isinstance(other, W.LT) or isinstance(self, W.LT):
                    return W.eq(self, other)
                return real(self, other)
            cx.patch(c, "__eq__", eq)
        Type = b.Type
        real_p, real_c = Type.promote_to, Type.check_cast

        def promote_to(self, other):
            if isinstance(other, W.LT) or isinstance(self, W.LT):
                return other if W.prom(self, other) else None
            return real_p(self, other)

        def check_cast(self, other):
            if isinstance(other, W.LT) or isinstance(self, W.LT):
                return W.rel("cast", self, other)
            return real_c(self, other)
        cx.patch(Type, "promote_to", promote_to)
        cx.patch(Type, "check_cast", check_cast)

    def T(self, label, kinds=None):
        x = self.LT()
        object.__setattr__(x, "label", label)
        object.__setattr__(x, "W", self)
        object.__setattr__(x, "kinds", kinds)
        self.lts[label] = x
        return x

    def _lt_class(self):
        if hasattr(self.ns, "_pvc_lt"):
            return self.ns._pvc_lt
        Type = self.base.Type
        t = self.ty
        # everything the subclasses define is answered by the refined type
        names = set()
        for c in (Type, t.Primitive, t.Vector, t.Registo, t.Uniao, t.ConstructedTy, t.ModuleTy, self.base.TypeVar):
            names |= {n for n in vars(c) if callable(vars(c)[n]) and not n.startswith("__")}
        for n in vars(self.base.Symbol):
            if callable(vars(self.base.Symbol)[n]) and not n.startswith("__"):
                names.add(n)
        names -= {"promote_to", "check_cast", "binop", "unaryop"}

        class LT(Type):
            is_lt = True

            def __init__(self):
                pass

            def real(self):
                return self.W.refine(self)

            def __eq__(self, o):
                return self.W.eq(self, o)

            __hash__ = None

            @property
            def __class__(self):
                r = self.real()
                return type(r)

            def __getattr__(self, a):
                if a.startswith("__") or a in ("sym_is", "sym_text", "is_sym_seq", "is_stub", "is_type_stub",
                                               "is_sym", "sym_str", "sym_len", "label", "W", "kinds"):
                    raise AttributeError(a)
                return getattr(self.real(), a)

            def __str__(self):
                return "<" + self.label + ">"

            __repr__ = __str__

            def __format__(self, s):
                return str(self)

            def __bool__(self):
                return True

            def binop(self, op, rhs):
                return self.W.op("binop", self, op, rhs)

            def unaryop(self, op):
                return self.W.op("unaryop", self, op, None)

        def fwd(n):
            def f(self, *a, **k):
                return getattr(self.real(), n)(*a, **k)
            return f
        for n in names:
            setattr(LT, n, fwd(n))
        LT.__abstractmethods__ = frozenset()
        self.ns._pvc_lt = LT
        return LT

    def islt(self, x):
        return type(x) is self.LT

    def d(self, x):
        """The descriptor of a type."""
        if type(x) is self.LT:
            return self.find(("leaf", x.label))
        t = self.ty
        if type(x) is t.Primitive:
            return ("prim", x.tag.name)
        if type(x) is t.Vector:
            return ("vec", self.d(x.element_type))
        if type(x) is t.Registo:
            return ("reg", x.name)
        if type(x) is t.Uniao:
            return ("uniao", x.name)
        if type(x) is t.ConstructedTy:
            return ("gen", x.generic_ty.name) + tuple(self.d(a) for a in x.bound_ty_args.values())
        if type(x) is t.ModuleTy:
            return ("module", x.module.fpath)
        if type(x) is self.base.TypeVar:
            return ("tvar", x.name)
        raise Unsupported(f"descriptor of {type(x).__name__}")

    def find(self, d):
        while d in self.uf:
            d = self.uf[d]
        return d

    def eqd(self, a, b):
        a, b = self.find(a), self.find(b)
        if a == b:
            return True
        if a[0] != "leaf" and b[0] != "leaf":
            if a[0] != b[0] or len(a) != len(b):
                return False
            if a[0] in ("prim", "reg", "uniao", "tvar", "module"):
                return a[1] == b[1]
            return all(self.eqd(x, y) if isinstance(x, tuple) else x == y for x, y in zip(a[1:], b[1:]))
        k = frozenset((a, b))
        if k in self.ne:
            return False
        l, o = (a, b) if a[0] == "leaf" else (b, a)
        kinds = self.lts[l[1]].kinds if l[1] in self.lts else None
        if kinds is not None and o[0] != "leaf" and o[0] not in kinds and not ("opt" in kinds and o[0] == "gen"):
            self.ne.add(k)
            return False
        if self.cx.flag(f"{_s(a)} == {_s(b)}"):
            self.uf[l] = o
            if o[0] == "leaf" and l[1] in self.lts and o[1] in self.lts:
                # the kinds both may have
                p, q = self.lts[l[1]], self.lts[o[1]]
                if p.kinds is not None:
                    both = [x for x in p.kinds if q.kinds is None or x in q.kinds]
                    if not both:
                        raise PathEnd()
                    object.__setattr__(q, "kinds", both)
            return True
        self.ne.add(k)
        return False

    def eq(self, a, b):
        if not isinstance(b, self.base.Type) if type(b) is not self.LT else False:
            return False
        if not (type(a) is self.LT) and not isinstance(a, self.base.Type):
            return False
        raw = ("eq", frozenset((self.raw(a), self.raw(b))))
        if raw not in self.memo:
            self.memo[raw] = self.eqd(self.d(a), self.d(b))
        return self.memo[raw]

    def raw(self, x):
        return ("leaf", x.label) if type(x) is self.LT else self.d(x)

    def rel(self, name, a, b):
        raw = (name, self.raw(a), self.raw(b))
        if raw in self.memo:
            return self.memo[raw]
        r = self.memo[raw] = self.rel2(name, a, b)
        return r

    def rel2(self, name, a, b):
        k = (name, self.d(a), self.d(b))
        if k not in self.memo:
            if not any(self.has_leaf(x) for x in k[1:]):
                real = {"prom": lambda: self.deref(a).promotion_to(self.deref(b)) or self.deref(b).promotion_from(self.deref(a)),
                        "cast": lambda: self.deref(a).cast_to(self.deref(b)) or self.deref(b).cast_from(self.deref(a))}[name]()
                self.memo[k] = real is not None and real is not False
            else:
                self.memo[k] = self.cx.flag(f"{name}({_s(k[1])}, {_s(k[2])})")
        return self.memo[k]

    def has_leaf(self, d):
        d = self.find(d)
        return d[0] == "leaf" or any(self.has_leaf(x) for x in d[1:] if isinstance(x, tuple))

    def prom(self, a, b):
        return self.rel("prom", a, b)

    def fits(self, received, expected):
        """C04: the type is the required one or converts implicitly to it."""
        return self.eq(expected, received) or self.prom(received, expected)

    def conv_ok(self, node, expected):
        """The conversion the program relies on is recorded on the expression."""
        rec = node.ty
        if not self.prom(rec, expected):
            return not node.prom_type
        p = node.prom_type
        if self.eq(rec, expected):
            return not p or (p is not self.B.Unknown and self.eq(p, expected))
        return bool(p) and p is not self.B.Unknown and self.eq(p, expected)

    def op(self, name, a, op, b):
        k = (name, self.raw(a), op, self.raw(b) if b is not None else None)
        if k not in self.memo:
            lab = f"{a.label}.{name}({op.name})"
            self.memo[k] = self.T(lab) if self.cx.flag(f"{lab} is defined") else None
        return self.memo[k]

    def deref(self, x):
        return self.refine(x) if type(x) is self.LT else x

    def refine(self, x):
        d = self.d(x)
        if d[0] == "leaf":
            x = self.lts[d[1]]
            k = self.cx.choose(f"kind of {x.label}", x.kinds or KINDS)
            if k == "prim":
                new = ("prim", self.cx.choose("tag", [p for p in PRIMS if frozenset((d, ("prim", p))) not in self.ne]))
            elif k == "vec":
                self.T(x.label + ".el")
                new = ("vec", ("leaf", x.label + ".el"))
            elif k == "opt":
                self.T(x.label + ".inner")
                new = ("gen", "Opcao", ("leaf", x.label + ".inner"))
            elif k == "gen":
                self.T(x.label + ".arg")
                new = self.named(d, "gen", x, ("leaf", x.label + ".arg"))
            else:
                new = self.named(d, k, x)
            self.uf[d] = new
            d = new
        return self.obj(d)

    def named(self, d, k, x, *more):
        """The same declared type as another one, or a further one."""
        old = sorted({e for e in list(self.objs) if e[0] == k and frozenset((d, e)) not in self.ne})
        if k == "gen":
            old = []
        if old:
            c = self.cx.choose("declared type", ["another"] + old)
            if c != "another":
                return c
        return (k, {"reg": "R", "uniao": "U", "tvar": "P", "gen": "G", "module": "/m/"}[k] + x.label) + more

    def obj(self, d):
        if d in self.objs:
            return self.objs[d]
        t, k = self.ty, d[0]
        if k == "prim":
            for v in vars(self.B).values():
                if type(v) is t.Primitive and v.tag.name == d[1]:
                    return v
            raise Unsupported(d[1])
        if k == "leaf":
            return self.lts[d[1]]
        if k == "vec":
            o = t.Vector(self.module, self.obj(self.find(d[1])) if d[1][0] != "leaf" else self.lts[d[1][1]])
        elif k == "reg":
            if d[1] == "Opcao":
                o = self.bi.SrcBuiltins.Opcao
            else:
                o = t.Registo(d[1], self.module, {})
        elif k == "uniao":
            o = t.Uniao(d[1], self.module, {})
        elif k == "tvar":
            o = self.base.TypeVar(d[1], self.module)
        elif k == "gen":
            if d[1] == "Opcao":
                o = self.bi.SrcBuiltins.Opcao.bind(T=self.leaf_or(d[2]))
            else:
                g = t.Registo(d[1], self.module, {}, [self.base.TypeVar("T", self.module)])
                o = g.bind(T=self.leaf_or(d[2]))
        elif k == "module":
            m = self.ns["amanda.compiler.module"].Module(d[1])
            m.ast = self.ast.Module([])
            m.ast.symbols = self.Scope()
            m.loaded = True
            o = t.ModuleTy(importing_mod=self.module, module=m)
        else:
            raise Unsupported(k)
        self.objs[d] = o
        return o

    def leaf_or(self, d):
        return self.lts[d[1]] if d[0] == "leaf" else self.obj(d)


def _s(d):
    return "/".join(_s(x) if isinstance(x, tuple) else str(x) for x in d)


def _and(a, b):
    import z3
    from pvc.engine import tb
    return z3.And(tb(a), tb(b))
