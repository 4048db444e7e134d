"""C03: operator result types, implicit and explicit conversions, type equality."""
import itertools
from pvc.engine import Unsupported, SymName, PathEnd

TY = "amanda.compiler.types.core"
PRIMS = ["TINT", "TREAL", "TBOOL", "TTEXTO", "TINDEF", "TVAZIO", "TNULO", "TUNKNOWN"]
CASTABLE = {"TINT", "TREAL", "TBOOL", "TTEXTO", "TINDEF"}
ARITH = ["PLUS", "MINUS", "STAR", "SLASH", "DOUBLESLASH", "MODULO"]
ORDER = ["GREATER", "LESS", "GREATEREQ", "LESSEQ"]
EQ = ["DOUBLEEQUAL", "NOTEQUAL"]
LOGIC = ["E", "OU"]

# --------------------------------------------------------------- specification
# A type descriptor: ("prim", TAG) ("vec", t) ("reg", name) ("uniao", name)
# ("opt", t) ("gen", name, t) ("tvar", name) ("leaf", i).  The relations on
# leaves (structurally smaller, arbitrary types) are parameters R.eq/prom/cast.


def s_eq(R, a, b):
    if a[0] == "leaf" or b[0] == "leaf":
        return R.eq(a, b)
    if a[0] != b[0]:
        return False
    k = a[0]
    if k == "prim":
        return a[1] == b[1]
    if k in ("reg", "uniao", "tvar"):
        return bool(a[1] == b[1])
    if k in ("vec", "opt"):
        return bool(s_eq(R, a[1], b[1]))
    if k == "gen":
        return bool(a[1] == b[1]) and bool(s_eq(R, a[2], b[2]))
    raise AssertionError(k)


def s_prom(R, a, b):
    """May a value of type a be used, implicitly converted, where b is wanted?"""
    if a[0] == "leaf" or b[0] == "leaf":
        return R.prom(a, b)
    if b == ("prim", "TINDEF"):
        if a[0] == "prim":
            return a[1] in ("TINT", "TREAL", "TBOOL", "TTEXTO")
        return a[0] in ("vec", "reg", "uniao", "opt", "gen")
    if b == ("prim", "TREAL"):
        return a == ("prim", "TINT")
    if b[0] == "opt":
        if a == ("prim", "TNULO"):
            return True
        if a == ("reg", "Opcao"):
            return True
        return bool(s_eq(R, b[1], a)) or bool(s_prom(R, a, b[1]))
    return False


def s_cast(R, a, b):
    if a[0] == "leaf" or b[0] == "leaf":
        return R.cast(a, b)
    if a[0] == "prim" and b[0] == "prim":
        if a[1] == b[1]:
            return True
        if a[1] in ("TINT", "TREAL", "TTEXTO", "TINDEF"):
            return b[1] in CASTABLE
        if a[1] == "TBOOL":
            return b[1] in ("TTEXTO", "TINDEF")
        return False
    if a[0] == "prim" and b[0] == "opt":
        return a[1] == "TNULO" or bool(s_cast(R, a, b[1]))
    return False


NUM = ("TINT", "TREAL")


def s_binop(R, a, op, b):
    """Tag of the result, None if rejected, "?" where the language does not say."""
    if op in EQ:
        ka, kb = (x[0] if x[0] != "opt" else "gen" for x in (a, b))
        if a[0] == "prim" and b[0] == "prim":
            if a[1] == "TINDEF":
                return "?"
            if b[1] in ("TINDEF", "TVAZIO") or a[1] == "TVAZIO":
                return None
            both = a[1] in NUM and b[1] in NUM
            return "TBOOL" if both or a[1] == b[1] else None
        opt = lambda x: x[0] == "opt" or x == ("reg", "Opcao")
        if a[0] in ("reg", "opt", "gen"):
            if opt(a) or b[0] == "reg" or (a[0] == "gen" and b[0] in ("opt", "gen")):
                return "TBOOL"
            # a plain registo against a bound generic: not settled by the language
            return "?" if b[0] in ("opt", "gen") else None
        return None
    if a[0] != "prim" or b[0] != "prim":
        return None
    if op in ARITH:
        if a[1] in NUM and b[1] in NUM:
            return "TINT" if a[1] == b[1] == "TINT" and op != "SLASH" else "TREAL"
        return None
    if op in ORDER:
        return "TBOOL" if a[1] in NUM and b[1] in NUM else None
    if op in LOGIC:
        return "TBOOL" if a[1] == b[1] == "TBOOL" else None
    return None


def s_unary(a, op):
    if a[0] != "prim":
        return None
    if op in ("PLUS", "MINUS"):
        return a[1] if a[1] in NUM else None
    if op == "NAO":
        return "TBOOL" if a[1] == "TBOOL" else None
    return None


# ------------------------------------------------------------------- real types
class Build:
    """Builds the real type objects of a private copy from descriptors."""

    def __init__(self, ns, cx=None):
        self.m = ns[TY]
        self.b = ns["amanda.compiler.symbols.base"]
        self.bi = ns["amanda.compiler.types.builtins"]
        self.mod = self.bi.builtin_module
        self.cx = cx
        self.leaves = {}
        self.back, self.kept = {}, []
        self.tt = ns["amanda.compiler.tokens"].TokenType

    def ty(self, d):
        m = self.m
        k = d[0]
        if k == "leaf":
            return self.leaf(d)
        if k == "prim":
            tag = getattr(m.Types, d[1])
            for v in vars(self.bi.Builtins).values():
                if isinstance(v, m.Primitive) and v.tag == tag:
                    return v
            raise Unsupported("no primitive " + d[1])
        if k == "vec":
            return m.Vector(self.mod, self.ty(d[1]))
        if k == "reg":
            if isinstance(d[1], str) and d[1] == "Opcao":
                return self.opcao()
            return m.Registo(d[1], self.mod, {})
        if k == "uniao":
            return m.Uniao(d[1], self.mod, {})
        if k == "tvar":
            return self.b.TypeVar(d[1], self.mod)
        if k == "opt":
            return self.opcao().bind(T=self.ty(d[1]))
        if k == "gen":
            g = m.Registo(d[1], self.mod, {}, {self.b.TypeVar("T", self.mod)})
            return g.bind(T=self.ty(d[2]))
        raise AssertionError(k)

    def opcao(self):
        return self.m.Registo("Opcao", self.mod, {}, {self.b.TypeVar("T", self.mod)})

    def refine(self, leaf):
        """The leaf as a type of some kind, whose own element is arbitrary."""
        if leaf.real is None:
            if self.cx is None:
                raise Unsupported("the kind of an abstract element type")
            d = self.rel.find(leaf.desc)
            if d[0] == "leaf":
                n = len(d[1:]) + 1
                if n > 4:
                    raise Unsupported("types nested deeper than 4 levels are inspected")
                new = arbitrary(self.cx, "leaf" + "_".join(map(str, d[1:])), (*d[1:], 0))
                self.rel.uf[str(d)] = new
                self.rel.recheck()
                d = new
            leaf.real = self.ty(d)
            self.back[id(leaf.real)] = d
            self.kept.append(leaf.real)
        return leaf.real

    def leaf(self, d):
        if d not in self.leaves:
            self.leaves[d] = make_leaf(self.b.Type, self.cx, d, self)
        return self.leaves[d]


class R:
    """Relations on leaves: facts of the path, closed under the laws used."""

    def __init__(self, cx):
        self.cx = cx
        self.uf = {}
        self.ne = set()
        self.memo = {}
        self.apart, self.facts = [], []

    def find(self, d):
        while str(d) in self.uf:
            d = self.uf[str(d)]
        return d

    def eq(self, a, b):
        a, b = self.find(a), self.find(b)
        if str(a) == str(b):
            return True
        if a[0] != "leaf" and b[0] != "leaf":
            return s_eq(self, a, b)
        k = frozenset((str(a), str(b)))
        if k in self.ne:
            return False
        if self.cx.flag(f"{a}=={b}"):
            # an equality with a leaf: the leaf is an alias of the other
            if a[0] == "leaf":
                self.uf[str(a)] = b
            else:
                self.uf[str(b)] = a
            self.recheck()
            return True
        self.ne.add(k)
        self.apart.append((a, b))
        return False

    def recheck(self):
        """Paths on which a fact known of a leaf is not one of what it became end."""
        for a, b in list(self.apart):
            if (self.find(a), self.find(b)) != (a, b) and self.eq(a, b):
                raise PathEnd()
        for name, spec, a, b, v in list(self.facts):
            if (self.find(a), self.find(b)) != (a, b) and bool(self._rel(name, spec, a, b)) != bool(v):
                raise PathEnd()

    def _rel(self, name, spec, a, b):
        a, b = self.find(a), self.find(b)
        if a[0] != "leaf" and b[0] != "leaf":
            return spec(self, a, b)
        k = (name, str(a), str(b))
        if k not in self.memo:
            self.memo[k] = self.cx.flag(f"{name}({a},{b})")
            self.facts.append((name, spec, a, b, self.memo[k]))
        return self.memo[k]

    def prom(self, a, b):
        return self._rel("prom", s_prom, a, b)

    def cast(self, a, b):
        return self._rel("cast", s_cast, a, b)


def make_leaf(Type, cx, d, build):
    """An arbitrary smaller type; only its relations to others are known."""

    class Leaf(Type):
        is_leaf = True

        def __init__(self):
            self.desc = d
            self.label = f"leaf{d[1]}"
            self.real = None

        def __eq__(self, o):
            return build.rel.eq(self.desc, build.descr(o))

        __hash__ = None

        def __getattribute__(self, a):
            # what is asked of the type beyond its relations decides what it is
            if a in ("desc", "label", "real", "promote_to", "check_cast", "__eq__", "__str__", "__bool__"):
                return object.__getattribute__(self, a)
            if a in ("sym_is", "stub_is", "is_sym", "in_str") or a.startswith("sym_"):
                raise AttributeError(a)
            return getattr(build.refine(self), a)

        def __setattr__(self, a, v):
            if a in ("desc", "label", "real"):
                return object.__setattr__(self, a, v)
            raise Unsupported(f"{a} of an abstract element type is changed")

        def __str__(self):
            return self.label

        def __bool__(self):
            return True

    Leaf.__abstractmethods__ = frozenset()
    Leaf.sym_type = lambda self: type(build.refine(self))
    return Leaf()


KINDS = ["prim", "vec", "reg", "opcao", "uniao", "opt", "gen", "tvar"]


def leaf(i):
    return ("leaf", *i) if isinstance(i, tuple) else ("leaf", i)


def arbitrary(cx, label, i):
    k = cx.choose(label, KINDS)
    if k == "prim":
        return ("prim", cx.choose(label + ".tag", PRIMS))
    if k == "vec":
        return ("vec", leaf(i))
    if k == "opcao":
        return ("reg", "Opcao")
    if k == "opt":
        return ("opt", leaf(i))
    n = cx.strname(label + ".name")
    if k in ("reg", "gen"):
        cx.assume(n != "Opcao")
    if k == "gen":
        return ("gen", n, leaf(i))
    return (k, n)


def setup(cx, n=2):
    b = Build(cx.ns, cx)
    b.rel = R(cx)
    ds = [arbitrary(cx, "abc"[i], i) for i in range(n)]
    objs = [b.ty(d) for d in ds]
    back = b.back
    back.update({id(o): d for o, d in zip(objs, ds)})

    def descr(o):
        if getattr(type(o), "is_leaf", False):
            return object.__getattribute__(o, "desc")
        if id(o) in back:
            return back[id(o)]
        if type(o) is b.m.Primitive:
            return ("prim", o.tag.name)
        raise Unsupported("relation of an element type to an unknown type")

    b.descr = descr
    isleaf = lambda o: getattr(type(o), "is_leaf", False)
    Type = b.b.Type
    real_prom, real_cast = Type.promote_to, Type.check_cast

    def promote_to(self, other):  # contract of promote_to at smaller types
        if isleaf(self) or isleaf(other):
            return other if b.rel.prom(descr(self), descr(other)) else None
        return real_prom(self, other)

    def check_cast(self, other):
        if isleaf(self) or isleaf(other):
            return b.rel.cast(descr(self), descr(other))
        return real_cast(self, other)

    cx.patch(Type, "promote_to", promote_to)
    cx.patch(Type, "check_cast", check_cast)
    return b, ds, objs


def tagof(b, res):
    if res is None or res is False:
        return None
    return res.tag.name if type(res) is b.m.Primitive else "not-primitive"


def no_crash(cx, clause, out):
    cx.prove(clause + ":returns", out.ok, lambda: out.tb or repr(out.value))
    if not out.ok:
        raise PathEnd()


def vc_eq(cx):
    b, (da, db), (a, o) = setup(cx)
    out = cx.call(lambda: bool(a == o))
    no_crash(cx, "eq", out)
    cx.cover("equal" if out.value else "different")
    cx.prove("eq: structural on vectors and optionals, nominal on declared types",
             out.value == bool(s_eq(b.rel, da, db)))


def vc_prom(cx):
    b, (da, db), (a, o) = setup(cx)
    out = cx.call(lambda: a.promote_to(o))
    no_crash(cx, "promote", out)
    want = bool(s_prom(b.rel, da, db))
    cx.cover("promoted" if want else "not promoted")
    cx.prove("promote: allowed exactly when the implicit-conversion table allows it",
             (out.value is not None and out.value is not False) == want)
    if want and out.value is not None:
        cx.prove("promote: the converted type is the wanted type", out.value is o or bool(out.value == o))


def vc_cast(cx):
    b, (da, db), (a, o) = setup(cx)
    out = cx.call(lambda: bool(a.check_cast(o)))
    no_crash(cx, "cast", out)
    want = bool(s_cast(b.rel, da, db))
    cx.cover("allowed" if want else "rejected")
    cx.prove("cast: allowed exactly when the explicit-conversion table allows it", out.value == want)


def vc_binop(cx):
    b, (da, db), (a, o) = setup(cx)
    # any token may be passed: the ones that are no binary operator are rejected
    tok = cx.choose("op", list(b.tt))
    out = cx.call(lambda: a.binop(tok, o))
    no_crash(cx, "binop", out)
    want = s_binop(b.rel, da, tok.name, db)
    if want == "?":
        raise PathEnd()
    cx.cover("accepted" if want else "rejected")
    cx.prove("binop: accepted with the table's result type, rejected otherwise",
             tagof(b, out.value) == want,
             lambda: {"a": str(da), "op": tok.name, "b": str(db), "got": tagof(b, out.value), "want": want})


def vc_unary(cx):
    b, (da,), (a,) = setup(cx, 1)
    tok = cx.choose("op", list(b.tt))
    out = cx.call(lambda: a.unaryop(tok))
    no_crash(cx, "unaryop", out)
    want = s_unary(da, tok.name)
    cx.cover("accepted" if want else "rejected")
    cx.prove("unaryop: accepted with the table's result type, rejected otherwise",
             tagof(b, out.value) == want)


def vc_index(cx):
    b, (da,), (a,) = setup(cx, 1)
    g, s, t = (cx.call(lambda f=f: bool(getattr(a, f)())) for f in
               ("supports_index_get", "supports_index_set", "supports_tam"))
    for o in (g, s, t):
        no_crash(cx, "index", o)
    seq = da[0] == "vec" or da == ("prim", "TTEXTO")
    cx.prove("index: exactly vectors and texts can be indexed", g.value == seq)
    cx.prove("index: exactly vectors can be modified by index", s.value == (da[0] == "vec"))
    cx.prove("index: exactly vectors and texts have a length", t.value == seq)
    if seq:
        it, el = cx.call(a.index_ty), cx.call(a.index_item_ty)
        no_crash(cx, "index", it)
        no_crash(cx, "index", el)
        cx.cover("seq")
        cx.prove("index: indices are int", tagof(b, it.value) == "TINT")
        cx.prove("index: items have the element type",
                 (tagof(b, el.value) == "TTEXTO") if da[0] == "prim" else el.value is a.element_type)


F = lambda *n: [TY + "." + x for x in n]
VCS = [
    dict(name="type equality", fn=vc_eq, covers=["equal", "different"],
         functions=F("Primitive.__eq__", "Vector.__eq__", "Registo.__eq__", "Uniao.__eq__", "ConstructedTy.__eq__") +
         ["amanda.compiler.symbols.base.TypeVar.__eq__"]),
    dict(name="implicit conversion", fn=vc_prom, covers=["promoted", "not promoted"],
         functions=["amanda.compiler.symbols.base.Type.promote_to", "amanda.compiler.symbols.base.TypeVar.promotion_to"] +
         F(*[c + ".promotion_to" for c in ("Primitive", "Vector", "Registo", "Uniao", "ConstructedTy")], "ConstructedTy.promotion_from")),
    dict(name="explicit conversion", fn=vc_cast, covers=["allowed", "rejected"],
         functions=["amanda.compiler.symbols.base.Type.check_cast"] + F("Primitive.cast_to", "ConstructedTy.cast_from")),
    dict(name="binary operators", fn=vc_binop, covers=["accepted", "rejected"],
         functions=["amanda.compiler.ops.primitive_binop"] + F(*[c + ".binop" for c in ("Primitive", "Vector", "Registo", "Uniao", "ConstructedTy")])),
    dict(name="unary operators", fn=vc_unary, covers=["accepted", "rejected"],
         functions=F(*[c + ".unaryop" for c in ("Primitive", "Vector", "Registo", "Uniao", "ConstructedTy")])),
    dict(name="indexing", fn=vc_index, covers=["seq"],
         functions=F(*[f"{c}.{m}" for c in ("Primitive", "Vector", "Registo", "Uniao", "ConstructedTy")
                       for m in ("supports_index_get", "supports_index_set", "supports_tam")])),
]


# ------------------------------------------------------------- bounded stand-in
class Ground:
    eq = prom = cast = None


def all_types(depth):
    base = [("prim", p) for p in PRIMS] + [("reg", "A"), ("reg", "B"), ("uniao", "A"), ("uniao", "U"),
                                            ("tvar", "T"), ("reg", "Opcao")]
    out = list(base)
    prev = base
    for _ in range(depth):
        nxt = []
        for t in prev:
            nxt += [("vec", t), ("opt", t), ("gen", "C", t), ("gen", "D", t)]
        out += nxt
        prev = nxt
    return out


def standin(r, tier, seed, deadline):
    from pvc import loader
    ns = loader.load(False)
    with ns.active():
        b = Build(ns)
        types = all_types(2)
        objs = [b.ty(d) for d in types]
        ops = [t for t in b.tt]
        interesting = [t for t in b.tt if t.name in ARITH + ORDER + EQ + LOGIC + ["NAO", "DOT"]]

        def attempt(f):
            try:
                return f()
            except Exception as e:
                return f"crash: {type(e).__name__}: {e}"

        def sh(d):
            return "/".join(map(str, d)) if not isinstance(d, str) else d

        for da, a in zip(types, objs):
            for op in ops:
                got = attempt(lambda: tagof(b, a.unaryop(op)))
                want = s_unary(da, op.name)
                r.case(("u", da, op))
                if got != want:
                    r.fail(f"unary {op.name} {da}", f"unary {op.name} on {da}: result {got}, the language says {want}")
            for db, o in zip(types, objs):
                for name, real, spec in (
                    ("==", lambda: bool(a == o), s_eq),
                    ("implicit", lambda: a.promote_to(o) is not None, s_prom),
                    ("explicit", lambda: bool(a.check_cast(o)), s_cast),
                ):
                    got, want = attempt(real), bool(spec(Ground, da, db))
                    r.case((name, da, db), f"{name} {da} {db} -> {want}" if want else None)
                    if got != want:
                        r.fail(f"{name} {da} {db}", f"{name} of {da} and {db}: {got}, the language says {want}")
                for op in (interesting if da[0] != "prim" or db[0] != "prim" else ops):
                    want = s_binop(Ground, da, op.name, db)
                    if want == "?":
                        continue
                    got = attempt(lambda: tagof(b, a.binop(op, o)))
                    r.case((op.name, da, db))
                    if got != want:
                        r.fail(f"{da} {op.name} {db}", f"{da} {op.name} {db}: result {got}, the language says {want}")


STANDINS = [dict(name="runtime contracts on enumerated types", fn=standin,
                 bound="every pair of types of nesting depth 2, every operator token")]
TRUSTED = ["the operator, implicit and explicit conversion tables in checks/c03.py are the language's definition",
           "induction on type size: relations on element types are taken from the same contracts"]
