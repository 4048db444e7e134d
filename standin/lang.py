"""Random typed programs with their meaning.

`Gen(seed, size)` writes a program (one or more files) and, next to every piece
of text, a closure that says what this piece does.  The closures are the
oracle: they were written from the language's rules, not from the compiler.
`Gen.run()` gives the expected output and, when the program fails at run time,
the expected report (call stack and lines).

With `bad=<kind>` one ill-formed construct is planted in an otherwise correct
program; the expected outcome is then an error in the file and on the line of
that construct.
"""
import math
import random
from decimal import Decimal

I64 = (-(1 << 63), (1 << 63) - 1)
SCALARS = ("int", "real", "bool", "texto")


class AmaErr(Exception):
    pass


class Budget(Exception):
    pass


class NoName(Exception):
    """A type that has no name at this point."""


# ---------------------------------------------------------------------- values
class Rec:
    def __init__(self, reg, fields):
        self.reg, self.f = reg, fields


class Tag:
    def __init__(self, uni, name, args):
        self.uni, self.name, self.args = uni, name, args


def show(v):
    if v is None:
        return "nulo"
    if v is True:
        return "verdadeiro"
    if v is False:
        return "falso"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, float):
        if math.isnan(v):
            return "NaN"
        if math.isinf(v):
            return "inf" if v > 0 else "-inf"
        s = format(Decimal(repr(v)), "f")
        if v == int(v):
            return s if "." in s else s + ".0"
        return s
    if isinstance(v, str):
        return v
    if isinstance(v, list):
        return "[" + ", ".join(show(x) for x in v) + "]"
    if isinstance(v, Rec):
        return f"<Instância do tipo {v.reg.name}>"
    raise AssertionError(v)


def trunc(x):
    if isinstance(x, float):
        if math.isnan(x):
            return 0
        return max(I64[0], min(I64[1], int(x) if not math.isinf(x) else (I64[1] if x > 0 else I64[0])))
    return x


RANGE = "Erro ao realizar operação aritmética. Resultado fora do intervalo de inteiros representáveis"
DIV0 = "não pode dividir um número por zero"
MOD0 = "não pode calcular o resto da divisão de um número por zero"


def fit(n):
    if not I64[0] <= n <= I64[1]:
        raise AmaErr(RANGE)
    return n


def idiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def arith(op, a, b):
    real = isinstance(a, float) or isinstance(b, float)
    if op == "/":
        if float(b) == 0.0:
            raise AmaErr(DIV0)
        return float(a) / float(b)
    if op == "//":
        a, b = trunc(a), trunc(b)
        if b == 0:
            raise AmaErr(DIV0)
        return fit(idiv(a, b))
    if op == "%":
        if float(b) == 0.0:
            raise AmaErr(MOD0)
        if real:
            a = float(a)
            return math.fmod(a, float(b)) if math.isfinite(a) else math.nan
        return fit(a - b * idiv(a, b)) if not (a == I64[0] and b == -1) else fit(1 << 70)
    if real:
        a, b = float(a), float(b)
    r = a + b if op == "+" else a - b if op == "-" else a * b
    return r if real else fit(r)


def tyname(v):
    for k, n in ((bool, "bool"), (int, "int"), (float, "real"), (str, "texto"), (list, "Vector")):
        if isinstance(v, k):
            return n
    return None


def cast(v, ty):
    if ty == "texto":
        return show(v)
    if ty == "int":
        if isinstance(v, float):
            return trunc(v)
        if isinstance(v, str):
            s = v[1:] if v[:1] in "+-" else v
            if s and all(c in "0123456789" for c in s) and I64[0] <= int(v) <= I64[1]:
                return int(v)
            raise AmaErr(f"A sequência de caracteres '{v}' não é um inteiro válido")
        return int(v)
    if ty == "real":
        if isinstance(v, str):
            import re
            if re.fullmatch(r"[+-]?(\d+(\.\d*)?|\.\d+)", v, re.A):
                return float(v)
            raise AmaErr(f"A sequência de caracteres '{v}' não é um número real válido")
        return float(v)
    if ty == "bool":
        return v != "" if isinstance(v, str) else v != 0
    raise AssertionError(ty)


# --------------------------------------------------------------------- symbols
class Var:
    kind = "var"

    def __init__(self, name, ty, glob=False, protected=False, mod=None):
        self.name, self.ty, self.glob, self.protected, self.mod = name, ty, glob, protected, mod


class Fn:
    kind = "fn"

    def __init__(self, name, params, ret, mod=None):
        self.name, self.params, self.ret, self.mod = name, params, ret, mod
        self.body = None
        self.self_ty = None
        self.pure = False
        self.open = True  # still being declared

    @property
    def label(self):
        return self.name if self.self_ty is None else f"{tystr0(self.self_ty)}::{self.name}"


class Reg:
    kind = "reg"

    def __init__(self, name, mod=None):
        self.name, self.fields, self.methods, self.mod = name, {}, {}, mod


class Uni:
    kind = "uni"

    def __init__(self, name, mod=None):
        self.name, self.variants, self.methods, self.mod = name, {}, {}, mod


class Mod:
    kind = "mod"

    def __init__(self, name, gen):
        self.name, self.gen = name, gen


class Builtin:
    kind = "builtin"

    def __init__(self, name):
        self.name = name


BUILTINS = ("int", "real", "bool", "texto", "indef", "vazio", "nulo", "leia", "leia_int", "leia_real", "escreva",
            "escrevaln", "vec", "tam", "anexa", "remova", "txt_contem", "Opcao")


def tystr0(t):
    if isinstance(t, str):
        return t
    return t[1].name


class E:
    """An expression: text, precedence of its outermost operator, type, meaning."""
    __slots__ = ("text", "prec", "ty", "ev", "kind")

    def __init__(self, text, prec, ty, ev, kind=""):
        self.text, self.prec, self.ty, self.ev, self.kind = text, prec, ty, ev, kind


ATOM = 7
BIN = {"==": 1, "!=": 1, "<": 2, ">": 2, "<=": 2, ">=": 2, "+": 3, "-": 3, "ou": 3, "*": 4, "/": 4, "//": 4, "%": 4, "e": 4}


def promotes(a, b):
    """Does a convert implicitly to b (or equal it)?"""
    if a == b:
        return True
    if b == "indef":
        return a not in ("vazio", "nulo")
    if b == "real":
        return a == "int"
    if isinstance(b, tuple) and b[0] == "opt":
        return a == "nulo" or promotes(a, b[1])
    return False


def convert(v, a, b):
    """The value of type a, stored where b is wanted."""
    while isinstance(b, tuple) and b[0] == "opt":
        b = b[1]
    if a == "int" and b == "real":
        return float(v)
    return v


# ------------------------------------------------------------------- execution
class State:
    def __init__(self, budget=20000):
        self.out, self.globals, self.frames, self.steps = [], {}, [], budget

    def tick(self, n=1):
        self.steps -= n
        if self.steps < 0:
            raise Budget()


class Frame:
    __slots__ = ("vars", "line", "label")

    def __init__(self, label):
        self.vars, self.line, self.label = {}, 0, label


def call(st, fn, args):
    st.tick(3)
    if len(st.frames) > 150:
        raise Budget()
    fr = Frame(fn.label)
    for p, a in zip(fn.params, args):
        fr.vars[p] = a
    st.frames.append(fr)
    r = fn.body(st, fr)
    st.frames.pop()
    return r[1] if r else False


NAMES = ["a", "b", "x", "num", "if", "é", "lista", "print", "_x_", "self", "n2", "Z"]
FNAMES = ["soma", "f", "def", "calc", "máx", "g", "len", "run"]
RNAMES = ["Par", "Ponto", "R", "Caixa", "class"]
UNAMES = ["U", "Forma", "Arvore", "Cor", "None"]
FIELDS = ["x", "y", "z", "nome", "if"]
VNAMES = ["A", "B", "C", "Fim", "No"]
METHODS = ["dobro", "ver", "lambda", "muda", "x"]
# the same number of names that are nearly the same
NEAR = {id(VNAMES): ["A", "a", "A_", "A1", "AA"], id(NAMES): ["a", "A", "á", "a_", "_a", "a1", "a01", "aa", "n" * 32 + "x", "n" * 32 + "y", "a_a", "a__a"],
        id(FNAMES): ["f", "F", "f_", "f1", "f01", "ff", "g" * 32 + "x", "g" * 32 + "y"],
        id(RNAMES): ["R", "r", "R_", "R1", "RR"], id(UNAMES): ["U", "u", "U_", "U1", "UU"],
        id(FIELDS): ["x", "X", "x_", "x1", "xx"], id(METHODS): ["m", "M", "m_", "m1", "mm"]}


BLOCKS = ("se", "enquanto", "para", "escolha", "iguala", "igualaexp", "seiguala")


class Gen:
    def __init__(self, seed, size=8, bad=None, modules=None, name="m", parent=None, profile=None):
        self.rng = random.Random(seed)
        self.nearly = random.Random(f"near {seed}").random() < .25
        self.broad = random.Random(f"broad {seed}").random() < .12
        self.size, self.bad = size, bad
        self.profile = profile
        self.buf = []
        self.indent = 0
        self.scopes = [{b: Builtin(b) for b in BUILTINS}]
        self.hidden = []
        self.fn = None            # function being declared
        self.loops = 0
        self.in_arm = 0
        self.yields = 0           # alternatives of iguala, written as blocks, around this point
        self.tmp = 0
        self.name = name
        self.parent = parent or self
        self.planted = None
        self.main_ex = []
        self.imports = []
        self.nstmts = 0
        self.bad_at = None
        self.mods = modules

    # ----------------------------------------------------------------- helpers
    def emit(self, text):
        self.buf.append("   " * self.indent + text)
        return len(self.buf)

    @property
    def line(self):
        return len(self.buf) + 1

    def visible(self):
        d = {}
        for s in self.scopes:
            d.update(s)
        return d

    def syms(self, kind):
        return [s for s in self.visible().values() if s.kind == kind]

    def near(self, pool):
        names = NEAR.get(id(pool), pool) if self.nearly else pool
        return names + [f"{n}{i}" for n, i in zip(names * 3, range(2, 14))] if self.broad else names

    def many(self, counts, most=99):
        """How many parts of a kind to write."""
        n = self.rng.choice(counts)
        if self.broad and self.rng.random() < .35:
            n += self.rng.randrange(1, 9)
        return min(n, most)

    def fresh(self, pool=NAMES, scope=None):
        """A name that the current scope does not have (it may hide an outer one)."""
        pool = self.near(pool)
        sc = self.scopes[-1] if scope is None else scope
        c = [n for n in pool if n not in sc]
        if c and self.rng.random() < 0.85:
            return self.rng.choice(c)
        while True:
            self.parent.tmp += 1
            n = f"v{self.parent.tmp}"
            if n not in sc:
                return n

    def declare(self, name, ty, protected=False):
        v = Var(name, ty, glob=len(self.scopes) == 1, protected=protected, mod=self.name)
        self.scopes[-1][name] = v
        return v

    def chance(self, p):
        return self.rng.random() < p

    def tystr(self, t, plain=False):
        if isinstance(t, str):
            return t
        if t[0] == "vec":
            return f"[{self.tystr(t[1])}]"
        if t[0] == "opt":
            return f"{self.tystr(t[1])}?"
        s = t[1]
        vis = self.visible()
        if vis.get(s.name) is s:
            return s.name
        for m in self.syms("mod") if not plain else ():
            if m.gen.scopes[0].get(s.name) is s:
                return f"{m.name}.{s.name}"
        raise NoName(s.name)

    def nameable(self, t):
        try:
            self.tystr(t)
            return True
        except NoName:
            return False

    def types_of(self, kind):
        """Records or unions that can be named here."""
        out = [s for s in self.syms(kind)]
        if kind == "reg":
            for m in self.syms("mod"):
                out += [s for s in m.gen.scopes[0].values() if s.kind == "reg" and s.mod == m.gen.name]
        return [s for s in out if not getattr(s, "open", False)]

    def ty(self, depth=2, opt=True):
        r = self.rng.random()
        if self.profile and "types" in self.profile and self.chance(0.9):
            return self.rng.choice(self.profile["types"])
        if depth and r < 0.13:
            return ("vec", self.ty(depth - 1, opt=False))
        if depth and opt and r < 0.22:
            return ("opt", self.ty(depth - 1, opt=False))
        if r < 0.32 and self.types_of("reg"):
            return ("reg", self.rng.choice(self.types_of("reg")))
        if r < 0.42 and self.types_of("uni"):
            return ("uni", self.rng.choice(self.types_of("uni")))
        if r < 0.46:
            return "indef"
        return self.rng.choice(SCALARS)

    # ------------------------------------------------------------- expressions
    def par(self, e, prec):
        if e.prec < prec or self.chance(0.06):
            return f"({e.text})"
        return e.text

    def lit(self, ty):
        r = self.rng
        if ty == "int":
            v = r.choice([0, 1, 2, 3, 5, 7, 10, 13]) if self.chance(0.9) else r.choice([1 << 40, I64[1], 65536, 256, 255])
            return E(str(v), ATOM, "int", lambda st, fr: v)
        if ty == "real":
            v = r.choice([0.5, 1.25, 2.0, 3.75, 10.0, 0.125])
            return E(repr(v), ATOM, "real", lambda st, fr: v)
        if ty == "bool":
            v = self.chance(0.5)
            return E("verdadeiro" if v else "falso", ATOM, "bool", lambda st, fr: v)
        v = r.choice(["", "a", "olá", "xy z", "123", "verdadeiro", "falso", "4.5", "a#b", "{x}", "é", "0", "😀x", "ﬁ", "a\u2028b"])
        q = r.choice("'\"")
        return E(f"{q}{v}{q}", ATOM, "texto", lambda st, fr: v)

    def vars_of(self, ty, writable=False):
        return [v for v in self.syms("var") if v.ty == ty and not (writable and (v.protected or v.mod != self.name))]

    def mod_vars(self, ty):
        return [(m, v) for m in self.syms("mod") for v in m.gen.scopes[0].values()
                if v.kind == "var" and v.ty == ty and v.mod == m.gen.name]

    def var(self, v, prefix=""):
        if v.glob:
            return E(prefix + v.name, ATOM, v.ty, lambda st, fr: st.globals[v], "var")
        return E(prefix + v.name, ATOM, v.ty, lambda st, fr: fr.vars[v], "var")

    def fns_of(self, ty):
        out = []
        for f in self.syms("fn"):
            if f.ret == ty and not f.open:
                out.append((f, f.name))
        for m in self.syms("mod"):
            for f in m.gen.scopes[0].values():
                if f.kind == "fn" and f.ret == ty and f.mod == m.gen.name:
                    out.append((f, f"{m.name}.{f.name}"))
        return out

    def call_fn(self, fn, text, d):
        args = [self.want(p.ty, d - 1) for p in fn.params]
        evs = [a.ev for a in args]
        return E(f"{text}({', '.join(a.text for a in args)})", ATOM, fn.ret,
                 lambda st, fr: call(st, fn, [e(st, fr) for e in evs]), "call")

    def methods_of(self, ty):
        return [(s, f) for s, f in self.parent.methods.items() if not f.open and f.ret == ty] if hasattr(self.parent, "methods") else []

    def want(self, ty, d):
        """An expression that may be used where ty is wanted; its meaning is the stored value."""
        if ty == "real" and self.chance(0.35):
            e = self.expr("int", d)
            return E(e.text, e.prec, "int", lambda st, fr: float(e.ev(st, fr)), e.kind)
        if ty == "indef":
            t = self.rng.choice(SCALARS)
            if d > 0 and self.chance(0.15):
                t = ("vec", t)
            if self.chance(0.2):
                return self.expr("indef", d)
            return self.expr(t, d)
        if isinstance(ty, tuple) and ty[0] == "opt":
            r = self.rng.random()
            if r < 0.25:
                return E("nulo", ATOM, "nulo", lambda st, fr: None)
            if r < 0.75:
                return self.want(ty[1], d)
        return self.expr(ty, d)

    def expr(self, ty, d):
        """An expression of exactly this type."""
        r = self.rng
        opts = []
        vs = self.vars_of(ty)
        if vs:
            opts += ["var"] * 4
        mv = self.mod_vars(ty)
        if mv:
            opts += ["mvar"] * 2
        if d > 0:
            fs = self.fns_of(ty)
            if fs:
                opts += ["call"] * 2
            ms = [(f) for f in self.parent.all_methods() if f.ret == ty and not f.open and self.nameable(f.self_ty)]
            if ms:
                opts += ["method"] * 2
            hs = [(v, n) for v in self.syms("var") if isinstance(v.ty, tuple) and v.ty[0] == "reg"
                  for n, t in v.ty[1].fields.items() if t == ty]
            if hs:
                opts += ["field"] * 2
            ivs = [v for v in self.syms("var") if v.ty == ("vec", ty)]
            if ivs:
                opts += ["index"] * 2
            ovs = [v for v in self.syms("var") if v.ty == ("opt", ty)]
            if ovs:
                opts += ["valor", "valor_ou"]
            if ivs and self.sees("remova") and not isinstance(ty, tuple):
                opts += ["remova"]
        if isinstance(ty, str):
            if ty in SCALARS:
                opts += ["lit"] * (2 if d > 0 else 1)
            if d > 0 and ty in ("int", "real"):
                opts += ["arith"] * 4 + ["neg"]
            if d > 0 and ty == "bool":
                opts += ["cmp"] * 3 + ["logic"] * 2 + ["not", "eq", "nulleq"]
            if d > 0 and ty in SCALARS:
                opts += ["cast"] * 2
            if d > 0 and ty == "texto":
                opts += ["fstr"] * 2 + ["tindex"]
            if d > 0 and ty == "int" and self.sees("tam"):
                opts += ["tam"]
            if ty == "indef" and not opts:
                opts = ["toindef"]
            elif ty == "indef":
                opts += ["toindef"]
        else:
            if ty[0] == "vec":
                opts += ["list"] * 2
                t = ty
                while isinstance(t, tuple) and t[0] == "vec":
                    t = t[1]
                if t in SCALARS and self.sees("vec") and d > 0:
                    opts.append("vecfn")
            elif ty[0] == "opt":
                if not [o for o in opts if o in ("var", "mvar", "call", "method")]:
                    opts.append("mkopt")
            elif ty[0] == "reg":
                opts += ["init"]
            elif ty[0] == "uni":
                opts += ["variant"] * 2
        return getattr(self, "e_" + r.choice(opts))(ty, d)

    def sees(self, name):
        s = self.visible().get(name)
        return s is not None and s.kind == "builtin"

    def all_methods(self):
        return self.parent.__dict__.setdefault("_methods", [])

    def e_lit(self, ty, d):
        return self.lit(ty)

    def e_var(self, ty, d):
        return self.var(self.rng.choice(self.vars_of(ty)))

    def e_mvar(self, ty, d):
        m, v = self.rng.choice(self.mod_vars(ty))
        return self.var(v, m.name + ".")

    def e_call(self, ty, d):
        fn, text = self.rng.choice(self.fns_of(ty))
        return self.call_fn(fn, text, d)

    def e_method(self, ty, d):
        f = self.rng.choice([f for f in self.all_methods() if f.ret == ty and not f.open and self.nameable(f.self_ty)])
        t = self.expr(f.self_ty, d - 1)
        args = [self.want(p.ty, d - 1) for p in f.params[1:]]
        evs = [t.ev] + [a.ev for a in args]
        tt = self.par(t, ATOM)
        if tt[0].isdigit() or tt[0] in "'\"":
            tt = f"({tt})"
        return E(f"{tt}.{f.name}({', '.join(a.text for a in args)})", ATOM, ty,
                 lambda st, fr: call(st, f, [e(st, fr) for e in evs]), "call")

    def e_field(self, ty, d):
        v, n = self.rng.choice([(v, n) for v in self.syms("var") if isinstance(v.ty, tuple) and v.ty[0] == "reg"
                                for n, t in v.ty[1].fields.items() if t == ty])
        e = self.var(v)
        return E(f"{e.text}.{n}", ATOM, ty, lambda st, fr: e.ev(st, fr).f[n], "field")

    def small_int(self, d):
        if d > 0 and self.chance(0.25):
            return self.expr("int", d)
        v = self.rng.choice([0, 0, 0, 1, 1, 2])
        return E(str(v), ATOM, "int", lambda st, fr: v)

    @staticmethod
    def vget(v, i):
        if i < 0:
            raise AmaErr("Erro de índice inválido. Vectores só podem ser indexados com inteiros positivos")
        if i >= len(v):
            raise AmaErr(f"Erro de índice inválido. O tamanho do vector é {len(v)}, mas tentou aceder o índice {i}")
        return v[i]

    def e_index(self, ty, d):
        e = self.var(self.rng.choice([v for v in self.syms("var") if v.ty == ("vec", ty)]))
        i = self.small_int(d - 1)
        return E(f"{e.text}[{i.text}]", ATOM, ty, lambda st, fr: self.vget(e.ev(st, fr), i.ev(st, fr)), "index")

    def e_remova(self, ty, d):
        e = self.var(self.rng.choice([v for v in self.syms("var") if v.ty == ("vec", ty)]))
        i = self.small_int(d - 1)

        def ev(st, fr):
            v, n = e.ev(st, fr), i.ev(st, fr)
            self.vget(v, n)
            return v.pop(n)
        return E(f"remova({e.text}, {i.text})", ATOM, ty, ev, "call")

    def e_valor(self, ty, d):
        e = self.var(self.rng.choice([v for v in self.syms("var") if v.ty == ("opt", ty)]))

        def ev(st, fr):
            v = e.ev(st, fr)
            if v is None:
                raise AmaErr("Não pode aceder uma referência nula")
            return v
        return E(f"{e.text}.valor", ATOM, ty, ev, "unwrap")

    def e_valor_ou(self, ty, d):
        e = self.var(self.rng.choice([v for v in self.syms("var") if v.ty == ("opt", ty)]))
        w = self.want(ty, d - 1)

        def ev(st, fr):
            v, x = e.ev(st, fr), w.ev(st, fr)
            return x if v is None else v
        return E(f"{e.text}.valor_ou({w.text})", ATOM, ty, ev, "unwrap")

    def e_arith(self, ty, d):
        if ty == "int":
            op = self.rng.choice(["+", "-", "*", "//", "%", "+", "-"])
            # // is exact in its integers only when both operands are
            l, r = self.expr("int", d - 1), self.expr("int", d - 1)
        else:
            op = self.rng.choice(["+", "-", "*", "/", "%", "//"])
            lt = self.rng.choice(["real", "int"])
            rt = "real" if lt == "int" and op != "/" else self.rng.choice(["real", "int"])
            l, r = self.expr(lt, d - 1), self.expr(rt, d - 1)
        if op in ("/", "//", "%") and self.chance(0.8):
            r = self.lit("int" if r.ty == "int" else "real")
            if r.text == "0":
                r = E("3", ATOM, "int", lambda st, fr: 3)
        p = BIN[op]
        if ty == "real" and op == "//":
            # the value is an integer, the type is real
            return self.e_arith(ty, d)
        return E(f"{self.par(l, p)} {op} {self.par(r, p + 1)}", p, ty,
                 lambda st, fr: self.two(op, l, r, st, fr), "binop")

    @staticmethod
    def two(op, l, r, st, fr):
        a = l.ev(st, fr)
        b = r.ev(st, fr)
        return arith(op, a, b)

    def e_neg(self, ty, d):
        e = self.expr(ty, d - 1)
        op = self.rng.choice("-+-")

        def ev(st, fr):
            v = e.ev(st, fr)
            if op == "+":
                return v
            if v == I64[0] and isinstance(v, int):
                raise Budget()
            return -v
        return E(op + self.par(e, 5), 5, ty, ev, "unary")

    def e_not(self, ty, d):
        e = self.expr("bool", d - 1)
        return E("nao " + self.par(e, 5), 5, ty, lambda st, fr: not e.ev(st, fr), "unary")

    def e_cmp(self, ty, d):
        l = self.expr(self.rng.choice(["int", "real"]), d - 1)
        r = self.expr(self.rng.choice(["int", "real"]), d - 1)
        op = self.rng.choice(["<", ">", "<=", ">="])
        p = BIN[op]

        def ev(st, fr):
            a, b = l.ev(st, fr), r.ev(st, fr)
            if isinstance(a, float) or isinstance(b, float):
                a, b = float(a), float(b)
            return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op]
        return E(f"{self.par(l, p)} {op} {self.par(r, p + 1)}", p, "bool", ev, "binop")

    def e_eq(self, ty, d):
        t = self.rng.choice(["int", "real", "bool", "texto", "mix"])
        ts = ("int", "real") if t == "mix" else (t, t)
        if self.chance(0.5):
            ts = ts[::-1]
        l, r = self.expr(ts[0], d - 1), self.expr(ts[1], d - 1)
        op = self.rng.choice(["==", "!="])

        def ev(st, fr):
            a, b = l.ev(st, fr), r.ev(st, fr)
            if isinstance(a, float) or isinstance(b, float):
                a, b = float(a), float(b)
            return (a == b) == (op == "==")
        return E(f"{self.par(l, 1)} {op} {self.par(r, 2)}", 1, "bool", ev, "binop")

    def e_nulleq(self, ty, d):
        vs = [v for v in self.syms("var") if isinstance(v.ty, tuple) and v.ty[0] == "opt"]
        if not vs:
            return self.e_eq(ty, d)
        e = self.var(self.rng.choice(vs))
        op = self.rng.choice(["==", "!="])
        t = f"{e.text} {op} nulo"
        return E(t, 1, "bool", lambda st, fr: (e.ev(st, fr) is None) == (op == "=="), "binop")

    def e_logic(self, ty, d):
        l, r = self.expr("bool", d - 1), self.expr("bool", d - 1)
        op = self.rng.choice(["e", "ou"])
        p = BIN[op]

        def ev(st, fr):
            a, b = l.ev(st, fr), r.ev(st, fr)
            return (a and b) if op == "e" else (a or b)
        return E(f"{self.par(l, p)} {op} {self.par(r, p + 1)}", p, "bool", ev, "binop")

    def e_cast(self, ty, d):
        src = {"int": ["real", "texto", "indef", "int"], "real": ["int", "texto", "indef", "real"],
               "bool": ["int", "real", "texto", "indef"], "texto": ["int", "real", "bool", "indef"]}[ty]
        s = self.rng.choice(src)
        e = self.expr(s, d - 1)
        text = f"{self.par(e, ATOM)} :> {ty}"
        if s == "indef":
            def ev(st, fr):
                v = e.ev(st, fr)
                if tyname(v) is None:
                    raise Budget()
                if tyname(v) != ty:
                    raise AmaErr(f"Conversão inválida. O tipo original do valor é '{tyname(v)}', mas tentou converter o valor para o tipo '{ty}'")
                return v
            return E(text, 6, ty, ev, "cast")
        if s == ty:
            return E(text, 6, ty, e.ev, "cast")
        return E(text, 6, ty, lambda st, fr: cast(e.ev(st, fr), ty), "cast")

    def e_fstr(self, ty, d):
        parts, text, q = [], "", self.rng.choice("'\"")
        for _ in range(self.rng.choice([1, 2, 2, 3])):
            if self.chance(0.5):
                s = self.rng.choice(["n: ", " ", "é", "-", "1", "verdadeiro"])
                parts.append(lambda st, fr, s=s: s)
                text += s
            e = self.expr(self.rng.choice(["int", "bool", "real", "int"]), min(d - 1, 1))
            if any(c in e.text for c in "'\"{}\\"):
                continue
            parts.append(lambda st, fr, e=e: show(e.ev(st, fr)))
            text += "{" + e.text + "}"
        return E(f"f{q}{text}{q}", ATOM, "texto", lambda st, fr: "".join(p(st, fr) for p in parts), "fstr")

    def e_tindex(self, ty, d):
        e = self.expr("texto", d - 1)
        i = self.small_int(0)

        def ev(st, fr):
            v, n = e.ev(st, fr), i.ev(st, fr)
            if n >= len(v):
                raise AmaErr(f"Erro de índice inválido. O tamanho da string é {len(v)}, mas o índice é {n}")
            return v[n]
        return E(f"{self.par(e, ATOM)}[{i.text}]", ATOM, ty, ev, "index")

    def e_tam(self, ty, d):
        vs = [v for v in self.syms("var") if isinstance(v.ty, tuple) and v.ty[0] == "vec"]
        e = self.var(self.rng.choice(vs)) if vs and self.chance(0.7) else self.expr("texto", d - 1)
        return E(f"tam({e.text})", ATOM, "int", lambda st, fr: len(e.ev(st, fr)), "call")

    def e_toindef(self, ty, d):
        # there is no exact literal of this type: a list of one element, indexed
        e = self.expr(self.rng.choice(SCALARS), max(d - 1, 0))
        return E(f"[indef: {e.text}][0]", ATOM, "indef", e.ev, "index")

    def e_mkopt(self, ty, d):
        e = self.want(ty[1], max(d - 1, 0))
        return E(f"[{self.tystr(ty)}: {e.text}][0]", ATOM, ty,
                 lambda st, fr: e.ev(st, fr), "index")

    def e_list(self, ty, d):
        es = [self.want(ty[1], max(d - 1, 0)) for _ in range(self.many([0, 1, 2, 3, 3]) if d > 0 else self.rng.choice([0, 1, 2]))]
        return E(f"[{self.tystr(ty[1])}: {', '.join(e.text for e in es)}]" if es else f"[{self.tystr(ty[1])}:]", ATOM, ty,
                 lambda st, fr: [e.ev(st, fr) for e in es], "list")

    def e_vecfn(self, ty, d):
        dims, t = [], ty
        while isinstance(t, tuple):
            dims.append(self.rng.choice([0, 1, 2, 3]))
            t = t[1]
        if len(dims) > 2:
            return self.e_list(ty, d)
        zero = {"int": 0, "real": 0.0, "bool": False, "texto": ""}[t]

        def mk(ds):
            return [mk(ds[1:]) if len(ds) > 1 else zero for _ in range(ds[0])]
        return E(f"vec({t}, {', '.join(map(str, dims))})", ATOM, ty, lambda st, fr: mk(dims), "call")

    def e_init(self, ty, d):
        reg = ty[1]
        names = list(reg.fields)
        self.rng.shuffle(names)
        args = [(n, self.want(reg.fields[n], max(d - 1, 0))) for n in names]
        text = self.tystr(ty)
        return E(f"{text}({', '.join(f'{n}: {a.text}' for n, a in args)})", ATOM, ty,
                 lambda st, fr: Rec(reg, {n: a.ev(st, fr) for n, a in args}), "init")

    def e_variant(self, ty, d):
        uni = ty[1]
        c = [n for n, ps in uni.variants.items() if d > 0 or all(p != ty for p in ps)]
        if d <= 0:
            c = [n for n in c if not uni.variants[n]] or c
        n = self.rng.choice(c)
        args = [self.want(p, max(d - 1, 0)) for p in uni.variants[n]]
        text = f"{self.tystr(ty, True)}::{n}" + (f"({', '.join(a.text for a in args)})" if args else "")
        return E(text, ATOM, ty, lambda st, fr: Tag(uni, n, [a.ev(st, fr) for a in args]), "variant")

    # -------------------------------------------------------------- statements
    def store(self, v):
        if v.glob:
            def put(st, fr, x):
                st.globals[v] = x
        else:
            def put(st, fr, x):
                fr.vars[v] = x
        return put

    def block(self, n, scope=None):
        self.scopes.append({} if scope is None else scope)
        self.indent += 1
        out = [self.stmt() for _ in range(n)]
        self.indent -= 1
        self.scopes.pop()
        return out

    @staticmethod
    def exec(stmts, st, fr):
        for s in stmts:
            st.tick()
            r = s(st, fr)
            if r is not None:
                return r
        return None

    def depth(self):
        return self.indent

    def stmt(self):
        self.nstmts += 1
        self.plant()
        ks = ["decl"] * 5 + ["assign"] * 4 + ["show"] * 4 + ["indexset", "fieldset", "compound", "compound", "exprst", "chain", "anexa"]
        if any(isinstance(v.ty, tuple) and v.ty[0] == "reg" and v.ty[1].fields for v in self.syms("var")):
            ks += ["fieldset"] * 3
        if self.depth() < 4:
            ks += ["se"] * 3 + ["enquanto", "para", "para", "escolha", "iguala", "iguala", "igualaexp", "seiguala"]
        if self.loops:
            ks += ["loopctl"]
        if self.fn is not None and self.depth() > 1 and not self.in_arm:
            ks += ["early"]
        if self.profile and self.profile.get("stmts"):
            ks = [k for k in ks + self.profile["stmts"] * 3
                  if k in self.profile["stmts"] and (k != "loopctl" or self.loops) and
                  (k not in BLOCKS or self.depth() < self.profile.get("depth", 4)) and
                  (k != "early" or self.fn is not None and self.depth() > 1 and not self.in_arm)]
        while True:
            ex = self.attempt("s_" + self.rng.choice(ks))
            if ex is not None:
                return ex

    def attempt(self, rule):
        """Applies a rule; when it turns out not to apply here, nothing is left of it."""
        n, scopes, state = len(self.buf), [(s, dict(s)) for s in self.scopes], (self.indent, self.fn, self.loops, self.in_arm, self.yields)
        planted, nm = self.parent.planted, len(self.all_methods())
        try:
            return getattr(self, rule)()
        except NoName:
            del self.buf[n:]
            self.scopes = [s for s, _ in scopes]
            for s, old in scopes:
                s.clear()
                s.update(old)
            self.indent, self.fn, self.loops, self.in_arm, self.yields = state
            self.parent.planted = planted
            del self.all_methods()[nm:]
            return None

    def line_stmt(self, text, ex):
        n = self.emit(text)

        def run(st, fr):
            fr.line = n
            return ex(st, fr)
        return run

    def s_decl(self):
        ty = self.ty()
        if not self.nameable(ty):
            return None
        zero = {"int": 0, "real": 0.0, "bool": False, "texto": ""}
        if ty in zero and self.chance(0.2):
            names = []
            for _ in range(self.rng.choice([1, 1, 2])):
                nm = self.fresh()
                names.append(self.declare(nm, ty))
            puts = [self.store(v) for v in names]

            def ex(st, fr):
                for p in puts:
                    p(st, fr, zero[ty])
            return self.line_stmt(f"{', '.join(v.name for v in names)}: {ty}", ex)
        nm = self.fresh()
        # the new variable hides others before its initial value is computed
        hidden = [s.pop(nm) for s in [self.scopes[-1]] if nm in s]
        self.scopes.append({nm: Builtin("?")})
        e = self.want(ty, 2)
        self.scopes.pop()
        v = self.declare(nm, ty)
        put = self.store(v)
        return self.line_stmt(f"{nm}: {self.tystr(ty)} = {e.text}", lambda st, fr: put(st, fr, e.ev(st, fr)))

    def s_assign(self):
        vs = [v for v in self.syms("var") if not v.protected and v.mod == self.name]
        if not vs:
            return None
        v = self.rng.choice(vs)
        e = self.want(v.ty, 3)
        put = self.store(v)
        return self.line_stmt(f"{v.name} = {e.text}", lambda st, fr: put(st, fr, e.ev(st, fr)))

    def s_chain(self):
        vs = [v for v in self.syms("var") if not v.protected and v.mod == self.name]
        c = [(a, b) for a in vs for b in vs if a is not b and promotes(b.ty, a.ty)]
        if not c:
            return None
        a, b = self.rng.choice(c)
        e = self.want(b.ty, 2)
        pa, pb = self.store(a), self.store(b)

        def ex(st, fr):
            x = e.ev(st, fr)
            pb(st, fr, x)
            pa(st, fr, convert(x, b.ty, a.ty))
        return self.line_stmt(f"{a.name} = {b.name} = {e.text}", ex)

    def s_compound(self):
        vs = [v for v in self.syms("var") if v.ty in ("int", "real") and not v.protected and v.mod == self.name]
        rs = [(v, n) for v in self.syms("var") if isinstance(v.ty, tuple) and v.ty[0] == "reg"
              for n, t in v.ty[1].fields.items() if t in ("int", "real")]
        xs = [v for v in self.syms("var") if v.ty in (("vec", "int"), ("vec", "real"))]
        c = [("v", x) for x in vs] + [("f", x) for x in rs] + [("i", x) for x in xs]
        if not c:
            return None
        k, t = self.rng.choice(c)
        op = self.rng.choice("+-*/")
        ty = t.ty if k == "v" else t[0].ty[1].fields[t[1]] if k == "f" else t.ty[1]
        if op == "/" and ty == "int":
            op = "-"
        e = self.expr("int" if ty == "int" else self.rng.choice(["int", "real"]), 2)
        if k == "v":
            tv, put = self.var(t), self.store(t)

            def ex(st, fr):
                x = tv.ev(st, fr)
                put(st, fr, arith(op, x, e.ev(st, fr)))
            text = t.name
        elif k == "f":
            v, n = t
            tv = self.var(v)

            def ex(st, fr):
                o = tv.ev(st, fr)
                x = o.f[n]
                o.f[n] = arith(op, x, e.ev(st, fr))
            text = f"{v.name}.{n}"
        else:
            tv = self.var(t)
            i = self.rng.choice([0, 0, 1])

            def ex(st, fr):
                o = tv.ev(st, fr)
                x = self.vget(o, i)
                y = arith(op, x, e.ev(st, fr))
                self.vget(o, i)
                o[i] = y
            text = f"{t.name}[{i}]"
        return self.line_stmt(f"{text} {op}= {e.text}", ex)

    def s_show(self):
        ty = self.rng.choice(["int", "real", "bool", "texto", "int", "real", ("vec", "int"), ("vec", "texto"), "indef"])
        if self.chance(0.25):
            vs = [v for v in self.syms("var") if self.showable(v.ty)]
            if vs:
                ty = self.rng.choice(vs).ty
        e = self.expr(ty, 3)
        w = self.rng.random()
        if w < 0.85 or not (self.sees("escrevaln") and self.sees("escreva")):
            return self.line_stmt(f"mostra {e.text}", lambda st, fr: st.out.append(show(e.ev(st, fr)) + "\n"))
        if w < 0.93:
            return self.line_stmt(f"escrevaln({e.text})", lambda st, fr: st.out.append(show(e.ev(st, fr)) + "\n"))
        a = self.line_stmt(f"escreva({e.text})", lambda st, fr: st.out.append(show(e.ev(st, fr))))
        b = self.line_stmt("escrevaln('')", lambda st, fr: st.out.append("\n"))
        return lambda st, fr: (a(st, fr), b(st, fr), None)[2]

    def showable(self, t):
        if isinstance(t, str):
            return True
        if t[0] in ("vec", "opt"):
            return self.showable(t[1])
        return t[0] == "reg"

    def s_indexset(self):
        vs = [v for v in self.syms("var") if isinstance(v.ty, tuple) and v.ty[0] == "vec"]
        if not vs:
            return None
        v = self.rng.choice(vs)
        tv = self.var(v)
        i = self.small_int(1)
        if isinstance(v.ty[1], tuple) and v.ty[1][0] == "vec" and self.chance(0.5):
            j = self.small_int(1)
            e = self.want(v.ty[1][1], 2)

            def ex(st, fr):
                o = self.vget(tv.ev(st, fr), i.ev(st, fr))
                n = j.ev(st, fr)
                x = e.ev(st, fr)
                self.vget(o, n)
                o[n] = x
            return self.line_stmt(f"{v.name}[{i.text}][{j.text}] = {e.text}", ex)
        e = self.want(v.ty[1], 2)

        def ex(st, fr):
            o = tv.ev(st, fr)
            n = i.ev(st, fr)
            x = e.ev(st, fr)
            self.vget(o, n)
            o[n] = x
        return self.line_stmt(f"{v.name}[{i.text}] = {e.text}", ex)

    def s_anexa(self):
        vs = [v for v in self.syms("var") if isinstance(v.ty, tuple) and v.ty[0] == "vec"]
        if not vs or not self.sees("anexa"):
            return None
        v = self.rng.choice(vs)
        tv = self.var(v)
        e = self.want(v.ty[1], 2)

        def ex(st, fr):
            o = tv.ev(st, fr)
            x = e.ev(st, fr)
            if len(o) > 60:
                raise Budget()
            o.append(x)
        return self.line_stmt(f"anexa({v.name}, {e.text})", ex)

    def s_fieldset(self):
        vs = [v for v in self.syms("var") if isinstance(v.ty, tuple) and v.ty[0] == "reg" and v.ty[1].fields]
        if not vs:
            return None
        v = self.rng.choice(vs)
        tv = self.var(v)
        n = self.rng.choice(list(v.ty[1].fields))
        t = v.ty[1].fields[n]
        if isinstance(t, tuple) and t[0] == "reg" and t[1].fields and self.chance(0.5):
            m = self.rng.choice(list(t[1].fields))
            e = self.want(t[1].fields[m], 2)

            def ex(st, fr):
                o = tv.ev(st, fr).f[n]
                o.f[m] = e.ev(st, fr)
            return self.line_stmt(f"{v.name}.{n}.{m} = {e.text}", ex)
        e = self.want(t, 2)

        def ex(st, fr):
            o = tv.ev(st, fr)
            o.f[n] = e.ev(st, fr)
        return self.line_stmt(f"{v.name}.{n} = {e.text}", ex)

    def s_exprst(self):
        c = self.fns_of("vazio") + self.fns_of("int")
        if not c:
            e = self.expr("int", 2)
            if e.kind not in ("call", "binop"):
                return None
            return self.line_stmt(e.text, lambda st, fr: (e.ev(st, fr), None)[1])
        f, t = self.rng.choice(c)
        e = self.call_fn(f, t, 2)
        return self.line_stmt(e.text, lambda st, fr: (e.ev(st, fr), None)[1])

    def s_loopctl(self):
        w = self.rng.choice(["quebra", "continua"])
        c = self.expr("bool", 1)
        r = ("brk",) if w == "quebra" else ("cont",)
        n = self.emit(f"se {c.text} entao")
        self.emit("   " + w)
        self.emit("fim")

        def ex(st, fr):
            fr.line = n
            return r if c.ev(st, fr) else None
        return ex

    def s_early(self):
        e = self.want(self.fn.ret, 2) if self.fn.ret != "vazio" else None
        c = self.expr("bool", 1)
        n = self.emit(f"se {c.text} entao")
        m = self.emit("   retorna" + (f" {e.text}" if e else ""))
        self.emit("fim")

        def ex(st, fr):
            fr.line = n
            if c.ev(st, fr):
                fr.line = m
                return ("ret", e.ev(st, fr) if e else False)
        return ex

    def s_se(self):
        c = self.expr("bool", 2)
        arms = [(self.emit(f"se {c.text} entao"), c, self.block(self.rng.choice([0, 1, 2])))]
        for _ in range(self.many([0, 0, 1, 2])):
            c = self.expr("bool", 2)
            arms.append((self.emit(f"senaose {c.text} entao"), c, self.block(self.rng.choice([1, 2]))))
        els = None
        if self.chance(0.5):
            self.emit("senao")
            els = self.block(self.rng.choice([1, 2]))
        self.emit("fim")

        def ex(st, fr):
            for n, c, b in arms:
                fr.line = n
                if c.ev(st, fr):
                    return self.exec(b, st, fr)
            if els is not None:
                return self.exec(els, st, fr)
        return ex

    def s_enquanto(self):
        i = self.declare(self.fresh(), "int", protected=True)
        put, get = self.store(i), self.var(i)
        k = self.rng.choice([0, 1, 2, 3, 4])
        init = self.line_stmt(f"{i.name}: int = 0", lambda st, fr: put(st, fr, 0))
        extra = self.expr("bool", 1) if self.chance(0.3) else None
        n = self.emit(f"enquanto {i.name} < {k}" + (f" e {self.par(extra, 5)}" if extra else "") + " faca")
        if extra:
            # `a < k e b` groups as `a < (k e b)`: write it again, grouped
            self.buf[-1] = "   " * self.indent + f"enquanto ({i.name} < {k}) e {self.par(extra, 5)} faca"
        self.scopes.append({})
        self.indent += 1
        self.loops += 1
        m = self.emit(f"{i.name} = {i.name} + 1")
        self.indent -= 1
        body = self.block(self.rng.choice([1, 2, 3]), self.scopes.pop())
        self.loops -= 1
        self.emit("fim")

        def ex(st, fr):
            init(st, fr)
            while True:
                fr.line = n
                st.tick(2)
                a = get.ev(st, fr) < k
                if extra:
                    b = extra.ev(st, fr)
                    a = a and b
                if not a:
                    return None
                put(st, fr, get.ev(st, fr) + 1)
                r = self.exec(body, st, fr)
                if r and r[0] == "brk":
                    return None
                if r and r[0] == "ret":
                    return r
        return ex

    def s_para(self):
        nm = self.fresh()
        lo, hi = self.rng.choice([0, 0, 1, 5]), self.rng.choice([0, 1, 3, 4, 6])
        a = E(str(lo), ATOM, "int", lambda st, fr: lo) if self.chance(0.8) else self.expr("int", 1)
        b = E(str(hi), ATOM, "int", lambda st, fr: hi) if self.chance(0.7) else self.expr("int", 1)
        # the bound is computed again before each turn, with the loop variable in sight of the body only
        inc = self.rng.choice([None, None, 1, 2, 3])
        text = f"para {nm} de {a.text}..{b.text}" + (f" inc {inc}" if inc else "") + " faca"
        if text.count("..") != 1:
            return None
        n = self.emit(text)
        sc = {}
        v = Var(nm, "int", glob=False, protected=True, mod=self.name)
        sc[nm] = v
        self.loops += 1
        body = self.block(self.rng.choice([1, 2, 2]), sc)
        self.loops -= 1
        self.emit("fim")

        def ex(st, fr):
            fr.line = n
            fr.vars[v] = a.ev(st, fr)
            while True:
                fr.line = n
                st.tick(2)
                if not fr.vars[v] < b.ev(st, fr):
                    return None
                r = self.exec(body, st, fr)
                if r and r[0] == "brk":
                    return None
                if r and r[0] == "ret":
                    return r
                fr.line = n
                fr.vars[v] = fit(fr.vars[v] + (inc or 1))
        return ex

    def s_escolha(self):
        ty = self.rng.choice(["int", "texto"])
        e = self.expr(ty, 2)
        n = self.emit(f"escolha {e.text}:")
        cases = []
        self.indent += 1
        for _ in range(self.many([0, 1, 2, 3])):
            c = self.expr(ty, 1)
            cases.append((self.emit(f"caso {c.text}:"), c, self.block(self.rng.choice([1, 2]))))
        els = None
        if self.chance(0.6):
            self.emit("senao:")
            els = self.block(self.rng.choice([1, 2]))
        self.indent -= 1
        self.emit("fim")

        def ex(st, fr):
            fr.line = n
            v = e.ev(st, fr)
            for m, c, b in cases:
                fr.line = m
                if c.ev(st, fr) == v:
                    return self.exec(b, st, fr)
            if els is not None:
                return self.exec(els, st, fr)
        return ex

    # ---------------------------------------------------------------- patterns
    def pat_lit(self, ty):
        if ty == "int":
            v = self.rng.choice([0, 1, 2, 3, 5, 7, 10])
            return str(v), v
        v = self.rng.choice(["", "a", "olá", "123", "é", "0", "😀"])
        return f"'{v}'", v

    def pattern(self, ty, d, binds, exact=False):
        """(text, test(value) -> dict | None)"""
        r = self.rng.random()
        if isinstance(ty, tuple) and ty[0] == "uni" and d > 0 and r < 0.75:
            n = self.rng.choice(list(ty[1].variants))
            return self.variant_pat(ty[1], n, [self.pattern(p, d - 1, binds) for p in ty[1].variants[n]])
        if ty in ("int", "texto") and r < 0.4:
            t, x = self.pat_lit(ty)
            return t, lambda v: {} if v == x else None
        return self.bind_pat(ty, binds)

    def variant_pat(self, uni, n, subs):
        text = f"{self.tystr(('uni', uni), True)}::{n}" + (f"({', '.join(s[0] for s in subs)})" if subs else "")

        def test(v):
            if v.name != n:
                return None
            out = {}
            for s, a in zip(subs, v.args):
                m = s[1](a)
                if m is None:
                    return None
                out.update(m)
            return out
        return text, test

    def bind_pat(self, ty, binds):
        # `_` is a name like the others: once per pattern
        c = [n for n in self.near(NAMES) if n not in [b.name for b in binds]] or [f"b{len(binds)}"]
        if self.chance(0.3) and "_" not in [b.name for b in binds]:
            c = ["_"]
        nm = self.rng.choice(c)
        var = Var(nm, ty, glob=False, protected=False, mod=self.name)
        binds.append(var)
        if nm == "_":
            # not read: the parser gives the alternative of `se iguala` this name too
            return nm, lambda v: {}
        return nm, lambda v: {var: v}

    def cover(self, ty, d):
        """Patterns (builders) that cover every value of ty."""
        if isinstance(ty, tuple) and ty[0] == "uni" and d > 0 and self.chance(0.8):
            out = []
            for n, ps in ty[1].variants.items():
                rows = [[]]
                for p in ps:
                    subs = self.cover(p, d - 1) if len(rows) < 4 else [lambda b, p=p: self.bind_pat(p, b)]
                    rows = [r + [s] for r in rows for s in subs]
                for row in rows:
                    out.append(lambda b, n=n, row=row: self.variant_pat(ty[1], n, [s(b) for s in row]))
            if len(out) <= 6:
                return out
        if ty in ("int", "texto") and self.chance(0.5):
            def litp(b):
                t, x = self.pat_lit(ty)
                return t, lambda v: {} if v == x else None
            return [litp] * self.rng.choice([1, 2]) + [lambda b: self.bind_pat(ty, b)]
        return [lambda b: self.bind_pat(ty, b)]

    def arms(self, ty):
        """Patterns of an exhaustive iguala, in order."""
        ps = self.cover(ty, 2)
        if not (ty in ("int", "texto")):
            self.rng.shuffle(ps)
        for _ in range(self.rng.choice([0, 0, 1, 2])):
            ps.insert(self.rng.randrange(len(ps)), lambda b: self.pattern(ty, 2, b))
        if self.chance(0.3):
            ps.append(lambda b: self.bind_pat(ty, b))
        out = []
        for p in ps:
            binds = []
            out.append((p(binds), binds))
        return out

    def target(self):
        c = [("uni", u) for u in self.types_of("uni")] * 3 + ["int", "texto"]
        ty = self.rng.choice(c)
        e = self.expr(ty, 2)
        return ty, e

    def iguala(self, prefix, suffix, res, ty=None, e=None):
        """Emits an iguala; res is the type of the value, or "vazio"."""
        if e is None:
            ty, e = self.target()
        n0 = self.emit(f"{prefix}iguala {e.text}")
        arms = []
        self.indent += 1
        for (pt, test), binds in self.arms(ty):
            sc = {b.name: b for b in binds if b.name != "_"}
            if res != "vazio" and self.chance(0.6):
                self.scopes.append(sc)
                v = self.expr(res, 2)
                self.scopes.pop()
                if arms and self.chance(0.5) and not self.buf[-1].endswith("fim"):
                    self.buf[-1] += ","
                m = self.emit(f"{pt} => {v.text}")

                def body(st, fr, v=v, m=m):
                    fr.line = m
                    return None, v.ev(st, fr)
            else:
                self.emit(f"{pt} => faca")
                in_arm, loops = self.in_arm, self.loops
                self.yields += 1
                # retorna and produz do not go together
                self.in_arm = in_arm or res != "vazio"
                if res != "vazio":
                    self.loops = 0
                self.scopes.append(sc)
                self.indent += 1
                ss = [self.stmt() for _ in range(self.rng.choice([0, 1, 2] if res != "vazio" else [1, 2]))]
                if res != "vazio":
                    v = self.expr(res, 2)
                    m = self.emit(f"produz {v.text}")
                self.indent -= 1
                self.scopes.pop()
                self.in_arm, self.loops = in_arm, loops
                self.yields -= 1
                self.emit("fim")
                if res != "vazio":
                    def body(st, fr, ss=ss, v=v, m=m):
                        r = self.exec(ss, st, fr)
                        if r is not None:
                            return r, None
                        fr.line = m
                        return None, v.ev(st, fr)
                else:
                    def body(st, fr, ss=ss):
                        return self.exec(ss, st, fr), False
            arms.append((test, body))
        self.indent -= 1
        self.emit(f"fim{suffix}")

        def ex(st, fr):
            fr.line = n0
            v = e.ev(st, fr)
            for test, body in arms:
                m = test(v)
                if m is not None:
                    fr.vars.update(m)
                    r = body(st, fr)
                    fr.line = n0
                    return r
            raise AssertionError("not exhaustive")
        return ex

    def s_iguala(self):
        ex = self.iguala("", "", "vazio")
        return lambda st, fr: ex(st, fr)[0]

    def s_igualaexp(self):
        vs = [v for v in self.syms("var") if v.ty in SCALARS and not v.protected and v.mod == self.name]
        if not vs:
            return None
        v = self.rng.choice(vs)
        put = self.store(v)
        ex = self.iguala(f"{v.name} = ", "", v.ty)

        def run(st, fr):
            r, x = ex(st, fr)
            if r is not None:
                return r
            put(st, fr, x)
        return run

    def s_seiguala(self):
        ty, e = self.target()
        binds = []
        pt, test = self.pattern(ty, 2, binds)
        n = self.emit(f"se iguala {e.text} => {pt} entao")
        self.indent += 1
        self.scopes.append({b.name: b for b in binds if b.name != "_"})
        th = [self.stmt() for _ in range(self.rng.choice([1, 2]))]
        self.scopes.pop()
        self.indent -= 1
        els = []
        if self.chance(0.5):
            self.emit("senao")
            els = self.block(self.rng.choice([1, 2]))
        self.emit("fim")

        def ex(st, fr):
            fr.line = n
            m = test(e.ev(st, fr))
            if m is None:
                return self.exec(els, st, fr)
            fr.vars.update(m)
            return self.exec(th, st, fr)
        return ex

    # ------------------------------------------------------------ declarations
    def d_registo(self):
        nm = self.fresh(RNAMES, self.scopes[0])
        reg = Reg(nm, self.name)
        reg.open = True
        self.emit(f"registo {nm}")
        fields = {}
        for f in self.rng.sample(self.near(FIELDS), self.many([1, 2, 3])):
            fields[f] = self.ty(1)
            self.emit(f"   {f}: {self.tystr(fields[f])}")
        self.emit("fim")
        reg.fields = fields
        reg.open = False
        self.scopes[0][nm] = reg

    def d_uniao(self):
        nm = self.fresh(UNAMES, self.scopes[0])
        uni = Uni(nm, self.name)
        self.emit(f"uniao {nm}")
        vs = {}
        names = self.rng.sample(self.near(VNAMES), self.many([1, 2, 3, 4]))
        uni.open = False
        for i, v in enumerate(names):
            ps = []
            for _ in range(self.many([0, 0, 1, 2, 3])):
                r = self.rng.random()
                us = self.types_of("uni")
                if r < 0.25 and i > 0:
                    self.scopes[0][nm] = uni
                    ps.append(("uni", uni))
                elif r < 0.45 and us:
                    ps.append(("uni", self.rng.choice(us)))
                else:
                    ps.append(self.ty(1))
            if i == 0:
                ps = [p for p in ps if p != ("uni", uni)]
            vs[v] = ps
        uni.variants = vs
        self.scopes[0][nm] = uni
        for i, v in enumerate(names):
            ps = vs[v]
            self.emit("   " + v + (f"({', '.join(self.tystr(p) for p in ps)})" if ps else "") + ("," if i < len(names) - 1 else ""))
        self.emit("fim")

    def d_func(self):
        nm = self.fresh(FNAMES, self.scopes[0])
        ret = self.rng.choice(["vazio", "int", "int", "real", "texto", "bool", self.ty(1)])
        ps = [Var(p, self.ty(1), glob=False, mod=self.name)
              for p in self.rng.sample(self.near(NAMES), self.many([0, 1, 1, 2, 3]))]
        fn = Fn(nm, ps, ret, self.name)
        self.scopes[0][nm] = fn
        head = f"func {nm}({', '.join(f'{p.name}: {self.tystr(p.ty)}' for p in ps)})" + ("" if ret == "vazio" else f": {self.tystr(ret)}")
        self.emit(head)
        self.fn_body(fn, {p.name: p for p in ps})
        fn.open = False

    def d_recursive(self):
        nm = self.fresh(FNAMES, self.scopes[0])
        p = Var("n", "int", mod=self.name, protected=True)
        fn = Fn(nm, [p], "int", self.name)
        self.scopes[0][nm] = fn
        self.emit(f"func {nm}(n: int): int")
        self.indent += 1
        a = self.emit("se n <= 0 entao")
        self.indent += 1
        self.scopes.append({"n": p})
        base = self.expr("int", 1)
        b = self.emit(f"retorna {base.text}")
        self.indent -= 1
        self.emit("fim")
        self.fn = fn
        pre = [self.stmt() for _ in range(self.rng.choice([0, 1]))]
        self.fn = None
        loc = self.expr("int", 1)
        op = self.rng.choice("+-*")
        c = self.emit(f"retorna {self.par(loc, BIN[op])} {op} {nm}(n - 1)")
        self.scopes.pop()
        self.indent -= 1
        self.emit("fim")

        def body(st, fr):
            fr.line = a
            if fr.vars[p] <= 0:
                fr.line = b
                return ("ret", base.ev(st, fr))
            r = self.exec(pre, st, fr)
            if r:
                return r
            fr.line = c
            x = loc.ev(st, fr)
            n = fit(fr.vars[p] - 1)
            if n > 30:
                raise Budget()
            return ("ret", arith(op, x, call(st, fn, [n])))
        fn.body = body
        fn.open = False

    def fn_body(self, fn, scope, ind=True):
        self.fn, loops, self.loops = fn, self.loops, 0
        self.scopes.append(scope)
        self.indent += 1
        ss = [self.stmt() for _ in range(self.rng.choice([0, 1, 2, 3]))]
        if fn.ret != "vazio":
            ss.append(self.ret_tail(fn.ret, 2))
        self.indent -= 1
        self.scopes.pop()
        self.emit("fim")
        self.fn, self.loops = None, loops
        fn.body = lambda st, fr: self.exec(ss, st, fr)

    def ret_tail(self, ty, d):
        """A statement through which every path returns."""
        r = self.rng.random()
        if d and r < 0.2:
            c = self.expr("bool", 1)
            n = self.emit(f"se {c.text} entao")
            parts = []
            for w in ("senao", "fim"):
                self.scopes.append({})
                self.indent += 1
                parts.append(self.ret_tail(ty, d - 1))
                self.indent -= 1
                self.scopes.pop()
                self.emit(w)

            def ex(st, fr):
                fr.line = n
                return parts[0 if c.ev(st, fr) else 1](st, fr)
            return ex
        if d and r < 0.3:
            e = self.expr("int", 1)
            n = self.emit(f"escolha {e.text}:")
            c = self.rng.choice([0, 1, 2])
            parts = []
            ms = []
            for w in (f"caso {c}:", "senao:"):
                ms.append(self.emit("   " + w))
                self.scopes.append({})
                self.indent += 2
                parts.append(self.ret_tail(ty, d - 1))
                self.indent -= 2
                self.scopes.pop()
            self.emit("fim")

            def ex(st, fr):
                fr.line = n
                v = e.ev(st, fr)
                return parts[0 if v == c else 1](st, fr)
            return ex
        e = self.want(ty, 2)
        return self.line_stmt(f"retorna {e.text}", lambda st, fr: ("ret", e.ev(st, fr)))

    def d_metodo(self):
        c = [("reg", r) for r in self.syms("reg") if r.mod == self.name] + [("uni", u) for u in self.syms("uni") if u.mod == self.name]
        if self.name == "m":
            c += ["int", "texto"]
        if not c:
            return
        ty = self.rng.choice(c)
        used = {f.name for f in self.all_methods() if f.self_ty == ty}
        if isinstance(ty, tuple) and ty[0] == "reg":
            used |= set(ty[1].fields)
        names = [n for n in self.near(METHODS) if n not in used]
        nm = self.rng.choice(names)
        ret = self.rng.choice(["vazio", "int", "real", "texto", "bool", "int"])
        ps = [Var(p, self.ty(1), glob=False, mod=self.name) for p in self.rng.sample(self.near(NAMES), self.many([0, 1, 2]))]
        me = Var("alvo", ty, glob=False, protected=True, mod=self.name)
        fn = Fn(nm, [me] + ps, ret, self.name)
        fn.self_ty = ty
        self.all_methods().append(fn)
        self.emit(f"met {tystr0(ty)}::{nm}({', '.join(['alvo'] + [f'{p.name}: {self.tystr(p.ty)}' for p in ps])})" + ("" if ret == "vazio" else f": {self.tystr(ret)}"))
        self.fn_body(fn, {"alvo": me, **{p.name: p for p in ps}})
        fn.open = False

    # ---------------------------------------------------------------- programs
    def write(self):
        """The declarations and statements of this module."""
        if self.bad is not None:
            self.prelude()
        for _ in range(self.rng.randint(1, self.size)):
            d = self.rng.random()
            if self.profile and "decls" in self.profile:
                lo, hi = self.profile["decls"]
                d = lo + d * (hi - lo)
            if d < 0.13:
                self.attempt("d_registo")
            elif d < 0.27:
                self.attempt("d_uniao")
            elif d < 0.42:
                self.attempt("d_func")
            elif d < 0.47:
                self.attempt("d_recursive")
            elif d < 0.57:
                self.attempt("d_metodo")
            else:
                self.main_ex.append(self.stmt())
            if self.chance(0.1):
                self.emit(self.rng.choice(["", "# comentário", ""]))
        self.force_plant()
        return self

    def prelude(self):
        """Something of each kind, so that there is enough to misuse."""
        hook, self.bad = self.bad, None
        for d in self.rng.sample(["d_registo", "d_uniao", "d_uniao", "d_func", "d_func", "d_metodo"], self.rng.choice([2, 4, 6])):
            self.attempt(d)
        kinds = [("vec", self.rng.choice(SCALARS)), ("opt", self.rng.choice(SCALARS)), "int", "real", "texto", "bool"]
        kinds += [("reg", r) for r in self.types_of("reg")[:1]] + [("uni", u) for u in self.types_of("uni")[:1]]
        for t in self.rng.sample(kinds, min(len(kinds), self.rng.choice([1, 4, 6]))):
            self.wanted = t
            ex = self.attempt("p_var")
            if ex is not None:
                self.main_ex.append(ex)
        self.bad = hook

    def p_var(self):
        t = self.wanted
        e = self.want(t, 1)
        nm = self.fresh()
        text = self.tystr(t)
        put = self.store(self.declare(nm, t))
        return self.line_stmt(f"{nm}: {text} = {e.text}", lambda st, fr: put(st, fr, e.ev(st, fr)))

    def plant(self):
        if self.bad is not None and self.parent.planted is None:
            self.bad(self, False)

    def force_plant(self):
        if self.bad is not None and self.parent.planted is None:
            self.bad(self, True)

    def text(self):
        return "\n".join(self.buf) + "\n"


class Program:
    """A main module and the modules it imports."""

    def __init__(self, seed, size=8, bad=None, modules=0, bad_module=False, profile=None):
        rng = random.Random(f"{seed} modules")
        self.gens = []
        self.main = Gen(seed, size, bad if not bad_module else None, profile=profile)
        self.order = []
        names = ["p", "q", "util/r", "s"][:modules]
        for i, n in enumerate(names):
            g = Gen(f"{seed}-{n}", max(2, size // 2), None, name=n, parent=self.main, profile=profile)
            self.gens.append(g)
        if bad_module and self.gens:
            rng.choice(self.gens).bad = bad
        loaded = []

        def use(g, avail):
            """Writes the imports of g, among the modules that come before it."""
            picked = [h for h in avail if rng.random() < 0.6] if avail else []
            if g is self.main:
                picked = list(dict.fromkeys(picked + [h for h in avail if not any(h in x.imports for x in self.gens)]))
            rng.shuffle(picked)
            for h in picked:
                self.import_(g, h, rng)
            return picked
        for i, g in enumerate(self.gens):
            use(g, self.gens[:i])
            g.write()
        use(self.main, self.gens)
        self.main.write()
        self.seen = loaded

    def import_(self, g, h, rng):
        items = {n: s for n, s in h.scopes[0].items() if s.kind != "builtin"}
        for _ in range(5):
            mode = rng.choice(["global", "scoped", "item"])
            # names that would be in use already
            if mode == "global":
                clash = [n for n, s in items.items() if n in g.scopes[0] and g.scopes[0][n] is not s]
                if clash:
                    continue
                g.emit(f'usa "{h.name}"')
                g.scopes[0].update(items)
                break
            if mode == "scoped":
                al = g.fresh(["m1", "mod", "import", "k"], g.scopes[0])
                q = rng.choice("'\"")
                g.emit(f"usa {q}{h.name}{q} => {al}")
                g.scopes[0][al] = Mod(al, h)
                break
            own = [n for n, s in items.items() if s.kind != "mod"]
            pick = [n for n in own if rng.random() < 0.6 and (n not in g.scopes[0] or g.scopes[0][n] is items[n])]
            if not pick:
                continue
            g.emit(f'usa "{h.name}" => [{", ".join(pick)}]')
            for n in pick:
                g.scopes[0][n] = items[n]
            break
        else:
            al = g.fresh(["m1", "mod", "import", "k"], g.scopes[0])
            g.emit(f'usa "{h.name}" => {al}')
            g.scopes[0][al] = Mod(al, h)
        g.imports.append(h)

    def load_order(self):
        """Modules in the order in which they are initialised."""
        out = []

        def go(g):
            for h in g.imports:
                if h not in out:
                    go(h)
            if g is not self.main and g not in out:
                out.append(g)
        go(self.main)
        return out

    def files(self):
        d = {"m.ama": self.main.text()}
        for g in self.gens:
            d[g.name + ".ama"] = g.text()
        return d

    def run(self):
        """(stdout, stderr) or None when the program takes too long."""
        st = State()
        fr = None
        try:
            for g in self.load_order() + [self.main]:
                fr = Frame("_inicio_")
                fr.label = None
                st.frames = [fr]
                for s in g.main_ex:
                    st.tick()
                    s(st, fr)
            return "".join(st.out), ""
        except AmaErr as e:
            err = ""
            fs = st.frames[::-1]
            if len(fs) > 1:
                err = "Fluxo de execução: \n" + "".join(f"    Linha {f.line}, na função {f.label}\n" for f in fs[:-1])
            return "".join(st.out), err + f"Erro na linha {fs[-1].line}: {e}."
        except (Budget, RecursionError, OverflowError):
            return None
