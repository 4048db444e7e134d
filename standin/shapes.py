"""Programs with special operands and bodies: literals, the same variable twice, calls with effects,
empty blocks, bounds that are equal or reversed.  Each statement knows what it prints."""
import math
import random

from . import progs
from .lang import AmaErr, arith, cast, show

PRE = """func ti(n: int): int
    escrevaln(f"i{n}")
    retorna n
fim
func tr(n: real): real
    escrevaln(f"r{n}")
    retorna n
fim
func tb(n: bool): bool
    escrevaln(f"b{n}")
    retorna n
fim
func tt(n: texto): texto
    escrevaln(f"t{n}")
    retorna n
fim
func ii(n: int): int
    retorna n
fim
func rr(n: real): real
    retorna n
fim
func bb(n: bool): bool
    retorna n
fim
func xx(n: texto): texto
    retorna n
fim
registo R
    a: int
    b: real
    c: bool
    d: texto
fim
registo Q
    r: R
    l: [int]
fim
uniao U
    I(int),
    F(real),
    B(bool),
    T(texto),
    Z
fim
met R::mi(alvo, n: int): int
    retorna n
fim
met R::mr(alvo, n: real): real
    retorna n
fim
met R::mb(alvo, n: bool): bool
    retorna n
fim
met R::mt(alvo, n: texto): texto
    retorna n
fim
func novo(): R
    escrevaln("novo")
    retorna R(a: 0, b: 0.0, c: falso, d: "")
fim
"""
NPRE = PRE.count("\n")
# variables that every place declares, and never change
VARS = """gi: int = 7
gz: int = 0
gm: int = -4
gr: real = 0.5
gh: real = 100000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000.0
go: real = gh * gh
gn: real = go - go
gb: bool = verdadeiro
gf: bool = falso
gt: texto = "a"
v: [int] = [int: 3, 0, -4, 7]
w: [real] = [real: 0.5, 2.0]
r: R = R(a: 3, b: 1.5, c: verdadeiro, d: "a")
q: Q = Q(r: R(a: 0, b: 0.0, c: falso, d: ""), l: [int: 6, 5])
m: [[int]] = [[int]: [int: 1, 2], [int: 3, 8]]
oi: int? = 9
on: real? = nulo
rs: [R] = [R: r, R(a: 8, b: 0.25, c: falso, d: "z")]
"""
ATOM, UN = 7, 5
BIN = {"==": 1, "!=": 1, "<": 2, ">": 2, "<=": 2, ">=": 2, "+": 3, "-": 3, "ou": 3, "*": 4, "/": 4, "//": 4, "%": 4, "e": 4}


class E:
    def __init__(self, text, ty, ev, prec=ATOM):
        self.text, self.ty, self.ev, self.prec = text, ty, ev, prec

    def at(self, p):
        return self.text if self.prec >= p else f"({self.text})"


def const(text, ty, v, prec=ATOM):
    return E(text, ty, lambda out: v, prec)


def effect(f, ty, text, v):
    def ev(out):
        out.append({"int": "i", "real": "r", "bool": "b", "texto": "t"}[ty] + show(v))
        return v
    return E(f"{f}({text})", ty, ev)


def binop(op, l, r):
    p = BIN[op]
    real = "real" in (l.ty, r.ty)
    ty = "bool" if op in ("==", "!=", "<", ">", "<=", ">=", "e", "ou") else "real" if real or op == "/" else "int"

    def ev(out):
        a, b = l.ev(out), r.ev(out)
        if op == "e":
            return a and b
        if op == "ou":
            return a or b
        if ty != "bool":
            x = arith(op, a, b)
            return x
        if real:
            a, b = float(a), float(b)
        return {"==": a == b, "!=": a != b, "<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}.get(op) if op in ("==", "!=") \
            else {"<": lambda: a < b, ">": lambda: a > b, "<=": lambda: a <= b, ">=": lambda: a >= b}[op]()
    if op in ("==", "!="):
        def ev(out):
            a, b = l.ev(out), r.ev(out)
            if real:
                a, b = float(a), float(b)
            return (a == b) == (op == "==")
    return E(f"{l.at(p)} {op} {r.at(p + 1)}", ty, ev, p)


def unop(op, x):
    return E(f"nao {x.at(UN)}" if op == "nao" else op + x.at(UN), x.ty,
             lambda out: (not x.ev(out)) if op == "nao" else -x.ev(out) if op == "-" else x.ev(out), UN)


def conv(x, ty):
    return E(f"{x.at(ATOM)} :> {ty}", ty, lambda out: x.ev(out) if x.ty == ty else cast(x.ev(out), ty), 6)


def operands(ty):
    if ty == "int":
        return [const(str(n), ty, n) for n in (0, 1, 2, 10)] + [
            unop("-", const("1", ty, 1)), const("gi", ty, 7), const("gz", ty, 0), const("gm", ty, -4),
            effect("ti", ty, "5", 5), effect("ti", ty, "0", 0), effect("ti", ty, "1", 1), const("v[0]", ty, 3), const("r.a", ty, 3),
            const("m[1][1]", ty, 8), const("q.l[0]", ty, 6), const("rs[1].a", ty, 8), const("oi.valor", ty, 9),
            E("r.mi(ti(4))", ty, effect("ti", ty, "4", 4).ev), const("tam(v)", ty, 4), E("oi.valor_ou(ti(1))", ty, lambda out: (out.append("i1"), 9)[1]),
            binop("+", const("1", ty, 1), const("2", ty, 2)), binop("*", effect("ti", ty, "2", 2), const("gi", ty, 7)),
            conv(effect("tr", "real", "2.5", 2.5), ty)]
    if ty == "real":
        return [const(t, ty, float(t)) for t in ("0.0", "1.0", "2.5")] + [
            unop("-", const("0.5", ty, 0.5)), const("gr", ty, 0.5), effect("tr", ty, "1.5", 1.5), effect("tr", ty, "0.0", 0.0),
            const("w[1]", ty, 2.0), const("r.b", ty, 1.5), conv(effect("ti", "int", "3", 3), ty),
            const("on.valor_ou(1.25)", ty, 1.25), const("rs[0].b", ty, 1.5),
            E("novo().b", ty, lambda out: (out.append("novo"), 0.0)[1]), const("go", ty, math.inf), const("gn", ty, math.nan),
            binop("*", const("gr", ty, 0.5), const("4", "int", 4))]
    if ty == "bool":
        return [const("verdadeiro", ty, True), const("falso", ty, False), const("gb", ty, True), const("gf", ty, False),
                effect("tb", ty, "verdadeiro", True), effect("tb", ty, "falso", False), unop("nao", effect("tb", ty, "falso", False)),
                unop("nao", const("verdadeiro", ty, True)), const("r.c", ty, True), binop(">", const("gi", "int", 7), const("7", "int", 7)),
                binop("==", effect("ti", "int", "0", 0), const("0", "int", 0))]
    return [const('""', ty, ""), const('"a"', ty, "a"), const('"0"', ty, "0"), const("gt", ty, "a"), effect("tt", ty, '"b"', "b"),
            const("r.d", ty, "a"), E('f"{gi}"', ty, lambda out: "7"), conv(const("gi", "int", 7), ty), conv(effect("ti", "int", "1", 1), ty)]


def pairs():
    """Every operator with every pair of operands."""
    num = [(a, b) for a in ("int", "real") for b in ("int", "real")]
    for op in ("+", "-", "*", "/", "//", "%", "<", ">", "<=", ">=", "==", "!="):
        for a, b in num:
            if op == "//" and "real" in (a, b):
                continue    # an integer, by its value, of type real
            for x in operands(a):
                for y in operands(b):
                    yield binop(op, x, y)
                    if BIN[op] < 3:
                        yield unop("nao", binop(op, x, y))
    for op in ("==", "!=", "e", "ou"):
        for t in ("bool", "texto")[:1 if op in ("e", "ou") else 2]:
            for x in operands(t):
                for y in operands(t):
                    yield binop(op, x, y)
    for op, ts in (("-", ("int", "real")), ("+", ("int", "real")), ("nao", ("bool",))):
        for t in ts:
            for x in operands(t):
                yield unop(op, x)
                yield unop(op, unop(op, x))
    for t in ("int", "real", "bool", "texto"):
        for x in operands(t):
            yield x
            for u in ("int", "real", "bool", "texto"):
                if not (t == "bool" and u in ("int", "real")):
                    yield conv(x, u)


WAYS = [
    "declared", "assigned", "optional", "any", "argument", "method", "receiver", "elements", "row", "field", "own field",
    "field of a call", "field of an element", "element", "element of an element", "record", "variant", "matched variant",
    "appended", "in text", "mostra", "alone", "arm", "arm block", "compared", "condition", "second condition", "loop condition",
    "subject", "choice", "case", "more", "more of a field", "as real", "index", "size", "start"]


class Fails(Exception):
    pass


class Prog:
    """A program in the making: text, and what it prints."""

    def __init__(self, rng):
        self.rng, self.lines, self.out, self.n = rng, [], [], 0

    def put(self, *lines):
        self.lines += lines

    def name(self):
        self.n += 1
        return f"x{self.n}"

    def use(self, e):
        """One of the ways to use a value; it is printed at the end."""
        out = []
        v = e.ev(out)
        s = self.into(e, v, out, self.name(), self.rng.choice(WAYS))
        self.out += out + ([s] if s is not None else [])

    def into(self, e, v, out, x, way):
        """Puts the value of `e` somewhere; gives what is printed then, and may change what was printed on the way."""
        ty, s, put = e.ty, show(v), self.put
        c, field, maker = {"int": ("i", "a", "I"), "real": ("r", "b", "F"), "bool": ("b", "c", "B"), "texto": ("t", "d", "T")}[ty]
        rec = f'R(a: {e.text if ty == "int" else 0}, b: {e.text if ty == "real" else 0}, c: {e.text if ty == "bool" else "falso"}, ' \
              f'd: {e.text if ty == "texto" else chr(34) * 2})'
        if way == "declared":
            put(f"{x}: {ty} = {e.text}", f"escrevaln({x})")
        elif way == "assigned":
            put(f"{x}: {ty}", f"{x} = {e.text}", f"escrevaln({x})")
        elif way == "optional":
            put(f"{x}: {ty}? = {e.text}", f"escrevaln({x}.valor)")
        elif way == "any":
            put(f"{x}: indef = {e.text}", f"escrevaln({x})")
        elif way == "argument":
            put(f"escrevaln({'x' * 2 if c == 't' else c * 2}({e.text}))")
        elif way == "method":
            put(f"escrevaln(r.m{c}({e.text}))")
        elif way == "receiver":
            put(f"escrevaln({rec}.m{c}({e.text}))")
            out += out
        elif way == "elements":
            put(f"{x}: [{ty}] = [{ty}: {e.text}, {e.text}]", f"escrevaln({x})")
            out += out
            return show([v, v])
        elif way == "row":
            put(f"{x}: [[{ty}]] = [[{ty}]: [{ty}: {e.text}]]", f"escrevaln({x}[0][0])")
        elif way == "field":
            put(f"q.r.{field} = {e.text}", f"escrevaln(q.r.{field})")
        elif way == "own field":
            put(f"{x}: R = novo()", f"{x}.{field} = {e.text}", f"escrevaln({x}.{field})")
            out.insert(0, "novo")
        elif way == "field of a call":
            put(f"novo().{field} = {e.text}")
            out.insert(0, "novo")
            return None
        elif way == "field of an element":
            put(f"{x}: [R] = [R: novo()]", f"{x}[0].{field} = {e.text}", f"escrevaln({x}[0].{field})")
            out.insert(0, "novo")
        elif way == "element":
            put(f"{x}: [{ty}] = vec({ty}, 2)", f"{x}[1] = {e.text}", f"escrevaln({x}[1])")
        elif way == "element of an element":
            put(f"{x}: [[{ty}]] = vec({ty}, 2, 2)", f"{x}[1][ti(0)] = {e.text}", f"escrevaln({x}[1][0])")
            out.insert(0, "i0")
        elif way == "record":
            put(f"{x}: R = {rec}", f"escrevaln({x}.{field})")
        elif way == "variant":
            put(f"{x}: U = U::{maker}({e.text})", f"iguala {x}", f"    U::{maker}(y) => escrevaln(y)", "    _ => escrevaln(0)", "fim")
        elif way == "matched variant":
            put(f"iguala U::{maker}({e.text})", "    U::Z => escrevaln(0)", f"    U::{maker}(y) => faca", "        escrevaln(y)", "    fim",
                "    _ => faca", "        escrevaln(1)", "    fim", "fim")
        elif way == "appended":
            put(f"{x}: [{ty}] = [{ty}:]", f"anexa({x}, {e.text})", f"escrevaln({x})")
            return show([v])
        elif way == "in text" and '"' not in e.text:
            put(f'escrevaln(f"a{{{e.text}}}b{{1}}")')
            return f"a{s}b1"
        elif way == "mostra":
            put(f"mostra {e.text}")
        elif way == "alone":
            put(e.text)
            return None
        elif way == "arm":
            put(f"{x}: {ty} = iguala gi", "    0 => " + {"int": "5", "real": "5.5", "bool": "falso", "texto": "'q'"}[ty], f"    _ => {e.text}", "fim",
                f"escrevaln({x})")
        elif way == "arm block":
            put(f"{x}: {ty} = iguala gi", f"    7 => faca", f"        produz {e.text}", "    fim",
                "    _ => " + {"int": "5", "real": "5.5", "bool": "falso", "texto": "'q'"}[ty], "fim", f"escrevaln({x})")
        elif way == "compared":
            put(f"escrevaln({e.at(2)} == {e.at(2)})")
            out += out
            return show(v == v)
        elif ty == "bool" and way == "condition":
            put(f"se {e.text} entao", "    escrevaln(1)", "senao", "    escrevaln(2)", "fim")
            return "1" if v else "2"
        elif ty == "bool" and way == "second condition":
            put("se gf entao", "    escrevaln(0)", f"senaose {e.text} entao", "    escrevaln(1)", "senao", "    escrevaln(2)", "fim")
            return "1" if v else "2"
        elif ty == "bool" and way == "loop condition":
            put(f"enquanto {e.text} faca", "    escrevaln(1)", "    quebra", "fim")
            return "1" if v else None
        elif ty in ("int", "texto") and way == "subject":
            put(f"iguala {e.text}", "    0 => escrevaln(10)" if ty == "int" else "    'a' => escrevaln(10)", "    y => escrevaln(y)", "fim")
            return "10" if v in (0, "a") else s
        elif ty in ("int", "texto") and way == "choice":
            put(f"escolha {e.text}:", "    caso 0:" if ty == "int" else "    caso 'a':", "        escrevaln(10)", "    senao:", "        escrevaln(11)", "fim")
            return "10" if v in (0, "a") else "11"
        elif ty in ("int", "texto") and way == "case":
            put("escolha gz:" if ty == "int" else "escolha gt:", f"    caso {e.text}:", "        escrevaln(10)", "    senao:", "        escrevaln(11)", "fim")
            return "10" if v in (0, "a") else "11"
        elif ty in ("int", "real") and way == "more":
            put(f"{x}: {ty} = 1", f"{x} += {e.text}", f"escrevaln({x})")
            return show(arith("+", 1 if ty == "int" else 1.0, v))
        elif ty in ("int", "real") and way == "more of a field":
            put(f"{x}: R = novo()", f"{x}.{field} -= {e.text}", f"escrevaln({x}.{field})")
            out.insert(0, "novo")
            return show(arith("-", 0 if ty == "int" else 0.0, v))
        elif ty == "int" and way == "as real":
            put(f"{x}: real = {e.text}", f"escrevaln({x} / 1)")
            return show(float(v))
        elif ty == "int" and way == "index" and 0 <= v < 4:
            put(f"escrevaln(v[{e.text}])")
            return show([3, 0, -4, 7][v])
        elif ty == "int" and way == "size" and 0 <= v < 4:
            put(f"escrevaln(vec(int, {e.text}))")
            return show([0] * v)
        elif ty == "int" and way == "start" and -5 < v < 12:
            put(f"para y de {e.text}..12 faca", "    escrevaln(y)", "    quebra", "fim")
        else:
            put(f"escrevaln({e.text})")
        return s

    # ------------------------------------------------------------ statements
    def cond(self):
        return self.rng.choice(operands("bool"))

    def body(self, d, loop):
        """(lines, run(out) -> None | 'brk' | 'cnt' | 'ret')"""
        k = self.rng.choice([0, 0, 1, 1, 2])
        parts = [self.stmt(d - 1, loop) for _ in range(k)]
        return ["    " + l for p in parts for l in p[0]], lambda out: next((s for s in (p[1](out) for p in parts) if s), None)

    def stmt(self, d, loop):
        r = self.rng
        k = r.choice(["print", "print", "use", "ctl" if loop else "print"] + (["se", "se", "enq", "para", "esc"] if d > 0 else []))
        if k == "print":
            self.n += 1
            m = f"p{self.n}"
            return [f'escrevaln("{m}")'], lambda out: out.append(m)
        if k == "use":
            e = r.choice(operands(r.choice(["int", "real", "bool", "texto"])))

            def run(out):
                e.ev(out)
            return [e.text], run
        if k == "ctl":
            w = r.choice(["quebra", "continua"])
            return [w], lambda out: "brk" if w == "quebra" else "cnt"
        if k == "se":
            arms = [(self.cond(), self.body(d, loop)) for _ in range(r.choice([1, 1, 2, 3]))]
            other = self.body(d, loop) if r.random() < 0.5 else None
            ls = []
            for i, (c, b) in enumerate(arms):
                ls += [("senaose " if i else "se ") + c.text + " entao"] + b[0]
            if other:
                ls += ["senao"] + other[0]

            def run(out):
                for c, b in arms:
                    if c.ev(out):
                        return b[1](out)
                return other[1](out) if other else None
            return ls + ["fim"], run
        if k == "enq":
            i = self.name()
            n = r.choice([0, 1, 2])
            c = r.choice([None, None, "falso", "verdadeiro"])
            b = self.body(d, True)
            if c is None:
                ls = [f"{i}: int = 0", f"enquanto ti({i}) < {n} faca", f"    {i} += 1"] + b[0] + ["fim"]
            elif c == "falso":
                ls = ["enquanto falso faca"] + b[0] + ["fim"]
            else:
                ls = [f"{i}: int = 0", "enquanto verdadeiro faca", f"    {i} += 1", f"    se {i} > {n} entao", "        quebra", "    fim"] + b[0] + ["fim"]

            def run(out):
                if c == "falso":
                    return None
                at = 0
                while True:
                    if c is None:
                        out.append(f"i{at}")
                        if not at < n:
                            return None
                    at += 1
                    if c == "verdadeiro" and at > n:
                        return None
                    s = b[1](out)
                    if s == "brk":
                        return None
                    if s == "ret":
                        return s
            return ls, run
        if k == "para":
            i = self.name()
            lo, hi, inc = r.choice([0, 0, 1, 3, -2]), r.choice([0, 1, 2, 3, -2]), r.choice([None, None, 1, 2, 5])
            calls = r.random() < 0.3
            b = self.body(d, True)
            show_it = r.random() < 0.5
            t = (lambda n: f"ti({n})") if calls else str
            ls = [f"para {i} de {t(lo)}..{t(hi)}" + (f" inc {t(inc)}" if inc else "") + " faca"]
            ls += ([f"    escrevaln({i})"] if show_it else []) + b[0] + ["fim"]

            def run(out):
                def val(n):
                    if calls:
                        out.append(f"i{n}")
                    return n
                at = val(lo)
                while at < val(hi):
                    if show_it:
                        out.append(str(at))
                    s = b[1](out)
                    if s == "brk":
                        return None
                    if s == "ret":
                        return s
                    at += val(inc) if inc else 1
            return ls, run
        ty = r.choice(["int", "texto"])
        e = r.choice(operands(ty))
        cases = [(r.choice(operands(ty)), self.body(d, loop)) for _ in range(r.choice([0, 1, 2, 3]))]
        other = self.body(d, loop) if r.random() < 0.5 else None
        ls = [f"escolha {e.text}:"]
        for c, b in cases:
            ls += [f"    caso {c.text}:"] + ["    " + l for l in b[0]]
        if other:
            ls += ["    senao:"] + ["    " + l for l in other[0]]

        def run(out):
            v = e.ev(out)
            for c, b in cases:
                if c.ev(out) == v:
                    return b[1](out)
            return other[1](out) if other else None
        return ls + ["fim"], run


def place(kind, lines):
    """The statements at the top, or in a function, a method or a loop."""
    ind = ["    " + l for l in lines]
    var = VARS.rstrip().split("\n")
    if kind == "top":
        return PRE + "\n".join(var + lines) + "\n"
    if kind == "function":
        return PRE + "\n".join(["func f(): int"] + ["    " + l for l in var] + ind + ["    retorna 1", "fim", "escrevaln(f())"]) + "\n"
    if kind == "method":
        return PRE + "\n".join(["registo S", "    q: int", "fim", "met S::f(alvo, gi: int, gz: int): int"] +
                               ["    " + l for l in var if not l.startswith(("gi:", "gz:"))] + ind +
                               ["    retorna alvo.q", "fim", "s: S = S(q: 1)", "escrevaln(s.f(7, 0))"]) + "\n"
    return PRE + "\n".join(["para volta de 0..2 faca"] + ["    " + l for l in var] + ind + ["fim"]) + "\n"


KINDS = ("top", "function", "method", "loop")


def make(seed, i, what):
    """(files, expected)"""
    rng = random.Random(f"{seed}-{i}-{what}")
    p = Prog(rng)
    if what == "operands":
        es = ALL_PAIRS
        step = 30
        order = random.Random(str(seed))
        if seed not in ORDER:
            ORDER[seed] = order.sample(range(len(es)), len(es))
        idx = ORDER[seed]
        for j in idx[i * step % len(es):i * step % len(es) + step]:
            keep = list(p.lines), list(p.out)
            try:
                p.use(es[j])
            except AmaErr:
                p.lines, p.out = keep
    else:
        for _ in range(rng.choice([2, 4, 6, 8])):
            ls, run = p.stmt(3, False)
            p.put(*ls)
            run(p.out)
    kind = KINDS[i % 4]
    out = p.out * (2 if kind == "loop" else 1) + (["1"] if kind in ("function", "method") else [])
    return {"m.ama": place(kind, p.lines)}, ("".join(x + "\n" for x in out), "")


ALL_PAIRS = list(pairs())
ORDER = {}


def standin(what):
    def fn(r, tier, seed, deadline):
        vm = progs.start()
        if vm is None:
            r.errors.append("the virtual machine could not be built: " + str(progs.vmrun.why()))

        def one(i):
            files, exp = make(seed, i, what)
            w = progs.outcome(files, exp, vm is not None)
            if w:
                _, text, res = w
                res.pop("blob", None)
                return f"{what} {seed}-{i}", None, {"key": f"{what} {seed}-{i}", "what": text, "files": files, "expected": list(exp),
                                                    "observed": res, "listing": progs.listing(files)}
            return f"{what} {seed}-{i}", files["m.ama"] if i < 1 else None, None
        progs.small(r, deadline, one)
    return fn
