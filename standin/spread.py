"""C13: operations in calls and lists that are spread over several lines."""
import random
import re

from . import progs, vmrun
from .sites import small

# line -> text; the lines at which the functions fail or call are known
HEAD = """func bad(n: int): int
    retorna [int: 1][n]
fim
func q(a: int): int
    retorna 1 + bad(a)
fim
func q2(a: int, b: int): int
    k: int = q(a)
    retorna k + q(b)
fim
func s(a: int, b: int, c: int): int
    retorna a + b + c
fim
func zero(): int
    retorna 0
fim
met int::m(alvo, a: int): int
    retorna alvo + bad(a)
fim
met int::mm(alvo, a: int, b: int): int
    retorna alvo + a + b
fim
registo R
    a: int
    b: int
fim
v: [int] = [int: 0, 0, 0]
x: int = 0
"""
FIRST = HEAD.count("\n") + 1


class Text:
    """A program as it is written."""

    def __init__(self, rng):
        self.rng, self.out, self.line = rng, [], FIRST

    def put(self, t):
        self.out.append(t)
        self.line += t.count("\n")

    def nl(self, p=.45):
        while self.rng.random() < p:
            self.put(self.rng.choice(["\n", "\n   ", "  # nota\n  ", "\n\n"]))
            p /= 3


class N:
    def __init__(self, kind, *kids, fails=False, **kw):
        self.kind, self.kids, self.fails = kind, kids, fails
        self.__dict__.update(kw)


def tree(rng, d):
    if d == 0 or rng.random() < .12:
        return N(rng.choice(["lit", "x", "zero"]))
    k = rng.choice(["bad", "q", "q2", "s", "s", "m", "mm", "rec", "idx", "add", "div", "par", "tam"])
    n = {"bad": 0, "q": 0, "q2": 0, "s": 3, "m": 1, "mm": 3, "rec": 2, "idx": 2, "add": 2, "div": 1, "par": 1, "tam": 2}[k]
    return N(k, *[tree(rng, d - 1) for _ in range(n)], order=rng.random() < .5)


def nodes(t):
    """In the order of evaluation."""
    for k in t.kids:
        yield from nodes(k)
    yield t


def write(T, t):
    """Writes t; notes at each node on which lines its operation may be said to be."""
    start = T.line
    lines = None

    def args(*parts):
        T.put("(")
        T.nl()
        for i, p in enumerate(parts):
            if i:
                T.nl(.2)
                T.put(",")
                T.nl()
                T.put(" ")
            if isinstance(p, tuple):
                T.put(p[0] + ": ")
                p = p[1]
            write(T, p) if isinstance(p, N) else T.put(p)
        T.nl()
        T.put(")")
    f = t.fails
    k = t.kind
    if k == "lit":
        T.put(str(T.rng.randrange(10)))
    elif k == "x":
        T.put("nope" if f else "x")
    elif k == "zero":
        T.put("zero()")
    elif k in ("bad", "q"):
        T.put(k)
        args("7" if f else "0")
    elif k == "q2":
        T.put(k)
        args("7" if f == 1 else "0", "7" if f == 2 else "0")
    elif k == "s":
        T.put(k)
        args(*t.kids)
    elif k in ("m", "mm"):
        T.put("(")
        write(T, t.kids[0])
        T.put(")")
        lines = (start, T.line)
        T.put("." + k)
        args("7" if f else "0") if k == "m" else args(*t.kids[1:])
    elif k == "rec":
        T.put("R")
        a = [("a", t.kids[0]), ("b", t.kids[1])]
        args(*a)
        T.put(".b" if t.order else ".a")
    elif k == "tam":
        T.put("tam")
        T.put("([int:")
        for i, c in enumerate(t.kids):
            if i:
                T.put(",")
            T.nl()
            T.put(" ")
            write(T, c)
        T.nl()
        T.put("])")
    elif k == "idx":
        T.put("[int:")
        for i, c in enumerate(t.kids):
            if i:
                T.put(",")
            T.nl()
            T.put(" ")
            write(T, c)
        T.nl()
        T.put("][9]" if f else "][1]")
        lines = (start, T.line)
    elif k == "add":
        write(T, t.kids[0])
        T.put(" + ")
        write(T, t.kids[1])
    elif k == "div":
        # the divisor fits
        T.put("(")
        write(T, t.kids[0])
        op = T.line
        T.put(" // 0)" if f else " // 2)")
        lines = (start, op)
    elif k == "par":
        T.put("(")
        write(T, t.kids[0])
        T.put(")")
    t.lines = lines or (start, start)


def program(seed):
    rng = random.Random(seed)
    T = Text(rng)
    fault = None
    inside = rng.random() < .5          # in a function, or in the main program
    if inside:
        T.put("func f(p: int): int\n    y: int = p\n")
    done = False
    for i in range(rng.choice([1, 2, 3])):
        t = tree(rng, rng.choice([1, 2, 3]))
        bads = [n for n in nodes(t) if n.kind in ("bad", "q", "q2", "m", "idx", "div", "x")]
        if bads and not done and rng.random() < .6:
            n = rng.choice(bads)
            n.fails = rng.choice([1, 2]) if n.kind == "q2" else True
            fault, done = n, True
        k = rng.choice(["mostra", "x", "decl", "se", "expr", "elem", "retorna" if inside else "mostra", "senaose", "enquanto"])
        pre, post = {"mostra": ("mostra ", ""), "x": ("x = ", ""), "decl": (f"d{i}: int = ", ""), "se": ("se ", " == 1 entao\nx = 1\nfim"),
                     "expr": ("s(1, ", ", 2)"), "elem": ("v[0] = ", ""), "retorna": ("se x > -1 entao\n   retorna ", "\nfim"),
                     "senaose": ("se falso entao\nx = 2\nsenaose ", " == 1 entao\nx = 1\nfim"),
                     "enquanto": ("enquanto ", " == -123456 faca\nx = 1\nfim")}[k]
        T.put(pre)
        write(T, t)
        T.put(post + "\n")
        if k == "retorna":
            break
        if rng.random() < .5 and not done:
            # what follows is on lines of its own
            w = rng.choice(["x = [int: 1][x + 5]", "mostra bad(3)", "x = 1 // zero()", "x = q(2)"])
            fault = N({"x = [": "idx", "mostr": "bad", "x = 1": "div", "x = q": "q"}[w[:5]], fails=True)
            fault.lines = (T.line, T.line)
            T.put(w + "\n")
            done = True
    if inside:
        T.put("retorna 0\nfim\nx = 0\n")
        at = T.line
        T.put("mostra f(1)\n")
    return HEAD + "".join(T.out), fault, at if inside else None


def frames(fault, at):
    """The lines of the calls on the way, outermost last, and where each may be."""
    inner = {"bad": [(2, "bad")], "q": [(2, "bad"), (5, "q")], "m": [(2, "bad"), (18, "m")]}.get(fault.kind, [])
    if fault.kind == "q2":
        inner = [(2, "bad"), (5, "q"), (8 if fault.fails == 1 else 9, "q2")]
    return inner


def standin(r, tier, seed, deadline):
    vm = progs.start()

    def one(i):
        key = f"spread {seed} {i}"
        text, fault, at = program(key)
        files = {"m.ama": text}
        wrong = fault is not None and fault.kind == "x"
        res = vmrun.execute(files, run=vm is not None and not wrong)
        res.pop("blob", None)
        what = None
        if res["status"] == "crash":
            what = f"the compiler crashes: {res['detail']}"
        elif wrong:
            if res["status"] != "error":
                what = "a name that is not declared is accepted"
            elif not fault.lines[0] == res["line"]:
                what = f"the error is at line {res['line']} instead of {fault.lines[0]}: {res['message']}"
        elif res["status"] == "error":
            what = f"a correct program is refused: {res['line']}: {res['message']}"
        elif "err" in res:
            got = [(int(a), b) for a, b in re.findall(r"Linha (\d+), na função (\S+)", res["err"])]
            top = re.search(r"Erro na linha (-?\d+)", res["err"])
            if fault is None:
                if res["err"]:
                    what = "a program that cannot fail fails"
            elif not top:
                what = "a program that must fail does not"
            else:
                got.append((int(top[1]), None))
                want = frames(fault, at)
                path = [*want, (fault.lines, "f"), ((at, at), None)] if at else [*want, (fault.lines, None)]
                ok = len(path) == len(got) and all(
                    (g[0] in w[0] if isinstance(w[0], tuple) else g[0] == w[0]) and (g[1] == w[1] or (w[1] == "m" and g[1])) for g, w in zip(got, path))
                if not ok:
                    what = f"the lines of the error are {got}, expected {path}"
        if what:
            return key, None, {"key": key, "what": what, "files": files, "observed": res, "listing": progs.listing(files)}
        return key, text[len(HEAD):] if i < 4 else None, None
    small(r, deadline, one, 10 ** 9)
