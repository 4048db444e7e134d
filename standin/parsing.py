"""Bounded check of the parser against the grammar in standin/grammar.py."""
import io
import itertools
import os
import random
import time

from pvc.engine import TimeLimit, limited
from . import env, grammar

# sample text of each token kind (several where the kind has several)
SAMPLES = {
    "IDENTIFIER": ["a", "b", "x"], "INTEGER": ["1", "2"], "REAL": ["1.5"], "STRING": ["'s'"],
    "FORMAT_STR": ["f'{a}k'", "f'k'", "f'{a + 1}'", "f''", "f'{a b}'", "f'{'"],
    "NEWLINE": ["\n"],
}
for o, k in __import__("standin.lexspec", fromlist=["OPS"]).OPS.items():
    SAMPLES.setdefault(k, [o])
for w, k in __import__("standin.lexspec", fromlist=["KEYWORDS"]).KEYWORDS.items():
    SAMPLES.setdefault(k, [w])


class Gen:
    """Random derivations of the grammar, as texts."""

    def __init__(self, rnd):
        self.r = rnd

    def pick(self, *a):
        return self.r.choice(a)

    def name(self):
        return self.r.choice("abcxyz")

    def nl(self):
        return self.r.choice(["", "", "\n", "\n\n"])

    def type(self, d=2):
        k = self.r.random()
        q = self.pick("", "", "?")
        if d and k < .2:
            return f"[{self.type(d - 1)}]{q}"
        n = self.name()
        if d and k < .4:
            n += "[" + self.pick(", ", " ").join(self.type(d - 1) for _ in range(self.r.randint(1, 2))) + "]"
        elif k < .6:
            n += "." + self.name() + self.pick("", ".y")
        return n + q

    def expr(self, d=3):
        r = self.r.random()
        if d <= 0 or r < .15:
            return self.pick(self.name(), self.name(), "1", "2", "1.5", "'s'", "verdadeiro", "falso", "nulo", "alvo",
                             "a::b", "x::y::z", "f'{a}k'", "f'{a + b * c}'", "f'k'", "f'a{b}{c}d'", "f'{{a'")
        if r < .55:
            op = self.pick("+", "-", "*", "/", "//", "%", "e", "ou", "==", "!=", "<", ">", "<=", ">=")
            return f"{self.expr(d - 1)} {op} {self.expr(d - 1)}"
        if r < .63:
            return self.pick("-", "+", "nao ") + self.expr(d - 1)
        if r < .70:
            return f"({self.expr(d - 1)})"
        if r < .77:
            a = [self.arg(d - 1) for _ in range(self.r.randint(0, 3))]
            return f"{self.expr(0)}({self.nl()}{(self.nl() + ',' + self.nl()).join(a)}{self.nl()})"
        if r < .82:
            return f"{self.expr(0)}[{self.expr(d - 1)}]"
        if r < .87:
            return f"{self.expr(0)}.{self.name()}" + self.pick("", "()", "[1]", ".b")
        if r < .91:
            return f"{self.expr(0)} :> {self.type()}"
        if r < .96:
            e = [self.expr(d - 1) for _ in range(self.r.randint(0, 3))]
            return f"[{self.nl()}{self.type()}:{self.nl() if e else ''}{(self.nl() + ',' + self.nl()).join(e)}{self.nl()}]"
        return "iguala " + self.expr(d - 2) + "\n" + self.arms(d - 1) + "fim"

    def arg(self, d):
        return self.name() + ": " + self.expr(d) if self.r.random() < .25 else self.expr(d)

    def pattern(self, d=2):
        k = self.r.random()
        if d and k < .4:
            return f"{self.pick('A::B', 'm::U::V', 'f')}({', '.join(self.pattern(d - 1) for _ in range(self.r.randint(1, 3)))})"
        return self.pick(self.name(), "1", "'s'", "A::B", "_")

    def arms(self, d):
        s = ""
        for _ in range(self.r.randint(0, 3)):
            if self.r.random() < .5:
                s += f"{self.pattern()} => {self.expr(d - 1)},\n"
            else:
                s += f"{self.pattern()} => {self.nl()}faca\n{self.block(d - 1)}fim{self.pick('', ',')}\n"
        return s[:-2] + "\n" if s.endswith(",\n") else s

    def end(self):
        return self.pick("\n", "\n", "\n\n", ";", "; ")

    def block(self, d):
        return "".join(self.stmt(d) for _ in range(self.r.randint(0, 3)))

    def target(self):
        return self.pick(self.name(), self.name() + "." + self.name(), self.name() + "[" + self.expr(1) + "]",
                         self.name() + ".y[1].z", "alvo.x", "f(1)[2]", "f(1)", "(a)", "1", "a + b")

    def stmt(self, d=2):
        k = self.r.randrange(18 if d > 0 else 8)
        e = self.end
        if k == 0:
            return f"mostra {self.expr()}{e()}"
        if k == 1:
            return f"{self.target()} = {self.pick('', '', self.target() + ' = ')}{self.expr()}{e()}"
        if k == 2:
            return f"{self.target()} {self.pick('+=', '-=', '*=', '/=')} {self.expr()}{e()}"
        if k == 3:
            return f"{self.name()}: {self.type()}{self.pick('', ' = ' + self.expr())}{e()}"
        if k == 4:
            return f"{self.name()}, {self.name()}{self.pick('', ', c')}: {self.type()}{e()}"
        if k == 5:
            return self.pick("retorna", "retorna " + self.expr(), "produz " + self.expr()) + e()
        if k == 6:
            return self.pick("quebra", "continua") + e()
        if k == 7:
            return self.expr() + e()
        b = lambda: self.block(d - 1)
        if k in (8, 9):
            s = f"se {self.expr(2)} entao\n{b()}"
            for _ in range(self.r.choice([0, 0, 1, 2])):
                s += f"senaose {self.expr(1)} entao{self.nl()} {b()}"
            if self.r.random() < .5:
                s += f"senao\n{b()}"
            return s + "fim\n"
        if k == 10:
            return f"enquanto {self.expr(2)} faca\n{b()}fim\n"
        if k == 11:
            return (f"para {self.name()} de {self.expr(1)}..{self.expr(1)}{self.pick('', ' inc ' + self.expr(1))} "
                    f"faca\n{b()}fim\n")
        if k == 12:
            s = f"escolha {self.expr(1)}:{self.nl()}"
            for _ in range(self.r.randrange(4)):
                s += f"caso {self.expr(1)}:{self.nl()} {b()}"
            if self.r.random() < .5:
                s += f"senao:\n{b()}"
            return s + "fim\n"
        if k == 13:
            return f"iguala {self.expr(1)}\n{self.arms(d - 1)}fim\n"
        if k == 14:
            return (f"se iguala {self.expr(1)} => {self.pattern()} entao\n{b()}"
                    f"{self.pick('', 'senao' + chr(10) + b())}fim\n")
        return self.decl(d - 1)

    def params(self):
        sep = self.nl() + "," + self.nl()
        return self.nl() + sep.join(f"{self.name()}: {self.type()}" for _ in range(self.r.randrange(4)))

    def ann(self):
        return self.pick("", "", "", "@x\n", "@x(a='1', b=\"2\")\n@y\n")

    def gen(self):
        return self.pick("", "", "[T]", "[T, U]", "[T U]")

    def decl(self, d=2):
        k = self.r.randrange(5)
        ret = self.pick("", ": " + self.type(), ": vazio")
        if k <= 1:
            return f"{self.ann()}func {self.name()}({self.params()}){ret}\n{self.block(d)}fim\n"
        if k == 2:
            p = self.params().lstrip()
            ret = self.pick("", ": " + self.type())
            return (f"{self.ann()}met{self.gen()} {self.type()}::{self.name()}(alvo{', ' + p if p else ''}){ret}\n"
                    f"{self.block(d)}fim\n")
        if k == 3:
            f = "".join(self.pick(f"{self.name()}: {self.type()}", f"{self.name()}, {self.name()}: {self.type()}") + self.end()
                        for _ in range(self.r.randrange(4)))
            return f"{self.ann()}registo {self.name()}{self.gen()}\n{f}fim\n"
        vs = [self.name() + self.pick("", f"({self.type()})", f"({self.nl()}{self.type()}{self.nl()},{self.type()}{self.nl()})")
              for _ in range(self.r.randrange(4))]
        return f"{self.ann()}uniao {self.name()}{self.gen()}{self.nl() or chr(10)}{(self.nl() + ',' + self.nl()).join(vs)}\nfim\n"

    def module(self):
        s = self.nl() + self.pick("", "", "@@x(a='1')")
        for _ in range(self.r.choice([0, 0, 1, 2])):
            s += self.pick("usa 'm'", "usa 'm' => n", "usa 'm' => [a]", "usa 'm' => [a, b]") + self.end()
        for _ in range(self.r.randint(1, 4)):
            s += self.pick(self.stmt, self.stmt, self.decl)()
        return s + self.pick("", "func nativa f(a: T): U\n", "func nativa g()")


def real(ns, text):
    P = ns["amanda.compiler.parse"]
    E = ns["amanda.compiler.error"].AmandaError
    try:
        return ("ok", P.Parser("prog.ama", io.StringIO(text)).parse())
    except E as e:
        return ("err", e.line)
    except RecursionError:
        raise
    except Exception as e:  # noqa
        return ("crash", f"{type(e).__name__}: {e}")


def check(ns, text):
    """None, or what differs."""
    try:
        want = grammar.parse(text)
        got = limited(5, real, ns, text)
    except RecursionError:
        return None
    except TimeLimit:
        return "the parser does not terminate"
    if got[0] == "crash":
        return f"the parser crashes: {got[1]}"
    if got[0] != want[0]:
        return (f"accepted, but the grammar refuses it on line {want[1]}" if got[0] == "ok"
                else f"refused on line {got[1]}, but the grammar accepts it")
    if got[0] == "err":
        return None if got[1] == want[1] else f"error on line {got[1]}, the offending line is {want[1]}"
    return grammar.compare(got[1], want[1])


def joined(rnd, toks):
    """A text with these token texts, kept apart."""
    return " ".join(toks)


def standin(r, tier, seed, deadline):
    ns = env.plain()
    rnd = random.Random(seed)

    def one(text, kind):
        d = check(ns, text)
        r.case(text, {"text": text} if r.evaluations % 10007 == 0 else None)
        if d:
            r.fail("parse:" + text[:60], f"{text!r}: {d}", text=text, difference=d, kind=kind)
        return len(r.failures) < 10

    corpus = []
    for root in ("/repo/tests", "/repo/examples", "/repo/std"):
        for dd, _, fs in os.walk(env.repo(root)):
            for f in sorted(fs):
                if f.endswith(".ama"):
                    try:
                        corpus.append(open(os.path.join(dd, f), encoding="utf8").read())
                    except UnicodeDecodeError:
                        continue
    for t in corpus:
        if not one(t, "repository program"):
            return
    # operators: every combination of three, with unary and postfix operands
    ops = ["+", "-", "*", "/", "//", "%", "e", "ou", "==", "!=", "<", ">", "<=", ">=", "=", "+=", ":>", "."]
    for a, b, c in itertools.product(ops, repeat=3):
        if not one(f"a {a} b {b} c {c} d", "operators"):
            return
    for a, b in itertools.product(ops, repeat=2):
        for t in ("-a {} nao b {} +c", "a[1] {} b(c) {} d.e", "(a {} b) {} c", "a {} (b {} c)", "-(a {} b) {} c.d()",
                  "a::b {} [T: a, b] {} f'{{a}}'", "mostra a {} b {} c", "x: T = a {} b {} c"):
            if not one(t.format(a, b), "operators"):
                return
    # every short sequence of tokens, alone and in contexts
    kinds = [s for v in SAMPLES.values() for s in v]
    for n in (0, 1, 2):
        for t in itertools.product(kinds, repeat=n):
            if not one(" ".join(t), "token sequence"):
                return
        if time.time() > deadline:
            return
    ctx = ["func {}fim", "registo x {}fim", "uniao x {}fim", "a({})", "[T: {}]", "x: {}", "se a entao {}fim",
           "se {}fim", "iguala a {}fim", "iguala a x => {}fim", "escolha {}fim", "escolha a: {}fim", "para {}fim",
           "met {}fim", "func f({})fim", "usa {}", "@x({})func f() fim", "enquanto {}fim", "\n{}\na = 1", "a {}",
           "escolha a: caso 1: {}fim", "para x de {}fim", "se iguala {}fim", "func f() {}fim", "uniao x a({})fim"]
    small = ["a", "1", "'s'", "(", ")", "[", "]", ",", ":", "::", "=", "=>", "\n", ";", ".", "..", "entao", "faca",
             "senao", "senaose", "caso", "fim", "de", "alvo", "?", "+", "@", "retorna", "inc"]
    for c in ctx:
        for n in (0, 1, 2):
            for t in itertools.product(small, repeat=n):
                if not one(c.format(" ".join(t) + " "), "token sequence in a context"):
                    return
    end = min(deadline, time.time() + (25 if tier == "quick" else 600))
    g = Gen(rnd)
    import re
    while time.time() < end:
        text = g.module()
        if not one(text, "generated program"):
            return
        for _ in range(2):
            src = text if rnd.random() < .8 else rnd.choice(corpus)
            if len(src) > 3000:
                continue
            ws = re.findall(r"f?'[^']*'|f?\"[^\"]*\"|\w+|\n|[^\w\s]+|#.*", src)
            if not ws:
                continue
            for _ in range(rnd.randint(1, 2)):
                i = rnd.randrange(len(ws))
                k = rnd.random()
                if k < .35:
                    del ws[i]
                elif k < .7:
                    ws.insert(i, rnd.choice(kinds))
                elif k < .85:
                    ws[i] = rnd.choice(kinds)
                else:
                    j = rnd.randrange(len(ws))
                    ws[i], ws[j] = ws[j], ws[i]
                if not ws:
                    break
            if not one(" ".join(ws), "mutated program"):
                return
