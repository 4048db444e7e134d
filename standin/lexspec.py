"""Independent specification of the tokens, and the bounded check against it."""
import io
import itertools
import os
import random
import time

from pvc.engine import TimeLimit, limited

KEYWORDS = {w: w.upper() for w in (
    "mostra e ou nao verdadeiro falso caso retorna produz se senao senaose escolha entao enquanto para "
    "faca de continua quebra usa como alvo registo iguala inc fim func met nulo vazio nativa uniao classe").split()}
OPS = {
    "(": "LPAR", ")": "RPAR", ".": "DOT", "..": "DDOT", ";": "SEMI", ",": "COMMA", "{": "LBRACE",
    "}": "RBRACE", "[": "LBRACKET", "]": "RBRACKET", "@": "AT", "@@": "DOUBLEAT", ":": "COLON",
    "?": "QMARK", "::": "DOUBLECOLON", ":>": "CAST", "=>": "ARROW",
    "+": "PLUS", "-": "MINUS", "*": "STAR", "/": "SLASH", "//": "DOUBLESLASH", "%": "MODULO",
    "+=": "PLUSEQ", "-=": "MINUSEQ", "*=": "STAREQ", "/=": "SLASHEQ",
    "<": "LESS", ">": "GREATER", "<=": "LESSEQ", ">=": "GREATEREQ", "!=": "NOTEQUAL",
    "=": "EQUAL", "==": "DOUBLEEQUAL",
}
OP1 = sorted({o[0] for o in OPS} - {"!"})


class Refused(Exception):
    def __init__(self, line):
        self.line = line


def tokens_until(text):
    """Tokens up to the first lexical error, and the line of that error."""
    out = []
    try:
        tokens(text, out)
        return out, None
    except Refused as e:
        return out, e.line


def tokens(text, out=None):
    """The tokens of a text: (kind name, lexeme, line); raises Refused(line)."""
    i, line, out = 0, 1, [] if out is None else out
    n = len(text)
    while True:
        while i < n and text[i] != "\n" and text[i].isspace():
            i += 1
        if i < n and text[i] == "#":
            while i < n and text[i] != "\n":
                i += 1
        if i == n or (text[i] == "\n" and i + 1 == n):
            out.append(("EOF", "", line))
            return out
        c = text[i]
        if c == "\n":
            out.append(("NEWLINE", "\\n", line))
            line += 1
            i += 1
            continue
        f = c == "f" and i + 1 < n and text[i + 1] in "'\""
        if c in "'\"" or f:
            j = i + (1 if f else 0)
            q = text[j]
            j += 1
            buf, start = [], line
            while True:
                if j >= n:
                    raise Refused(start)
                if text[j] == q:
                    break
                if text[j] == "\\" and j + 1 < n and text[j + 1] in "n'\"":
                    buf.append({"n": "\n"}.get(text[j + 1], text[j + 1]))
                    j += 2
                    continue
                if text[j] == "\n":
                    line += 1
                buf.append(text[j])
                j += 1
            out.append(("FORMAT_STR" if f else "STRING", q + "".join(buf) + q, start))
            i = j + 1
            continue
        if c.isalpha() or c == "_":
            j = i
            while j < n and (text[j].isalnum() or text[j] == "_"):
                j += 1
            w = text[i:j]
            out.append((KEYWORDS.get(w, "IDENTIFIER"), w, line))
            i = j
            continue
        if c.isdecimal():
            j = i
            while j < n and text[j].isdecimal():
                j += 1
            if j + 1 < n and text[j] == "." and text[j + 1].isdecimal():
                j += 1
                while j < n and text[j].isdecimal():
                    j += 1
                v = float(text[i:j])
                if v == float("inf"):
                    raise Refused(line)
                out.append(("REAL", v, line))
            else:
                if len(text[i:j]) > 4300 or int(text[i:j]) > 2**63 - 1:
                    raise Refused(line)
                out.append(("INTEGER", int(text[i:j]), line))
            i = j
            continue
        for k in (2, 1):
            if text[i:i + k] in OPS and i + k <= n:
                out.append((OPS[text[i:i + k]], text[i:i + k], line))
                i += k
                break
        else:
            raise Refused(line)


def real_tokens(ns, text):
    P = ns["amanda.compiler.parse"]
    E = ns["amanda.compiler.error"].AmandaError
    lx = P.Lexer("prog.ama", io.StringIO(text))
    # all tokens are kept, and looked at when the text is over, as the parser may
    toks = []
    try:
        for _ in range(len(text) + 3):
            t = lx.get_token()
            toks.append(t)
            if t.token == P.Lexer.EOF:
                break
        out = [("EOF", "", t.line) if t.token == P.Lexer.EOF else (t.token.name, t.lexeme, t.line) for t in toks]
        return ("ok" if toks[-1].token == P.Lexer.EOF else "loop", out)
    except E as e:
        return ("err", e.line)
    except Exception as e:  # noqa
        return ("crash", f"{type(e).__name__}: {e}")


def expected(text):
    try:
        return ("ok", tokens(text))
    except Refused as e:
        return ("err", e.line)


def show(r):
    return [list(map(str, t)) for t in r[1]] if r[0] == "ok" else list(r)


def strict(r):
    # 1 == 1.0 == True must not hide a change of value type
    return (r[0], [(a, type(b).__name__, b, c) for a, b, c in r[1]]) if r[0] == "ok" else r


A1 = "a f n_e1 2.05+-*/=<>!:;,()[]{}@?%#'\"\\\n\t²é٣§&^~$|"
A2 = "f1.=:>'\\n\n#\" /"


def standin(r, tier, seed, deadline):
    from standin import env
    ns = env.plain()
    rnd = random.Random(seed)

    def one(text, kind):
        want = expected(text)
        try:
            got = limited(5, real_tokens, ns, text)
        except TimeLimit:
            got = ("does not terminate", [])
        r.case(text, {"text": text} if r.evaluations % 20011 == 0 else None)
        if strict(got) != strict(want):
            r.fail("tokens:" + text[:40], f"tokens of {text!r}: got {show(got)}, expected {show(want)}",
                   text=text, got=show(got), expected=show(want), kind=kind)
        return len(r.failures) < 10

    words = list(KEYWORDS) + list(OPS) + ["f", "x1", "_", "12", "3.5", "0", "'a'", '"b\\n"', "f'{x}'", " ", "\n",
                                        "# c\n", "\t", "é", "9223372036854775807", "9223372036854775808",
                                        "1" * 320 + ".0", "'\\'", "'a\nb'", "\\", "1..2", "٣", "mostrar", "E"]
    for root in ("/repo/tests", "/repo/examples", "/repo/std"):
        for d, _, fs in os.walk(env.repo(root)):
            for f in sorted(fs):
                if f.endswith(".ama"):
                    try:
                        text = open(os.path.join(d, f), encoding="utf8").read()
                    except UnicodeDecodeError:
                        continue
                    if not one(text, "repository program"):
                        return
    for w in itertools.product(words, repeat=2):
        if not one("".join(w), "pairs of tokens"):
            return
    chars = [chr(i) for i in range(1, 127)] + list("éÉñçß٣²٠αЖ中 \u00a0\u2028\ufeff😀")
    for c in chars:
        for ctx in ("{}", "{}''", '{}""', "{}'x'", "1{}", "{}1", "1{}2", "1.{}", "a{}", "{}a", "a{}b", "'{}'", "'\\\\{}'",
                    "#{}\n1", "{}=", "={}", "{}{}", "f'{{{}}}'", "f{}", "x {} y", "se\n{}\nse", '"{}\n"1'):
            if not one(ctx.replace("{{{}}}", c).replace("{}", c), "every character"):
                return
    for k in (0, 1, 2):
        for t in itertools.product(chars[8:126], repeat=k):
            if not one("".join(t), "enumerated"):
                return
    for k in (0, 1, 2, 3):
        for t in itertools.product(A1, repeat=k):
            if not one("".join(t), "enumerated"):
                return
        if time.time() > deadline:
            return
    for t in itertools.product(A2, repeat=4):
        if not one("".join(t), "enumerated"):
            return
    end = min(deadline, time.time() + (15 if tier == "quick" else 300))
    while time.time() < end:
        if rnd.random() < .5:
            text = "".join(rnd.choice(A1) for _ in range(rnd.randrange(60)))
        else:
            text = "".join(rnd.choice(words) + rnd.choice(["", "", " "]) for _ in range(rnd.randrange(20)))
        if not one(text, "random"):
            return
