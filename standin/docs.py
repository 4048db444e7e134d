"""C11: what is written into a compiled module is what is read back.

documents: random documents through the real encoder, read by a decoder of our own.
constants: random literals in programs; the VM prints each value and confirms its type.
"""
import random
import struct

from . import env, lang, modlint, progs, vmrun

NASTY = ["", "0", "1", "-1", "+5", "007", "1.0", "1.50", ".5", "5.", "1e5", "1E5", "nan", "NaN", "inf", "-inf", "infinity", "verdadeiro",
         "falso", "nulo", " ", " 1", "1 ", "\n", "\t", "'", "\"", "''", "\"\"", "'a", "a'", "\"a'", "\\", "\\\\", "\\x", "{", "}", "{{", "}}",
         "#", "a#b", "é", "ã\u0303", "日本", "𝄞", "\u0001", "\u007f", "\u0080", "\u200b", "\ufeff", "\uffff", "a\u0301", "true", "null",
         "9223372036854775807", "9223372036854775808", "-9223372036854775808", "0x10", "1_000", "١", "²", "_field", "$oid", "a" * 127,
         "a" * 128, "b" * 255, "é" * 256, "c" * 70000]
INTS = [0, 1, 127, 128, 255, 256, 32767, 65535, 65536, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 53, 2 ** 53 + 1, 2 ** 62, 2 ** 63 - 1]
REALS = [0.0, 0.1, 0.5, 1.0, 1.5, 1e15, 2.0 ** 53, 123456789.123456789, 1e22, 1e23, 3.0e300, 5e-324, 2.2250738585072014e-308,
         1.7976931348623157e308, 0.30000000000000004, 1 / 3]


def text(rng):
    k = rng.random()
    if k < .35:
        return rng.choice(NASTY)
    if k < .6:
        return rng.choice(NASTY[:-1]) + rng.choice(NASTY[:-1])
    n = rng.choice([1, 2, 3, 8, 30])
    return "".join(chr(rng.choice([rng.randrange(32, 127), rng.randrange(1, 256), rng.randrange(0x100, 0xd800),
                                   rng.randrange(0xe000, 0x110000)])) for _ in range(n))


def integer(rng, neg):
    k = rng.random()
    v = rng.choice(INTS) if k < .5 else rng.randrange(2 ** rng.randrange(1, 64))
    return -v - (rng.random() < .3) if neg and rng.random() < .5 else v


def real(rng):
    k = rng.random()
    if k < .4:
        return rng.choice(REALS)
    while True:
        v = abs(struct.unpack("<d", rng.randbytes(8))[0])
        if v == v and v != float("inf"):
            return v


def value(rng, d):
    k = rng.random()
    if k < .3:
        return text(rng)
    if k < .5:
        return integer(rng, True)
    if k < .65:
        v = rng.choice([real(rng), -real(rng), float("inf"), float("-inf"), -0.0])
        return v
    if k < .75:
        return rng.randbytes(rng.choice([0, 1, 2, 5, 255, 256, 300]))
    if d == 0:
        return 0
    if k < .88:
        return [value(rng, d - 1) for _ in range(rng.choice([0, 1, 2, 3, 9, 10, 11, 12]))]
    return doc(rng, d - 1)


def doc(rng, d):
    keys = rng.sample(["name", "ops", "constants", "", "0", "10", "a b", "start_ip", "key"], rng.randrange(6))
    return {k: value(rng, d) for k in keys}


def documents(r, tier, seed, deadline):
    ns = env.plain()
    dumps = ns["amanda.compiler.bindump"].dumps

    def one(i):
        rng = random.Random(f"{seed}-doc-{i}")
        v = doc(rng, rng.randrange(4)) if i >= len(NASTY) else {"t": NASTY[i], "v": [NASTY[i], 1]}
        try:
            b = dumps(v)
        except Exception as e:
            return str(i), None, {"key": f"document {i}", "what": f"the document {repr(v)[:400]} cannot be written: {type(e).__name__}: {e}", "document": repr(v)[:4000]}
        try:
            got = modlint.decode(b)
            what = None if modlint.same(got, v) else f"is read back as {repr(got)[:300]}"
        except (modlint.Bad, ValueError, struct.error) as e:
            what = f"cannot be read back: {e}"
        if what:
            return str(i), None, {"key": f"document {i}", "what": f"the document {repr(v)[:300]} {what}", "document": repr(v)[:4000], "bytes": b.hex()[:8000]}
        return str(i), None, None
    progs.drive(r, deadline, one, 20000 if tier == "quick" else 400000)


# ------------------------------------------------------------------- constants
def quote(t, rng, fstr=False):
    """A literal whose value is t, or None."""
    for q in rng.sample("'\"", 2):
        s = t.replace(q, "\\" + q)
        if fstr:
            s = s.replace("{", "{{").replace("}", "}}")
        if rng.random() < .5:
            s = s.replace("\n", "\\n")
        # what the tokeniser makes of it, by the rules of C01
        if unquote(s, q, fstr) == t:
            return ("f" if fstr else "") + q + s + q
    return None


def unquote(s, q, fstr):
    out, i = "", 0
    while i < len(s):
        if s[i] == "\\" and i + 1 < len(s) and s[i + 1] in "n'\"":
            out += {"n": "\n"}.get(s[i + 1], s[i + 1])
            i += 2
            continue
        if s[i] == q or s[i] == "\r" or s[i] == "\\" and i + 1 == len(s):
            return None
        out += s[i]
        i += 1
    if fstr:
        if "{" in out.replace("{{", "") or "}" in out.replace("}}", ""):
            return None
        out = out.replace("{{", "{").replace("}}", "}")
    return out


def program(rng):
    src, want = [], []
    for k in range(rng.randrange(3, 9)):
        c = rng.random()
        if c < .5:
            t = text(rng)
            if "\0" in t:
                continue
            q = quote(t, rng)
            if q is None:
                continue
            how = rng.randrange(5)
            if how == 0:
                src.append(f"mostra [indef: {q}][0] :> texto")
            elif how == 1:
                src.append(f"t{k}: texto = {q}\nmostra [indef: t{k}][0] :> texto")
            elif how == 2:
                src.append(f"iguala {q}\n {q} => faca\n  mostra {q}\n fim\n _ => faca\n  mostra 'outro'\n fim\nfim")
            elif how == 3:
                src.append(f"escolha {q}:\n caso 'zzz':\n  mostra 'outro'\n caso {q}:\n  mostra {q}\nfim")
            else:
                f = quote(t, rng, True)
                if f is None or "{" in t or "}" in t or t == "":
                    continue
                src.append(f"mostra {f[:-1]}{{{len(src)}}}{f[2:]}")
                t = t + str(len(src) - 1) + t
            want.append(t)
        elif c < .75:
            v = integer(rng, False)
            src.append(f"mostra [indef: {'0' * rng.choice([0, 0, 0, 2])}{v}][0] :> int")
            want.append(str(v))
        else:
            v = real(rng)
            s = lang.show(v)
            src.append(f"mostra [indef: {s}{'0' * rng.choice([0, 0, 3])}][0] :> real")
            want.append(v)
    return "\n".join(src) + "\n", want


def printed(out, want):
    """Does `out` consist of the wanted texts, and of the wanted reals in some notation?"""
    for w in want:
        if isinstance(w, float):
            line, nl, rest = out.partition("\n")
            try:
                ok = nl and float(line) == w and "." in line
            except ValueError:
                ok = False
            if not ok:
                return False
            out = rest
        elif not out.startswith(w + "\n"):
            return False
        else:
            out = out[len(w) + 1:]
    return out == ""


def constants(r, tier, seed, deadline):
    vm = progs.start()

    def one(i):
        rng = random.Random(f"{seed}-const-{i}")
        src, want = program(rng)
        if not want:
            return None
        w = progs.outcome({"m.ama": src}, (want, ""), run=vm is not None)
        if w and w[0] == "output" and not w[2]["err"] and printed(w[2]["out"], want):
            w = None
        if w:
            w[2].pop("blob", None)
            return str(i), None, {"key": f"constants {i}", "what": w[1], "files": {"m.ama": src}, "expected": want, "observed": w[2]}
        return str(i), src if i < 6 and len(src) < 400 else None, None
    progs.small(r, deadline, one)
