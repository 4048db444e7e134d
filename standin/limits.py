"""Programs at and beyond the width of an operand (C09): what fits is encoded and
runs as written, what does not is refused."""
from . import env, modlint, progs, vmrun

WIDE = (1, 127, 128, 254, 255, 256, 257, 300, 511, 512, 513)


def split(n, k):
    return [list(range(i, min(i + k, n))) for i in range(0, n, k)]


def args(n):
    ps = ", ".join(f"p{i}: int" for i in range(n))
    return f"func f({ps}): int\n retorna p0 * 1000 + p{n - 1}\nfim\nmostra f({', '.join(str(i + 7) for i in range(n))})\n", f"{7 * 1000 + n + 6}\n"


def method(n):
    ps = "".join(f", p{i}: int" for i in range(n))
    return (f"registo R\n a: int\nfim\nmet R::f(alvo{ps}): int\n retorna alvo.a * 1000 + p{n - 1}\nfim\nr: R = R(a: 7)\n"
            f"mostra r.f({', '.join(str(i + 7) for i in range(n))})\n", f"{7 * 1000 + n + 6}\n")


def elements(n):
    return f"v: [int] = [int: {', '.join(str(i % 9) for i in range(n))}]\nmostra tam(v) * 100 + v[{n - 1}]\n", f"{n * 100 + (n - 1) % 9}\n"


def parts(n):
    return "x: int = 5\nmostra f\"" + "{x}" * n + "\"\n", "5" * n + "\n"


def fields(n):
    fs = "\n".join(f" c{i}: int" for i in range(n))
    return f"registo R\n{fs}\nfim\nr: R = R({', '.join(f'c{i}: {i + 3}' for i in range(n))})\nmostra r.c0 * 1000 + r.c{n - 1}\n", f"{3 * 1000 + n + 2}\n"


def variant(n):
    return (f"uniao U\n V({', '.join(['int'] * n)})\nfim\nu: U = U::V({', '.join(str(i + 2) for i in range(n))})\n"
            f"iguala u\n U::V({', '.join(f'a{i}' for i in range(n))}) => faca\n mostra a0 * 1000 + a{n - 1}\n fim\nfim\n", f"{2 * 1000 + n + 1}\n")


def variants(n):
    """Tags are as wide as constants: the last of n variants is still told from the others."""
    vs = ",\n".join(f" V{i}" for i in range(n))
    return (f"uniao U\n{vs}\nfim\nu: U = U::V{n - 1}\niguala u\n U::V0 => faca\n mostra 0\n fim\n U::V{n - 1} => faca\n mostra {n - 1}\n fim\n"
            f" _ => faca\n mostra 'x'\n fim\nfim\n", f"{n - 1}\n")


def consts(n):
    """n constants besides verdadeiro and falso; the first and the last are printed."""
    out = []
    for row in split(n - 2, 250):
        out.append(f"v = [int: {', '.join(str(i + 100) for i in row)}]")
    return "v: [int] = vec(int, 0)\n".replace("vec(int, 0)", "[int: 100]") + "\n".join(out) + f"\nmostra v[tam(v) - {n}]\n".replace(
        f"v[tam(v) - {n}]", f"{n - 3 + 100}"), f"{n - 3 + 100}\n"


def globals_(n):
    return "\n".join(f"g{i}: int" for i in range(n)) + f"\ng0 = 4\ng{n - 1} = 9\nmostra g0\nmostra g{n - 1}\n", "4\n9\n"


def locals_(n):
    return (f"func f(): int\n" + "\n".join(f" l{i}: int" for i in range(n)) + f"\n l0 = 4\n l{n - 1} = 9\n retorna l0 * 10 + l{n - 1}\nfim\nmostra f()\n", "49\n")


def registos(n):
    return "\n".join(f"registo R{i}\n a: int\nfim" for i in range(n)) + f"\nmostra R0(a: 1).a + R{n - 1}(a: 5).a\n", f"{6}\n"


def jump(n, how):
    """Code of about 4 n bytes between a jump and its target."""
    body = "\n".join("x = 1 + x" for _ in range(n))
    if how == "se":
        t = f"x: int = 0\nse x > 0 entao\n{body}\nsenao\n x = 7\nfim\nmostra x\n", "7\n"
    elif how == "senao":
        t = f"x: int = 0\nse x == 0 entao\n{body}\nsenao\n x = 7\nfim\nmostra x\n", f"{n}\n"
    elif how == "enquanto":
        t = f"x: int = 0\nenquanto x < {n + 1} faca\n{body}\nfim\nmostra x\n", f"{2 * n}\n"
    elif how == "para":
        t = f"x: int = 0\npara i de 0..3 faca\n se i == 1 entao\n continua\n fim\n{body}\nfim\nmostra x\n", f"{2 * n}\n"
    elif how == "func":
        t = f"func a(): int\n x: int = 0\n{body}\n retorna x\nfim\nfunc b(): int\n retorna a() + 1\nfim\nmostra b()\n", f"{n + 1}\n"
    elif how == "escolha":
        t = f"x: int = 0\nescolha x:\n caso 1:\n{body}\n caso 0:\n x = 5\n senao:\n x = 6\nfim\nmostra x\n", "5\n"
    else:
        t = f"x: int = 0\niguala x\n 1 => faca\n{body}\n fim\n 0 => faca\n x = 5\n fim\n _ => faca\n mostra 3\n fim\nfim\nmostra x\n", "5\n"
    return t


def cases(thorough):
    for n in WIDE:
        for f in (args, elements, parts, fields, variant):
            yield f"{f.__name__} {n}", f, (n,), n <= 255
        if n != 255:
            # the target of a method is one of its arguments
            yield f"method {n}", method, (n,), n <= 254
        if n > 1:
            yield f"variants {n}", variants, (n,), True
    for how in ("se", "senao", "enquanto", "para", "func", "escolha", "iguala"):
        for n in (20, 23, 24, 25, 26, 40, 6000, 6600, 7000):
            yield f"jump {how} {n}", jump, (n, how), True
    for n in (255, 256, 257, 65000, 65534, 65537, 66000, 70000):
        yield f"consts {n}", consts, (n,), True if n <= 65534 else False
    for n in (256, 257, 66000):
        yield f"globals {n}", globals_, (n,), n < 60000
        yield f"locals {n}", locals_, (n,), n < 60000
        yield f"registos {n}", registos, (n,), n < 60000
    if thorough:
        for n in (65500, 65535, 65536, 65600, 131073):
            yield f"consts {n}", consts, (n,), True if n <= 65534 else None if n <= 65536 else False
            yield f"globals {n}", globals_, (n,), None if 65000 < n <= 65536 else n < 65000
            yield f"locals {n}", locals_, (n,), None if 65000 < n <= 65536 else n < 65000
            yield f"registos {n}", registos, (n,), None if 65000 < n <= 65536 else n < 65000


def standin(r, tier, seed, deadline):
    vm = progs.start()
    todo = sorted(cases(tier != "quick"), key=lambda c: -c[2][0])

    def one(i):
        key, fn, a, fits = todo[i]
        text, want = fn(*a)
        files = {"m.ama": text}
        res = vmrun.execute(files, run=vm is not None, timeout=300)
        blob = res.pop("blob", None)
        what = None
        if res["status"] == "crash":
            what = f"the compiler crashes: {res['detail']}"
        elif res["status"] == "error" and fits:
            what = f"a program that fits is refused: {res['message']}"
        elif res["status"] == "ok":
            if fits is False:
                what = "a program that is too large is compiled"
            else:
                try:
                    bad = modlint.lint(modlint.decode(blob))
                except (modlint.Bad, ValueError) as e:
                    bad = [("decode", str(e))]
                if bad:
                    what = f"the compiled module is wrong ({bad[0][0]}): {bad[0][1]}"
                elif "out" in res and (res["out"], res["err"]) != (want, ""):
                    what = f"the program prints {res['out'][:60]!r} {res['err'][-200:]!r} instead of {want!r}"
        if what:
            return f"{key}", None, {"key": key, "what": f"{key}: {what}", "text": text[:3000], "observed": {k: str(v)[:500] for k, v in res.items()}}
        return key, f"{key}: {res['status']}", None
    progs.drive(r, deadline, one, len(todo), 7)
    if len(r.distinct) < len(todo) and not r.errors:
        r.samples.append(f"{len(r.distinct)} of {len(todo)} sizes within the time")
