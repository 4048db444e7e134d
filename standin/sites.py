"""C04: every place that wants a value of a type, against every pair of types.

One program per place and wanted type holds the accepted cases and prints what is
stored; every refused case is a program of its own.
"""
from . import env, progs, vmrun
from .lang import convert, promotes, show

R, U, G = ("reg", "R"), ("uniao", "U"), ("gen", "G")
TYPES = ["int", "real", "texto", "bool", "indef", ("opt", "int"), ("opt", "real"), ("opt", "texto"),
         ("vec", "int"), ("vec", "real"), ("vec", ("opt", "real")), R, U]
HEAD = """registo R
    c: int
    d: real?
fim

registo S
    c: texto
fim

uniao U
    A,
    B(int)
fim

uniao X
    A,
    B(int)
fim

func nada(): vazio
fim
"""
# type, expression, value as it is shown (None: not shown)
VALUES = [
    ("int", "7", 7), ("int", "vi", 8), ("int", "-vi", -8), ("int", "vi + 1", 9), ("int", "vvi[1]", 4), ("int", "vr2.c", 5),
    ("real", "2.5", 2.5), ("real", "vr", 1.5), ("real", "vi / 2", 4.0), ("real", "vi * vr", 12.0),
    ("texto", "'abc'", "abc"), ("texto", "vt", "xyz"), ("texto", "f'{vi}!'", "8!"), ("texto", "vt + 'w'", None),
    ("bool", "verdadeiro", True), ("bool", "vb", False), ("bool", "vi == 8", True), ("bool", "nao vb", True),
    ("indef", "vx", 6), ("nulo", "nulo", None),
    (("opt", "int"), "voi", 3), (("opt", "real"), "vor", 4.5), (("opt", "texto"), "vot", "opt"), (("opt", "real"), "vr2.d", 2.0),
    (("vec", "int"), "vvi", [3, 4]), (("vec", "int"), "[int: 1, 2]", [1, 2]), (("vec", "real"), "[real: 1.5, 2]", [1.5, 2.0]),
    (("vec", ("opt", "real")), "[real?: 1.5, nulo]", [1.5, None]), (("vec", ("vec", "int")), "[[int]: [int: 1]]", None),
    (R, "vr2", None), (("reg", "S"), "vs", None), (U, "U::A", None), (U, "vu", None), (U, "U::B(1)", None), (("uniao", "X"), "X::A", None),
    ("vazio", "nada()", None),
]
VALUES = [v for v in VALUES if v[1] != "vt + 'w'"]
DECLS = """vi: int = 8
vr: real = 1.5
vt: texto = 'xyz'
vb: bool = falso
vx: indef = 6
voi: int? = 3
vor: real? = 4.5
vot: texto? = 'opt'
vvi: [int] = [int: 3, 4]
vr2: R = R(c: 5, d: 2)
vs: S = S(c: 'x')
vu: U = U::B(2)
"""


def ts(t):
    if isinstance(t, str):
        return t
    return {"opt": lambda: ts(t[1]) + "?", "vec": lambda: f"[{ts(t[1])}]"}.get(t[0], lambda: t[1])()


def default(t):
    """Some other value of the type."""
    return {"int": "0", "real": "0.5", "texto": "''", "bool": "falso", "indef": "0"}.get(t) if isinstance(t, str) else {
        "opt": "nulo", "vec": f"[{ts(t[1])}:]", "reg": "R(c: 0, d: 0.5)", "uniao": "U::A"}[t[0]]


# a place: name -> fn(type, expression, n) -> (declarations, statements, expression that shows it)
def place(t, e, n):
    T, D = ts(t), default(t)
    return {
        "declaration": ("", f"x{n}: {T} = {e}", f"x{n}"),
        "assignment": ("", f"x{n}: {T} = {D}\nx{n} = {e}", f"x{n}"),
        "assignment to a global": ("", f"x{n}: {T} = {D}\nfunc f{n}(): vazio\n    x{n} = {e}\nfim\nf{n}()", f"x{n}"),
        "argument": (f"func f{n}(a: bool, p: {T}, z: {T}): {T}\n    retorna p\nfim\n", "", f"f{n}(verdadeiro, {e}, {D})"),
        "last argument": (f"func f{n}(a: {T}, p: {T}): {T}\n    retorna p\nfim\n", "", f"f{n}({D}, {e})"),
        "argument of a method": (f"met R::m{n}(alvo, a: int, p: {T}): {T}\n    retorna p\nfim\n", "", f"vr2.m{n}(1, {e})"),
        "returned": ("", f"func f{n}(): {T}\n    retorna {e}\nfim", f"f{n}()"),
        "returned from a branch": ("", f"func f{n}(b: bool): {T}\n    se b entao\n        retorna {e}\n    senao\n        retorna {D}\n    fim\nfim",
                                   f"f{n}(verdadeiro)"),
        "returned by a method": ("", f"met R::m{n}(alvo): {T}\n    retorna {e}\nfim", f"vr2.m{n}()"),
        "element of a list": ("", f"x{n}: [{T}] = [{T}: {D}, {e}]", f"x{n}[1]"),
        "element assigned": ("", f"x{n}: [{T}] = [{T}: {D}, {D}]\nx{n}[1] = {e}", f"x{n}[1]"),
        "element of an inner list": ("", f"x{n}: [[{T}]] = [[{T}]: [{T}: {D}]]\nx{n}[0][0] = {e}", f"x{n}[0][0]"),
        "appended": ("", f"x{n}: [{T}] = [{T}: {D}]\nanexa(x{n}, {e})", f"x{n}[1]"),
        "field initialised": (f"registo Q{n}\n    a: int\n    b: {T}\nfim\n", f"x{n}: Q{n} = Q{n}(a: 1, b: {e})", f"x{n}.b"),
        "field assigned": (f"registo Q{n}\n    a: int\n    b: {T}\nfim\n", f"x{n}: Q{n} = Q{n}(b: {D}, a: 1)\nx{n}.b = {e}", f"x{n}.b"),
        "part of a variant": (f"uniao V{n}\n    M,\n    N(int, {T})\nfim\n",
                              f"x{n}: V{n} = V{n}::N(1, {e})\nfunc f{n}(v: V{n}): {T}\n    iguala v\n        V{n}::N(a, b) => faca\n            retorna b\n        fim,"
                              f"\n        V{n}::M => faca\n            retorna {D}\n        fim\n    fim\nfim", f"f{n}(x{n})"),
    }


PLACES = list(place("int", "0", 0))
FIXED = {   # places that want one type
    "condition of se": ("bool", "se {e} entao\n    mostra 1\nfim"),
    "condition of senaose": ("bool", "se vb entao\n    mostra 1\nsenaose {e} entao\n    mostra 2\nfim"),
    "condition of enquanto": ("bool", "enquanto {e} faca\n    quebra\nfim"),
    "start of para": ("int", "para i de {e}..9 faca\n    quebra\nfim"),
    "end of para": ("int", "para i de 0..{e} faca\n    quebra\nfim"),
    "step of para": ("int", "para i de 0..9 inc {e} faca\n    quebra\nfim"),
    "index": ("int", "func f(): vazio\n    mostra vvi[{e}]\nfim"),
    "index of an assignment": ("int", "func f(): vazio\n    vvi[{e}] = 1\nfim"),
    "size of vec": ("int", "func f(): vazio\n    mostra tam(vec(int, {e}))\nfim"),
}
def program(cases):
    """The text of a program with the accepted cases, and what it prints."""
    decls, body, out = [], [], []
    for n, (pl, want, (t, e, v)) in enumerate(cases):
        d, s, x = place(want, e, n)[pl]
        decls.append(d)
        if s:
            body.append(s)
        if v is not None or t == "nulo":
            if not (isinstance(want, tuple) and want[0] in ("reg", "uniao")):
                body.append(f"mostra {x}")
                out.append(expect(v, t, want))
            else:
                body.append(f"y{n}: {ts(want)} = {x}")
        else:
            body.append(f"y{n}: {ts(want)} = {x}")
    return HEAD + "".join(decls) + DECLS + "\n".join(body) + "\n", "".join(o + "\n" for o in out)


def expect(v, t, want):
    return shown(convert(v, t, want))


def shown(v):
    if isinstance(v, list):
        return "[" + ", ".join(shown(x) for x in v) + "]"
    return show(v)


def allowed(t, want):
    return promotes(t, want) and t != "vazio"


# several places at once: name -> fn(wanted types, expressions, n) -> (declarations, statements, expressions that show them)
def places(kind, ws, es, n, rng):
    k, T = len(ws), [ts(w) for w in ws]
    I = range(k)
    ps = ", ".join(f"p{i}: {T[i]}" for i in I)
    args = ", ".join(es)
    # gives back the part asked for
    if kind == "elements":
        return "", f"x{n}: [{T[0]}] = [{T[0]}: {args}]", [f"x{n}[{i}]" for i in I]
    if kind == "appended":
        return "", f"x{n}: [{T[0]}] = [{T[0]}:]" + "".join(f"\nanexa(x{n}, {e})" for e in es), [f"x{n}[{i}]" for i in I]
    if kind == "elements assigned":
        return "", f"x{n}: [{T[0]}] = [{T[0]}: {', '.join([default(ws[0])] * k)}]" + "".join(f"\nx{n}[{i}] = {es[i]}" for i in I), [f"x{n}[{i}]" for i in I]
    if kind == "arguments":
        d = "".join(f"func f{n}_{i}({ps}): {T[i]}\n    retorna p{i}\nfim\n" for i in I)
        return d, "", [f"f{n}_{i}({args})" for i in I]
    if kind == "arguments of a method":
        d = "".join(f"met R::m{n}_{i}(alvo, {ps}): {T[i]}\n    retorna p{i}\nfim\n" for i in I)
        return d, "", [f"vr2.m{n}_{i}({args})" for i in I]
    if kind == "fields":
        order = rng.sample(I, k)
        d = f"registo Q{n}\n" + "".join(f"    a{i}: {T[i]}\n" for i in I) + "fim\n"
        return d, f"x{n}: Q{n} = Q{n}({', '.join(f'a{i}: {es[i]}' for i in order)})", [f"x{n}.a{i}" for i in I]
    if kind == "parts of a variant":
        d = f"uniao V{n}\n    N({', '.join(T)}),\n    M\nfim\n"
        s = f"x{n}: V{n} = V{n}::N({args})\n"
        for i in I:
            s += (f"func f{n}_{i}(v: V{n}): {T[i]}\n    iguala v\n        V{n}::N({', '.join(f'b{j}' for j in I)}) => faca\n            retorna b{i}\n        fim,"
                  f"\n        V{n}::M => faca\n            retorna {default(ws[i])}\n        fim\n    fim\nfim\n")
        return d, s.rstrip("\n"), [f"f{n}_{i}(x{n})" for i in I]
    if kind == "returns":
        s = f"func f{n}(k: int): {T[0]}\n" + "".join(f"    se k == {i} entao\n        retorna {es[i]}\n    fim\n" for i in I) + f"    retorna {default(ws[0])}\nfim"
        return "", s, [f"f{n}({i})" for i in I]
    if kind == "inside blocks":
        s = []
        for i in I:
            how = rng.choice(["returned", "assigned", "declared", "element", "field"])
            first = {"element": f"x: [{T[i]}] = [{T[i]}: {default(ws[i])}]", "field": f"x: Q{n}_{i} = Q{n}_{i}(c: {default(ws[i])})"}.get(how, f"x: {T[i]} = {default(ws[i])}")
            do = {"returned": f"retorna {es[i]}", "assigned": f"x = {es[i]}", "declared": f"y: {T[i]} = {es[i]}\nretorna y", "element": f"x[0] = {es[i]}",
                  "field": f"x.c = {es[i]}"}[how].split("\n")
            for depth in range(rng.choice([1, 1, 2, 3])):
                do = inside(do, f"{n}_{i}_{depth}", rng)
            last = {"element": "retorna x[0]", "field": "retorna x.c"}.get(how, "retorna x")
            s += [f"func f{n}_{i}(): {T[i]}"] + ["    " + x for x in [first] + do + [last]] + ["fim"]
        return "".join(f"registo Q{n}_{i}\n    c: {T[i]}\nfim\n" for i in I), "\n".join(s), [f"f{n}_{i}()" for i in I]
    if kind == "variables":
        return "", "\n".join(f"x{n}_{i}: {T[i]} = {es[i]}" for i in I), [f"x{n}_{i}" for i in I]
    raise AssertionError(kind)


def inside(do, n, rng):
    """Statements inside a block that is run once."""
    do = ["    " + x for x in do]
    arm = ["    " + x for x in do]
    other = f"mostra 'outro {n}'"
    return rng.choice([
        lambda: ["se nao vb entao"] + do + ["fim"],
        lambda: ["se vb entao", "    " + other, "senao"] + do + ["fim"],
        lambda: ["se vb entao", "    " + other, "senaose vi == 8 entao"] + do + ["fim"],
        lambda: ["se vb entao", "    " + other, "senaose vi == 7 entao", "    " + other, "senao"] + do + ["fim"],
        lambda: [f"w{n}: int = 0", f"enquanto w{n} < 1 faca", f"    w{n} = w{n} + 1"] + do + ["fim"],
        lambda: [f"para i{n} de 0..1 faca"] + do + ["fim"],
        lambda: ["escolha vi:", "    caso 8:"] + arm + ["fim"],
        lambda: ["escolha vt:", "    caso 'xyz':"] + arm + ["    senao:", "        " + other, "fim"],
        lambda: ["escolha vi:", "    caso 1:", "        " + other, "    senao:"] + arm + ["fim"],
        lambda: ["iguala vu", f"    U::B(a{n}) => faca"] + arm + ["    fim,", "    U::A => faca", "        " + other, "    fim", "fim"],
        lambda: ["iguala U::A", f"    U::B(a{n}) => faca", "        " + other, "    fim,", "    U::A => faca"] + arm + ["    fim", "fim"],
        lambda: ["iguala vi", "    3 => faca", "        " + other, "    fim,", "    _ => faca"] + arm + ["    fim", "fim"],
    ])()


SAME = ("elements", "appended", "elements assigned", "returns")
KINDS = SAME + ("arguments", "arguments of a method", "fields", "parts of a variant", "variables", "inside blocks", "inside blocks")


def several(seed, i):
    """A program in which several values stand side by side, some of them refused."""
    import random
    rng = random.Random(f"{seed} several {i}")
    bad = i % 2 == 1
    decls, body, out, faults = [], [], [], []
    for n in range(1 if bad else 4):
        kind = rng.choice(KINDS)
        k = rng.choice([2, 2, 3, 3, 4, 6, 9, 18, 40]) if kind not in ("inside blocks", "fields") else rng.choice([1, 2, 3, 5])
        want = rng.choice(TYPES)
        ws = [want] * k if kind in SAME or rng.random() < .5 else [rng.choice(TYPES) for _ in range(k)]
        fit = [[v for v in VALUES if allowed(v[0], w)] for w in ws]
        if rng.random() < .5:     # few different types
            few = [rng.choice(VALUES)[0] for _ in range(2)]
            fit = [[v for v in f if v[0] in few or v[0] == w] or f for f, w in zip(fit, ws)]
        vs = [rng.choice(f) for f in fit]
        if bad:
            j = rng.randrange(k)
            no = [v for v in VALUES if not allowed(v[0], ws[j])]
            if not no:
                return None
            vs[j] = rng.choice(no)
            faults.append(f"{vs[j][1]} of type {ts(vs[j][0])} is accepted where {ts(ws[j])} is wanted ({kind}, {j + 1} of {k})")
        d, s, xs = places(kind, ws, [v[1] for v in vs], n, rng)
        decls.append(d)
        if s:
            body.append(s)
        for j, (w, (t, _, v), x) in enumerate(zip(ws, vs, xs)):
            if (v is not None or t == "nulo") and not (isinstance(w, tuple) and w[0] in ("reg", "uniao")) and not bad:
                body.append(f"mostra {x}")
                out.append(expect(v, t, w))
            else:
                body.append(f"y{n}_{j}: {ts(w)} = {x}")
    return HEAD + "".join(decls) + DECLS + "\n".join(body) + "\n", "".join(o + "\n" for o in out), faults


def side_by_side(r, tier, seed, deadline):
    vm = progs.start()

    def one(i):
        c = several(seed, i)
        if c is None:
            return None
        text, out, faults = c
        files, what = {"m.ama": text}, None
        if not faults:
            w = progs.outcome(files, (out, ""), vm is not None)
            if w:
                what, res = w[1], w[2]
        else:
            res = vmrun.execute(files, run=False)
            if res["status"] == "ok":
                what = faults[0]
            elif res["status"] == "crash":
                what = "the compiler crashes: " + str(res["detail"])
        key = f"several {seed} {i}"
        if what:
            res.pop("blob", None)
            return key, None, {"key": key, "what": what, "files": files, "observed": res, "listing": progs.listing(files)}
        return key, text if i < 4 else None, None
    small(r, deadline, one, 10 ** 9)


def standin(r, tier, seed, deadline):
    vm = progs.start()
    jobs = []
    for pl in PLACES:
        for want in TYPES:
            jobs.append(("ok", pl, want))
            for v in VALUES:
                if not allowed(v[0], want):
                    jobs.append(("bad", pl, want, v))
    for k, (want, text) in FIXED.items():
        for v in VALUES:
            jobs.append(("fixed", k, want, v, text))
    oks = [j for j in jobs if j[0] != "bad"]
    bads = [j for j in jobs if j[0] == "bad"]
    import random
    random.Random(seed).shuffle(bads)
    jobs = oks + bads

    def one(i):
        if i >= len(jobs):
            return None
        j = jobs[i]
        if j[0] == "ok":
            cases = [(j[1], j[2], v) for v in VALUES if allowed(v[0], j[2])]
            text, out = program(cases)
            files = {"m.ama": text}
            w = progs.outcome(files, (out, ""), vm is not None)
        else:
            want, v = j[2], j[3]
            text = program([(j[1], want, v)])[0] if j[0] == "bad" else HEAD + DECLS + j[4].replace("{e}", v[1]) + "\n"
            files = {"m.ama": text}
            good = j[0] == "fixed" and v[0] == want
            res = vmrun.execute(files, run=False)
            w = None
            if good and res["status"] != "ok":
                w = ("refused", "a correct program is refused: " + str(res.get("message", res.get("detail"))), res)
            elif not good and res["status"] == "ok":
                w = ("accepted", f"{v[1]} of type {ts(v[0])} is accepted where {ts(want)} is wanted ({j[1]})", res)
            elif not good and res["status"] == "crash":
                w = ("crash", "the compiler crashes: " + str(res["detail"]), res)
        key = f"{j[1]}: {ts(j[2])}" + (f" <- {j[3][1]}" if len(j) > 3 else "")
        if w:
            res = w[2]
            res.pop("blob", None)
            return key, None, {"key": "site " + key, "what": w[1], "files": files, "observed": res, "listing": progs.listing(files)}
        return key, key if i % 400 == 0 else None, None
    small(r, deadline, one, len(jobs))


def small(r, deadline, one, n):
    got = []
    for i, v in vmrun.parallel(n, one, deadline):
        if i < 0:
            if not r.errors:
                r.errors.append(v["crash"])
            continue
        if v is None:
            continue
        key, sample, failure = v
        r.case(key, sample)
        if failure:
            got.append(failure)
            if len(got) >= 12:
                break
    for f in sorted(got, key=lambda f: len(f["files"]["m.ama"]))[:6]:
        r.fail(f.pop("key"), f.pop("what"), **f)
