"""Ill-formed constructs, one of which is planted in an otherwise correct
random program (standin.lang).  Each rule returns the lines it writes and the
index of the line that the error must name, or None where it does not apply.
"""
from .lang import BIN, SCALARS, NoName, promotes

RULES = {}
ODD = ["zz", "inexistente", "qq9", "não_há"]


def rule(*props, top=False):
    def deco(fn):
        for p in props:
            RULES.setdefault(p, []).append((fn.__name__, fn, top))
        return fn
    return deco


def plant(prop, turn=0, only=None):
    """A `bad` hook for Gen: the rule whose turn it is, or else any other."""
    rules = [r for r in RULES[prop] if only is None or r[0] in only]
    mine = rules[turn % len(rules)]

    def hook(g, force):
        if not force and g.rng.random() > 0.5:
            return
        rs = [mine]
        if force:
            rest = [r for r in rules if r is not mine]
            g.rng.shuffle(rest)
            rs += rest
        for name, fn, top in rs:
            if top and (g.indent or g.fn is not None):
                continue
            try:
                got = fn(g)
            except NoName:
                continue
            if not got:
                continue
            lines, at = got
            n0 = len(g.buf)
            for l in lines:
                g.emit(l)
            g.parent.planted = (g.name + ".ama", n0 + at + 1, name)
            return
    return hook


# -------------------------------------------------------------------- helpers
def other(g, ty, ok=promotes):
    """A type that does not convert to ty."""
    for _ in range(30):
        t = g.ty()
        if not ok(t, ty) and g.nameable(t) and t != "nulo":
            return t
    return None


def wrong(g, ty, d=2, ok=promotes):
    """Text of an expression whose type does not convert to ty."""
    r = g.rng.random()
    if r < 0.1 and not (isinstance(ty, tuple) and ty[0] == "opt"):
        return "nulo"
    if r < 0.18:
        fs = g.fns_of("vazio")
        if fs:
            f, t = g.rng.choice(fs)
            return g.call_fn(f, t, 1).text
    if ty == "int" and r < 0.5:
        return g.expr("real", d).text
    if isinstance(ty, tuple) and ty[0] == "vec" and r < 0.5:
        # vectors do not convert, even if their elements do
        t = ("vec", {"real": "int", "indef": "int"}.get(ty[1], "texto")) if isinstance(ty[1], str) else ty[1]
        if not ok(t, ty):
            return g.expr(t, d).text
    if r < 0.6 and not (isinstance(ty, tuple) and ty[0] == "opt"):
        t = ("opt", ty)
        if not ok(t, ty) and ty not in ("vazio", "nulo"):
            return g.expr(t, d).text
    t = other(g, ty, ok)
    return None if t is None else g.expr(t, d).text


def unused(g):
    g.parent.tmp += 1
    return f"novo__{g.parent.tmp}"


def exact(t, ty):
    return t == ty


def own_vars(g, pred=lambda t: True):
    return [v for v in g.syms("var") if not v.protected and v.mod == g.name and pred(v.ty)]


def is_(kind):
    return lambda t: isinstance(t, tuple) and t[0] == kind


def pick(g, xs):
    return g.rng.choice(xs) if xs else None


# ------------------------------------------------------------------ C04: types
@rule("C04")
def decl_type(g):
    ty = g.ty()
    e = wrong(g, ty) if g.nameable(ty) and ty != "indef" else None
    return e and ([f"{unused(g)}: {g.tystr(ty)} = {e}"], 0)


@rule("C04")
def assign_type(g):
    v = pick(g, own_vars(g, lambda t: t != "indef"))
    e = v and wrong(g, v.ty)
    return e and ([f"{v.name} = {e}"], 0)


@rule("C04")
def chain_type(g):
    vs = own_vars(g)
    c = [(a, b) for a in vs for b in vs if a is not b and not promotes(b.ty, a.ty)]
    if not c:
        return None
    a, b = g.rng.choice(c)
    return [f"{a.name} = {b.name} = {g.want(b.ty, 2).text}"], 0


def some_call(g):
    """(text of callee, parameter types) of functions, methods and variants."""
    c = []
    for ret in ("vazio",) + SCALARS:
        c += [(t, [p.ty for p in f.params], "fn") for f, t in g.fns_of(ret)]
    for f in g.all_methods():
        if not f.open and g.nameable(f.self_ty):
            c.append((f, [p.ty for p in f.params[1:]], "met"))
    for u in g.types_of("uni"):
        for n, ps in u.variants.items():
            if ps and g.visible().get(u.name) is u:
                c.append((f"{u.name}::{n}", ps, "variant"))
    if not c:
        return None
    t, ps, k = g.rng.choice(c)
    if k == "met":
        f = t
        e = g.par(g.expr(f.self_ty, 1), 7)
        if e[0].isdigit() or e[0] in "'\"":
            e = f"({e})"
        t = f"{e}.{f.name}"
    return t, ps, k


def as_stmt(g, text, k):
    return f"mostra {text}" if k != "variant" and g.chance(0.3) else text


@rule("C04")
def arg_type(g):
    c = some_call(g)
    if not c or not c[1]:
        return None
    t, ps, k = c
    i = g.rng.randrange(len(ps))
    e = wrong(g, ps[i]) if ps[i] != "indef" else None
    if e is None:
        return None
    args = [e if j == i else g.want(p, 1).text for j, p in enumerate(ps)]
    return [as_stmt(g, f"{t}({', '.join(args)})", k)], 0


@rule("C04")
def arg_count(g):
    c = some_call(g)
    if not c:
        return None
    t, ps, k = c
    args = [g.want(p, 1).text for p in ps]
    if args and g.chance(0.6):
        args.pop(g.rng.randrange(len(args)))
    else:
        args.insert(g.rng.randrange(len(args) + 1), g.expr(g.rng.choice(SCALARS), 1).text)
    return [as_stmt(g, f"{t}({', '.join(args)})", k)], 0


@rule("C04")
def arg_named(g):
    c = some_call(g)
    if not c or not c[1]:
        return None
    t, ps, k = c
    args = [g.want(p, 1).text for p in ps]
    i = g.rng.randrange(len(args))
    args[i] = "x: " + args[i]
    return [as_stmt(g, f"{t}({', '.join(args)})", k)], 0


@rule("C04")
def return_type(g):
    if g.fn is None or g.in_arm or g.yields:
        return None
    if g.fn.ret == "vazio":
        return [f"retorna {g.expr(g.rng.choice(SCALARS), 1).text}"], 0
    if g.chance(0.25):
        return ["retorna"], 0
    e = wrong(g, g.fn.ret) if g.fn.ret != "indef" else None
    return e and ([f"retorna {e}"], 0)


@rule("C04")
def list_elem(g):
    ty = g.ty()
    e = wrong(g, ty) if g.nameable(ty) and ty != "indef" else None
    if e is None:
        return None
    es = [g.want(ty, 1).text for _ in range(g.rng.choice([0, 1, 2]))]
    es.insert(g.rng.randrange(len(es) + 1), e)
    return [f"mostra [{g.tystr(ty)}: {', '.join(es)}]"], 0


@rule("C04")
def index_type(g):
    v = pick(g, [v for v in g.syms("var") if v.ty == "texto" or is_("vec")(v.ty)])
    e = v and wrong(g, "int", 1, exact)
    if not e:
        return None
    if is_("vec")(v.ty) and g.chance(0.4):
        return [f"{v.name}[{e}] = {g.want(v.ty[1], 1).text}"], 0
    return [f"mostra {v.name}[{e}]"], 0


@rule("C04")
def index_target(g):
    v = pick(g, [v for v in g.syms("var") if v.ty != "texto" and not is_("vec")(v.ty)])
    if not v:
        return None
    if g.chance(0.3):
        return [f"{v.name}[0] = {g.expr('int', 1).text}"], 0
    return [f"mostra {v.name}[0]"], 0


@rule("C04")
def text_index_set(g):
    v = pick(g, own_vars(g, lambda t: t == "texto"))
    return v and ([f"{v.name}[0] = {g.expr('texto', 1).text}"], 0)


@rule("C04")
def index_set_type(g):
    v = pick(g, [v for v in g.syms("var") if is_("vec")(v.ty) and v.ty[1] != "indef"])
    e = v and wrong(g, v.ty[1])
    return e and ([f"{v.name}[0] = {e}"], 0)


@rule("C04")
def field_set_type(g):
    c = [(v, n, t) for v in g.syms("var") if is_("reg")(v.ty) for n, t in v.ty[1].fields.items() if t != "indef"]
    if not c:
        return None
    v, n, t = g.rng.choice(c)
    e = wrong(g, t)
    return e and ([f"{v.name}.{n} = {e}"], 0)


@rule("C04")
def record_init(g):
    r = pick(g, g.types_of("reg"))
    if not r or not r.fields:
        return None
    t = g.tystr(("reg", r))
    names = list(r.fields)
    g.rng.shuffle(names)
    args = [(n, g.want(r.fields[n], 1).text) for n in names]
    k = g.rng.choice(["missing", "dup", "unknown", "type", "positional", "extra", "none"])
    i = g.rng.randrange(len(args))
    if k == "missing":
        args.pop(i)
    elif k == "none":
        args = []
    elif k == "dup":
        j = g.rng.randrange(len(args))
        if i == j:
            return None
        args[i] = (args[j][0], g.want(r.fields[args[j][0]], 1).text)
    elif k == "extra":
        args.append(args[i])
    elif k == "unknown":
        args[i] = ("zz", args[i][1])
    elif k == "type":
        e = wrong(g, r.fields[args[i][0]]) if r.fields[args[i][0]] != "indef" else None
        if e is None:
            return None
        args[i] = (args[i][0], e)
    texts = [f"{n}: {e}" for n, e in args]
    if k == "positional":
        texts[i] = args[i][1]
    return [f"{t}({', '.join(texts)})"], 0


@rule("C04")
def variant_form(g):
    c = [(u, n, ps) for u in g.types_of("uni") if g.visible().get(u.name) is u for n, ps in u.variants.items()]
    if not c:
        return None
    u, n, ps = g.rng.choice(c)
    if ps:
        # the arguments are missing
        return [f"{unused(g)}: {u.name} = {u.name}::{n}"], 0
    return [f"{unused(g)}: {u.name} = {u.name}::{n}({g.expr('int', 0).text if g.chance(0.6) else ''})"], 0


@rule("C04")
def condition(g):
    e = wrong(g, "bool", 2, exact)
    if not e:
        return None
    k = g.rng.choice(["se", "senaose", "enquanto"])
    if k == "se":
        return [f"se {e} entao", "   mostra 1", "fim"], 0
    if k == "senaose":
        c = g.expr("bool", 1).text
        return [f"se {c} entao", "   mostra 1", f"senaose {e} entao", "   mostra 2", "fim"], 2
    return [f"enquanto {e} faca", "   quebra", "fim"], 0


@rule("C04")
def range_bound(g):
    e = wrong(g, "int", 1, exact)
    if not e or ".." in e:
        return None
    k = g.rng.randrange(3)
    b = ["0", "3", "1"]
    b[k] = e
    return [f"para {unused(g)} de {b[0]}..{b[1]}" + (f" inc {b[2]}" if k == 2 else "") + " faca", "   quebra", "fim"], 0


@rule("C04")
def escolha_target(g):
    t = other(g, None, lambda t, _: t in ("int", "texto"))
    if t is None:
        return None
    return [f"escolha {g.expr(t, 2).text}:", "   senao:", "      mostra 1", "fim"], 0


@rule("C04")
def escolha_case(g):
    t = g.rng.choice(["int", "texto"])
    e = wrong(g, t)
    if not e:
        return None
    ls = [f"escolha {g.expr(t, 2).text}:"]
    for _ in range(g.rng.choice([0, 1])):
        ls += [f"   caso {g.expr(t, 1).text}:", "      mostra 0"]
    return ls + [f"   caso {e}:", "      mostra 1", "fim"], len(ls)


NUMS = ("int", "real")


def binop_ok(op, a, b):
    if op in ("+", "-", "*", "/", "//", "%", "<", ">", "<=", ">="):
        return a in NUMS and b in NUMS
    if op in ("e", "ou"):
        return a == b == "bool"
    if a in SCALARS and b in SCALARS:
        return (a in NUMS and b in NUMS) or a == b
    if a in SCALARS or b in SCALARS:
        # the language does not say what an indef or a composite type may be compared with
        return None if "indef" in (a, b) else (False if is_("vec")(a) or is_("vec")(b) or is_("uni")(a) or is_("uni")(b) else None)
    if is_("vec")(a) and is_("vec")(b) or is_("uni")(a) and is_("uni")(b):
        return False
    return None


@rule("C04")
def binop_type(g):
    op = g.rng.choice(list(BIN))
    for _ in range(20):
        a, b = g.ty(), g.ty()
        if binop_ok(op, a, b) is False and g.nameable(a) and g.nameable(b):
            p = BIN[op]
            return [f"mostra {g.par(g.expr(a, 2), p)} {op} {g.par(g.expr(b, 2), p + 1)}"], 0
    return None


@rule("C04")
def unary_type(g):
    op = g.rng.choice(["-", "+", "nao "])
    for _ in range(20):
        a = g.ty()
        if (a != "bool" if op == "nao " else a not in NUMS) and g.nameable(a):
            return [f"mostra {op}{g.par(g.expr(a, 2), 7)}"], 0
    return None


@rule("C04")
def cast_type(g):
    for _ in range(30):
        a, b = g.ty(), g.ty()
        if not g.nameable(a) or not g.nameable(b):
            continue
        if a == "bool" and b in ("int", "real") or a in SCALARS and (is_("vec")(b) or is_("reg")(b) or is_("uni")(b)) \
                or (is_("vec")(a) or is_("reg")(a) or is_("uni")(a)) and (b in SCALARS):
            return [f"mostra {g.par(g.expr(a, 2), 7)} :> {g.tystr(b)}"], 0
    return None


@rule("C04")
def builtin_args(g):
    vs = [v for v in g.syms("var") if is_("vec")(v.ty)]
    v = pick(g, vs)
    k = g.rng.choice(["anexa", "anexa_n", "remova", "remova_t", "tam", "tam_n", "vec_size", "vec_n", "anexa_t", "vec_ty", "vec_zero"])
    name = k.split("_")[0]
    if not g.sees(name):
        return None
    if k == "anexa":
        e = v and v.ty[1] != "indef" and wrong(g, v.ty[1])
        return e and ([f"anexa({v.name}, {e})"], 0)
    if k == "anexa_n":
        if not v:
            return None
        a = [v.name, g.want(v.ty[1], 1).text, g.want(v.ty[1], 1).text]
        return [f"anexa({', '.join(a[:g.rng.choice([1, 3])])})"], 0
    if k in ("anexa_t", "remova_t"):
        t = other(g, None, lambda t, _: is_("vec")(t))
        return t and ([f"{name}({g.expr(t, 1).text}, 0)"], 0)
    if k == "remova":
        e = v and wrong(g, "int", 1, exact)
        return e and ([f"remova({v.name}, {e})"], 0)
    if k == "tam":
        t = other(g, None, lambda t, _: is_("vec")(t) or t == "texto")
        return t and ([f"mostra tam({g.expr(t, 1).text})"], 0)
    if k == "tam_n":
        return [f"mostra tam({g.rng.choice(['', chr(39) + 'a' + chr(39) + ', 1'])})"], 0
    if k == "vec_size":
        e = wrong(g, "int", 1, exact)
        return e and ([f"mostra vec(int, {e})"], 0)
    if k == "vec_n":
        return [f"mostra vec({g.rng.choice(['', 'int'])})"], 0
    if k == "vec_ty":
        r = pick(g, g.types_of("reg"))
        return r and g.visible().get(r.name) is r and ([f"mostra vec({r.name}, 2)"], 0)
    return [f"mostra vec({g.expr('int', 0).text}, 2)"], 0


@rule("C04")
def fstr_part(g):
    fs = g.fns_of("vazio")
    c = [v for v in g.syms("var") if is_("vec")(v.ty) or is_("uni")(v.ty)]
    if fs and g.chance(0.5):
        f, t = g.rng.choice(fs)
        e = g.call_fn(f, t, 0).text
        if any(x in e for x in "'\"{}"):
            return None
        return ["mostra f'x {" + e + "}'"], 0
    v = pick(g, c)
    return v and (["mostra f'{1} {" + v.name + "}'"], 0)


@rule("C04")
def no_init(g):
    for _ in range(20):
        t = g.ty()
        if not isinstance(t, str) and g.nameable(t):
            return [f"{unused(g)}: {g.tystr(t)}"], 0
    return None


@rule("C04", "C05")
def not_callable(g):
    v = pick(g, g.syms("var"))
    if v and g.chance(0.8):
        return [f"{v.name}({g.expr('int', 0).text if g.chance(0.5) else ''})"], 0
    return [g.rng.choice(["1(2)", "'a'()", "(1 + 2)()", "verdadeiro()"])], 0


@rule("C04")
def call_of_call(g):
    fs = [x for ret in SCALARS for x in g.fns_of(ret)]
    if not fs:
        return None
    f, t = g.rng.choice(fs)
    return [g.call_fn(f, t, 0).text + "()"], 0


@rule("C04", "C05")
def method_value(g):
    ms = [f for f in g.all_methods() if not f.open and g.nameable(f.self_ty)]
    f = pick(g, ms)
    v = f and pick(g, [v for v in g.syms("var") if v.ty == f.self_ty])
    return v and ([f"mostra {v.name}.{f.name}"], 0)


@rule("C04")
def arm_types(g):
    ty, e = g.target()
    t1 = g.rng.choice(SCALARS)
    t2 = g.rng.choice([t for t in SCALARS if t != t1] + ["vazio"])
    v = pick(g, own_vars(g, lambda t: t == t1))
    if not v or ty not in ("int", "texto"):
        return None
    a = [f"   {'0' if ty == 'int' else chr(39) + 'k' + chr(39)} => {g.expr(t1, 1).text}"]
    if t2 == "vazio":
        b = ["   n => faca", "      mostra 1", "   fim"]
        return [f"{v.name} = iguala {e.text}"] + a + b + ["fim"], 3
    return [f"{v.name} = iguala {e.text}"] + a + [f"   n => {g.expr(t2, 1).text}", "fim"], 2


@rule("C04")
def compound_type(g):
    v = pick(g, own_vars(g, lambda t: t in SCALARS or is_("vec")(t)))
    if not v:
        return None
    op = g.rng.choice("+-*/")
    if v.ty == "int":
        e = g.expr("real", 1).text if op != "/" and g.chance(0.7) else None
        if e is None:
            op, e = "/", g.expr("int", 1).text
    elif v.ty == "real":
        e = wrong(g, "real", 1)
    else:
        e = g.expr(v.ty, 1).text
    return e and ([f"{v.name} {op}= {e}"], 0)


@rule("C04")
def valor_ou_type(g):
    v = pick(g, [v for v in g.syms("var") if is_("opt")(v.ty) and v.ty[1] != "indef"])
    e = v and wrong(g, v.ty[1])
    return e and ([f"mostra {v.name}.valor_ou({e})"], 0)


@rule("C04", "C05")
def no_member(g):
    v = pick(g, [v for v in g.syms("var") if not isinstance(v.ty, str) or v.ty in SCALARS])
    if not v:
        return None
    n = g.rng.choice(ODD)
    return [g.rng.choice([f"mostra {v.name}.{n}", f"{v.name}.{n}(1)", f"{v.name}.{n} = 1"])], 0


@rule("C04")
def vazio_value(g):
    fs = g.fns_of("vazio")
    if not fs:
        return None
    f, t = g.rng.choice(fs)
    c = g.call_fn(f, t, 1).text
    return [g.rng.choice([f"{unused(g)}: int = {c}", f"mostra 1 + {c}", f"mostra [int: {c}]", f"se {c} entao mostra 1 fim",
                          f"{unused(g)}: indef = {c}"])], 0


@rule("C04")
def big_int(g):
    return [f"mostra {g.rng.choice([1 << 63, (1 << 64) - 1, 10 ** 25])}"], 0


# ------------------------------------------------------------------ C05: names
def missing_name(g):
    n = g.rng.choice(ODD)
    return n if n not in g.visible() else None


@rule("C05")
def undeclared(g):
    n = missing_name(g)
    if not n:
        return None
    t = g.rng.choice(SCALARS)
    e = g.expr(t, 1).text
    k = g.rng.choice([f"mostra {n}", f"mostra 1 + {n}", f"{n} = {e}", f"{n}({e})", f"{n}.x = {e}", f"mostra {n}[0]", f"{n} += 1",
                      f"mostra {n}::A", f"mostra [{t}: {n}]", f"{unused(g)}: {n} = {e}", f"{unused(g)}: [{n}] = {e}",
                      f"{unused(g)}: {n}? = nulo", f"mostra {e} :> {n}", f"mostra [{n}:]", f"mostra -{n}",
                      "mostra f'{" + n + "}'", f"mostra {n}.x", f"anexa({n}, 1)" if g.sees("anexa") else f"mostra {n}",
                      f"retorna {n}" if g.fn is not None and g.fn.ret != "vazio" and not g.in_arm and not g.yields else f"mostra {n}"])
    return [k], 0


@rule("C05")
def undeclared_deep(g):
    n = missing_name(g)
    if not n:
        return None
    k = g.rng.choice([
        ([f"se {n} entao", "   mostra 1", "fim"], 0),
        (["se falso entao", "   mostra 1", f"senaose {n} entao", "   mostra 2", "fim"], 2),
        (["se falso entao", "   mostra 1", "senao", f"   mostra {n}", "fim"], 3),
        ([f"enquanto {n} faca", "   quebra", "fim"], 0),
        (["enquanto falso faca", f"   mostra {n}", "fim"], 1),
        ([f"para {unused(g)} de 0..{n} faca", "   quebra", "fim"], 0),
        ([f"escolha {n}:", "fim"], 0),
        (["escolha 1:", f"   caso {n}:", "      mostra 1", "fim"], 1),
        (["escolha 1:", "   caso 1:", f"      mostra {n}", "fim"], 2),
        (["escolha 1:", "   senao:", f"      mostra {n}", "fim"], 2),
        ([f"iguala {n}", "   k => 1", "fim"], 0),
        (["iguala 1", f"   k => {n}", "fim"], 1),
        (["iguala 1", "   k => faca", f"      mostra {n}", "   fim", "fim"], 2),
        ([f"se iguala 1 => 2 entao", f"   mostra {n}", "fim"], 1),
    ])
    return k


@rule("C05")
def redeclared(g):
    own = [n for n, s in g.scopes[-1].items() if n != "alvo" and s.kind in ("var", "fn", "reg", "uni", "builtin", "mod")]
    if not own:
        return None
    n = g.rng.choice(own)
    if any(m in n for m in ("?",)):
        return None
    return [f"{n}: {g.rng.choice(SCALARS)}"], 0


@rule("C05")
def redeclared_pair(g):
    n = unused(g)
    t, u = g.rng.choice(SCALARS), g.rng.choice(SCALARS)
    return g.rng.choice([
        ([f"{n}: {t}", f"{n}: {u}"], 1),
        ([f"{n}, {n}: {u}"], 0),
        (["se verdadeiro entao", f"   {n}: {t}", "   mostra 1", f"   {n}: {u}", "fim"], 3),
        ([f"para {n} de 0..1 faca", f"   {n}: {u}", "fim"], 1),
        (["iguala 1", f"   {n} => faca", f"      {n}: {u}", "   fim", "fim"], 2),
        (["escolha 1:", "   caso 1:", f"      {n}: {t}", f"      {n}: {u}", "fim"], 3),
    ])


@rule("C05", top=True)
def redeclared_top(g):
    own = [n for n, s in g.scopes[0].items() if s.kind in ("var", "fn", "reg", "uni") and s.mod == g.name]
    if not own:
        return None
    n = g.rng.choice(own)
    return g.rng.choice([
        ([f"func {n}()", "   mostra 1", "fim"], 0),
        ([f"func {n}(): int", "   retorna 1", "fim"], 0),
        ([f"registo {n}", "   x: int", "fim"], 0),
        ([f"uniao {n}", "   X,", "   Y", "fim"], 0),
        ([f"{n}: int = 1"], 0),
    ])


@rule("C05")
def out_of_scope(g):
    n = unused(g)
    t = g.rng.choice(SCALARS)
    use = g.rng.choice([f"mostra {n}", f"{n} = 1", f"mostra 1 + {n}"])
    d = f"   {n}: {t}"
    k = [
        (["se verdadeiro entao", d, "fim", use], 3),
        (["se verdadeiro entao", d, "senao", "   " + use, "fim"], 3),
        (["se verdadeiro entao", d, "senaose verdadeiro entao", "   " + use, "fim"], 3),
        (["se verdadeiro entao", "   mostra 1", "senao", d, "fim", use], 5),
        (["enquanto falso faca", d, "fim", use], 3),
        ([f"para {n} de 0..1 faca", "   mostra 1", "fim", use], 3),
        (["para k1 de 0..1 faca", d, "fim", use], 3),
        ([f"para {n} de 0..{n} faca", "   mostra 1", "fim"], 0),
        (["escolha 1:", "   caso 1:", "   " + d, "fim", use], 4),
        (["escolha 1:", "   caso 1:", "   " + d, "   caso 2:", "      " + use, "fim"], 4),
        (["escolha 1:", "   caso 1:", "   " + d, "   senao:", "      " + use, "fim"], 4),
        (["iguala 1", f"   {n} => 1", "fim", use], 3),
        (["iguala 1", f"   0 => faca", "   " + d, "   fim", "   k2 => faca", "      " + use, "   fim", "fim"], 5),
        (["iguala 1", f"   k2 => faca", "   " + d, "   fim", "fim", use], 5),
        ([f"se iguala 1 => {n} entao", "   mostra 1", "senao", "   " + use, "fim"], 3),
        ([f"se iguala 1 => {n} entao", "   mostra 1", "fim", use], 3),
        (["se verdadeiro entao", "   enquanto falso faca", "   " + d, "   fim", "   " + use, "fim"], 4),
    ]
    if g.indent == 0 and g.fn is None:
        k += [([f"func {unused(g)}({n}: {t})", "   mostra 1", "fim", use], 3),
              ([f"func {unused(g)}()", d, "fim", use], 3),
              ([f"func {unused(g)}()", "   " + use, "fim", f"{n}: int"], 1),
              ([f"func {unused(g)}()", d, "fim", f"func {unused(g)}()", "   " + use, "fim"], 4)]
    return g.rng.choice(k)


@rule("C05")
def before_decl(g):
    n = unused(g)
    return [g.rng.choice([f"mostra {n}", f"{n} = 1"]), f"{n}: int = 1"], 0


@rule("C05")
def self_reference(g):
    n = unused(g)
    r = g.rng
    if r.random() < .2:
        return r.choice([([f"{n}: texto = f'" + "{" + n + "}'"], 0), ([f"{n}: [int] = [int: 1, {n}[0]]"], 0), ([f"{n}: bool = nao {n}"], 0)])
    e = n
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        w = ["(#)", "-(#)", "1 + (#)", "(#) * 2", "[int: 1, #][0]", "[int: 4][#]", "((#) :> real) :> int"]
        if "'" not in e:
            w.append("f'a{#}' :> int")
        if g.sees("tam"):
            w += ["tam([int: #])"]
        if g.sees("vec"):
            w += ["vec(int, #)[0]"]
        e = r.choice(w).replace("#", e)
    ls = [e]
    for _ in range(r.choice([0, 0, 0, 1, 1, 2])):
        if len(ls) > 1 or r.random() < .4:
            inner = ["      produz " + ls[0]] + ["      " + l for l in ls[1:]]
            ls = ["iguala 1", "   0 => 3", "   _ => faca"] + inner + ["   fim", "fim"] if r.random() < .5 else \
                ["iguala 'a'", "   'b' => faca", "      produz 2", "   fim",
                 "   _ => faca"] + inner + ["   fim", "fim"]
        else:
            ls = r.choice([["iguala " + ls[0], "   0 => 1", "   _ => 2", "fim"], ["iguala 1", "   0 => 3", "   _ => " + ls[0], "fim"],
                           ["iguala 1", "   0 => " + ls[0], "   _ => 7", "fim"]])
    return [f"{n}: int = {ls[0]}"] + ls[1:], 0


@rule("C05")
def type_as_value(g):
    c = [s.name for s in g.syms("reg") + g.syms("uni")] + [b for b in ("int", "texto") if g.sees(b)]
    n = pick(g, c)
    return n and ([g.rng.choice([f"mostra {n}", f"mostra 1 + {n}", f"{unused(g)}: int = {n}", f"mostra [int: {n}]"])], 0)


@rule("C05")
def func_as_value(g):
    n = pick(g, [f.name for f in g.syms("fn")])
    return n and ([g.rng.choice([f"mostra {n}", f"mostra 1 + {n}", f"{unused(g)}: int = {n}", f"{n} = 1", f"mostra {n}[0]"])], 0)


@rule("C05")
def value_as_type(g):
    n = pick(g, [v.name for v in g.syms("var") + g.syms("fn") if v.name != "alvo"])
    return n and ([g.rng.choice([f"{unused(g)}: {n} = 1", f"{unused(g)}: [{n}] = 1", f"mostra 1 :> {n}", f"mostra [{n}: 1]"])], 0)


@rule("C05")
def no_variant(g):
    u = pick(g, [u for u in g.types_of("uni") if g.visible().get(u.name) is u])
    if not u:
        return None
    return g.rng.choice([([f"{unused(g)}: {u.name} = {u.name}::Zz"], 0), ([f"{u.name}::Zz(1)"], 0),
                         ([f"iguala {g.expr(('uni', u), 1).text}", f"   {u.name}::Zz => 1", "   n => 2", "fim"], 1)])


@rule("C05")
def path_of_value(g):
    v = pick(g, [v.name for v in g.syms("var") if v.name != "alvo"])
    return v and ([f"mostra {v}::A"], 0)


@rule("C05")
def nested_decl(g):
    if g.indent == 0:
        return None
    n = unused(g)
    return g.rng.choice([([f"func {n}()", "   mostra 1", "fim"], 0), ([f"func {n}(): int", "   retorna 1", "fim"], 0),
                         ([f"met int::{n}(alvo)", "   mostra 1", "fim"] if g.sees("int") else [f"func {n}()", "   mostra 1", "fim"], 0)])


@rule("C05")
def nested_decl_block(g):
    if g.indent or g.fn is not None:
        return None
    n = unused(g)
    h, t = g.rng.choice([("se verdadeiro entao", "fim"), ("enquanto falso faca", "fim"), ("para k1 de 0..1 faca", "fim")])
    return [h, f"   func {n}()", "      mostra 1", "   fim", t], 1


@rule("C05", top=True)
def dup_params(g):
    n = unused(g)
    t, u = g.rng.choice(SCALARS), g.rng.choice(SCALARS)
    ps = [f"a: {t}", f"a: {u}"]
    if g.chance(0.5):
        ps.insert(g.rng.randrange(3), "b: int")
    if g.chance(0.3) and g.sees("int"):
        return [f"met int::{n}(alvo, {', '.join(ps)})", "   mostra 1", "fim"], 0
    return [f"func {n}({', '.join(ps)})", "   mostra 1", "fim"], 0


@rule("C05", top=True)
def dup_members(g):
    n = unused(g)
    return g.rng.choice([([f"registo {n}", "   x: int", "   y: real", "   x: texto", "fim"], 3),
                         ([f"uniao {n}", "   X,", "   Y(int),", "   X(texto)", "fim"], 3)])


@rule("C05")
def alvo_outside(g):
    if "alvo" in g.visible():
        return None
    return [g.rng.choice(["mostra alvo", "mostra alvo.x", f"{unused(g)}: int = alvo"])], 0


@rule("C05", top=True)
def alvo_in_func(g):
    return [f"func {unused(g)}()", "   mostra alvo", "fim"], 1


@rule("C05", top=True)
def method_again(g):
    ms = [f for f in g.all_methods() if not f.open and g.nameable(f.self_ty) and f.mod == g.name]
    f = pick(g, ms)
    if not f:
        return None
    t = g.tystr(f.self_ty)
    return [f"met {t}::{f.name}(alvo)", "   mostra 1", "fim"], 0


@rule("C05", top=True)
def method_is_field(g):
    r = pick(g, [r for r in g.syms("reg") if r.mod == g.name and r.fields])
    return r and ([f"met {r.name}::{g.rng.choice(list(r.fields))}(alvo)", "   mostra 1", "fim"], 0)


@rule("C05", top=True)
def method_type(g):
    return [f"met {g.rng.choice(['Zzz', '[int]'])}::{unused(g)}(alvo)", "   mostra 1", "fim"], 0


@rule("C05")
def module_value(g):
    m = pick(g, g.syms("mod"))
    if not m:
        return None
    it = [s for s in m.gen.scopes[0].values() if s.kind == "var" and s.mod == m.gen.name]
    k = [f"{unused(g)}: {m.name} = 1", f"{m.name} = 1", f"mostra {m.name}.zz", f"{m.name}.zz()", f"{unused(g)}: {m.name}.Zz = 1", f"{m.name}()"]
    if it:
        k += [f"mostra {g.rng.choice(it).name}"] if g.rng.choice(it).name not in g.visible() else []
    return [g.rng.choice(k)], 0


# ------------------------------------------------------------------ C06: jumps
@rule("C06")
def return_top(g):
    if g.fn is not None:
        return None
    return g.rng.choice([
        (["retorna"], 0), ([f"retorna {g.expr('int', 1).text}"], 0),
        (["se falso entao", "   retorna", "fim"], 1),
        (["enquanto falso faca", "   retorna 1", "fim"], 1),
        (["para k1 de 0..1 faca", "   retorna", "fim"], 1),
        (["escolha 1:", "   senao:", "      retorna", "fim"], 2),
        (["iguala 1", "   n => faca", "      retorna", "   fim", "fim"], 2),
    ])


@rule("C06")
def loop_ctl(g):
    if g.loops or g.in_arm:
        return None
    w = g.rng.choice(["quebra", "continua"])
    return g.rng.choice([
        ([w], 0),
        (["se falso entao", "   " + w, "fim"], 1),
        (["se falso entao", "   mostra 1", "senao", "   " + w, "fim"], 3),
        (["escolha 1:", "   caso 1:", "      " + w, "fim"], 2),
        (["iguala 1", "   n => faca", "      " + w, "   fim", "fim"], 2),
        (["enquanto falso faca", "   mostra 1", "fim", w], 3),
        (["para k1 de 0..1 faca", "   mostra 1", "fim", w], 3),
        (["enquanto falso faca", "   enquanto falso faca", "      mostra 1", "   fim", "fim", w], 5),
    ])


@rule("C06", top=True)
def loop_ctl_func(g):
    w = g.rng.choice(["quebra", "continua"])
    return g.rng.choice([
        ([f"func {unused(g)}()", "   " + w, "fim"], 1),
        ([f"func {unused(g)}(): int", "   se falso entao", "      " + w, "   fim", "   retorna 1", "fim"], 2),
        ([f"func {unused(g)}()", "   para k1 de 0..1 faca", "      mostra 1", "   fim", "   " + w, "fim"], 4),
        ([f"met int::{unused(g)}(alvo)", "   " + w, "fim"] if g.sees("int") else [w], 1 if g.sees("int") else 0),
    ])


@rule("C06")
def produz_outside(g):
    if g.yields:
        return None
    e = g.expr(g.rng.choice(SCALARS), 1).text
    return g.rng.choice([
        ([f"produz {e}"], 0),
        (["se falso entao", f"   produz {e}", "fim"], 1),
        (["enquanto falso faca", f"   produz {e}", "fim"], 1),
        (["iguala 1", "   n => 1", "fim", f"produz {e}"], 3),
    ])


@rule("C06")
def produz_not_last(g):
    v = pick(g, own_vars(g, lambda t: t == "int"))
    h = f"{v.name} = " if v else ""
    return g.rng.choice([
        ([f"{h}iguala 1", "   n => faca", "      produz 1", "      mostra 2", "   fim", "fim"], 2),
        ([f"{h}iguala 1", "   n => faca", "      se verdadeiro entao", "         produz 1", "      senao", "         produz 2", "      fim",
          "   fim", "fim"], 3),
        ([f"{h}iguala 1", "   n => faca", "      se verdadeiro entao", "         produz 1", "      fim", "      produz 2", "   fim", "fim"], 3),
    ])


@rule("C06")
def produz_and_return(g):
    if g.fn is None or g.in_arm or g.yields:
        return None
    v = pick(g, own_vars(g, lambda t: t == "int"))
    h = f"{v.name} = " if v else ""
    r = "retorna" if g.fn.ret == "vazio" else f"retorna {g.want(g.fn.ret, 1).text}"
    return g.rng.choice([
        ([f"{h}iguala 1", "   n => faca", "      se verdadeiro entao", "         " + r, "      fim", "      produz 1", "   fim", "fim"], 5),
        ([f"{h}iguala 1", "   n => faca", "      enquanto verdadeiro faca", "         " + r, "      fim", "      produz 1", "   fim", "fim"], 5),
    ])


@rule("C06", top=True)
def no_return(g):
    n = unused(g)
    t = g.rng.choice(SCALARS)
    r = f"retorna {g.lit(t).text}"
    head = f"func {n}(c: bool): {t}" if g.chance(0.7) or not g.sees("texto") else f"met texto::{n}(alvo, c: bool): {t}"
    body = g.rng.choice([
        [], ["mostra 1"], ["se c entao", "   " + r, "fim"], ["se c entao", "   " + r, "senao", "   mostra 1", "fim"],
        ["se c entao", "   mostra 1", "senao", "   " + r, "fim"],
        ["se c entao", "   " + r, "senaose c entao", "   mostra 1", "senao", "   " + r, "fim"],
        ["se c entao", "   " + r, "senaose c entao", "   " + r, "fim"],
        ["escolha 1:", "   caso 1:", "      " + r, "fim"],
        ["escolha 1:", "   caso 1:", "      mostra 1", "   senao:", "      " + r, "fim"],
        ["escolha 1:", "   caso 1:", "      " + r, "   senao:", "      mostra 1", "fim"],
        ["iguala 1", "   0 => faca", "      " + r, "   fim", "   k => faca", "      mostra 1", "   fim", "fim"],
        ["iguala 1", "   0 => faca", "      mostra 1", "   fim", "   k => faca", "      " + r, "   fim", "fim"],
        ["se iguala 1 => 0 entao", "   " + r, "fim"],
        ["enquanto c faca", "   se c entao", "      " + r, "   fim", "fim"],
    ])
    return [head] + ["   " + b for b in body] + ["fim"], 0


# --------------------------------------------------------------- C07: patterns
def uni_target(g):
    u = pick(g, [u for u in g.types_of("uni") if g.visible().get(u.name) is u])
    return u and (u, g.expr(("uni", u), 2).text)


@rule("C07")
def not_exhaustive(g):
    if g.chance(0.3):
        t = g.rng.choice(["int", "texto", "bool", "real"])
        if t in ("bool", "real"):
            return None
        arms = [f"   {g.pat_lit(t)[0]} => 1" for _ in range(g.rng.choice([1, 2]))]
        return [f"iguala {g.expr(t, 2).text}"] + arms + ["fim"], 0
    c = uni_target(g)
    if not c or len(c[0].variants) < 2:
        return None
    u, e = c
    names = list(u.variants)
    names.pop(g.rng.randrange(len(names)))
    g.rng.shuffle(names)
    arms = []
    for n in names:
        ps = [f"p{i}" for i in range(len(u.variants[n]))]
        arms.append(f"   {u.name}::{n}" + (f"({', '.join(ps)})" if ps else "") + " => 1")
    return [f"iguala {e}"] + arms + ["fim"], 0


@rule("C07")
def pattern_type(g):
    us = [u for u in g.types_of("uni") if g.visible().get(u.name) is u]
    k = g.rng.random()
    if k < 0.3:
        t, p = g.rng.choice([("int", "'a'"), ("texto", "1"), ("bool", "1"), ("real", "1"), ("real", "'a'")])
        return [f"iguala {g.expr(t, 1).text}", f"   {p} => 1", "   n => 2", "fim"], 1
    u = pick(g, us)
    if not u:
        return None
    n = g.rng.choice(list(u.variants))
    ps = u.variants[n]
    full = f"{u.name}::{n}" + (f"({', '.join(f'p{i}' for i in range(len(ps)))})" if ps else "")
    e = g.expr(("uni", u), 1).text
    if k < 0.45:
        return [f"iguala {g.expr('int', 1).text}", f"   {full} => 1", "   n => 2", "fim"], 1
    if k < 0.55:
        return [f"iguala {e}", "   1 => 1", "   n => 2", "fim"], 1
    if k < 0.65 and len(us) > 1:
        w = g.rng.choice([x for x in us if x is not u])
        return [f"iguala {g.expr(('uni', w), 1).text}", f"   {full} => 1", "   n => 2", "fim"], 1
    if k < 0.85:
        m = len(ps) + g.rng.choice([-1, 1])
        if m < 0:
            m = 1
        p = f"{u.name}::{n}" + (f"({', '.join(f'p{i}' for i in range(m))})" if m else "")
        return [f"iguala {e}", f"   {p} => 1", "   n => 2", "fim"], 1
    if ps:
        i = g.rng.randrange(len(ps))
        bad = {"int": "'a'", "texto": "1"}.get(ps[i] if isinstance(ps[i], str) else "", "1")
        qs = [bad if j == i else f"p{j}" for j in range(len(ps))]
        return [f"iguala {e}", f"   {u.name}::{n}({', '.join(qs)}) => 1", "   n => 2", "fim"], 1
    return None


@rule("C07")
def pattern_twice(g):
    c = [(u, n) for u in g.types_of("uni") if g.visible().get(u.name) is u for n, ps in u.variants.items() if len(ps) > 1]
    if not c:
        return None
    u, n = g.rng.choice(c)
    qs = [f"p{j}" for j in range(len(u.variants[n]))]
    i, j = g.rng.sample(range(len(qs)), 2)
    qs[i] = qs[j]
    return [f"iguala {g.expr(('uni', u), 1).text}", f"   {u.name}::{n}({', '.join(qs)}) => 1", "   k => 2", "fim"], 1


@rule("C07")
def match_vazio(g):
    fs = g.fns_of("vazio")
    if not fs:
        return None
    f, t = g.rng.choice(fs)
    return [f"iguala {g.call_fn(f, t, 1).text}", "   n => 1", "fim"], 0


@rule("C07")
def not_a_variant(g):
    r = pick(g, [r for r in g.types_of("reg") if g.visible().get(r.name) is r])
    n = r.name if r else None
    return n and ([f"iguala {g.expr('int', 1).text}", f"   {n}(x) => 1", "   n => 2", "fim"], 1)


# ---------------------------------------------------------------- C12: modules
@rule("C12")
def foreign_assign(g):
    gl = [v for v in g.syms("var") if v.glob and v.mod != g.name]
    al = g.mod_all_vars() if hasattr(g, "mod_all_vars") else [
        (m, v) for m in g.syms("mod") for v in m.gen.scopes[0].values() if v.kind == "var" and v.mod == m.gen.name]
    k = []
    v = pick(g, gl)
    if v:
        k += [f"{v.name} = {g.want(v.ty, 1).text}"]
        if v.ty in NUMS:
            k += [f"{v.name} += {g.expr('int', 1).text}"]
        w = pick(g, own_vars(g, lambda t: promotes(v.ty, t)))
        if w:
            k += [f"{w.name} = {v.name} = {g.want(v.ty, 1).text}"]
    if al:
        m, v = g.rng.choice(al)
        k += [f"{m.name}.{v.name} = {g.want(v.ty, 1).text}"]
        if v.ty in NUMS:
            k += [f"{m.name}.{v.name} += {g.expr('int', 1).text}"]
    return k and ([g.rng.choice(k)], 0)


@rule("C12")
def not_imported(g):
    """A name that exists in an imported module but was not asked for."""
    names = []
    for h in g.imports:
        names += [n for n, s in h.scopes[0].items() if s.kind in ("var", "fn") and n not in g.visible()]
    if not names:
        return None
    n = g.rng.choice(names)
    return [g.rng.choice([f"mostra {n}", f"{n}()", f"{n} = 1"])], 0


@rule("C12", top=True)
def bad_import(g):
    mods = [h.name for h in g.imports]
    k = [f'usa "nao_existe"', f'usa "nao_existe" => k9', 'usa "x/nao_existe" => [a]']
    if mods:
        m = g.rng.choice(mods)
        k += [f'usa "{m}" => [zz_nao]', f'usa "{m}" => [zz_nao]']
    return [g.rng.choice(k)], 0
