"""C06: random statement bodies against an independent account of their paths.

A body is a tree of statements whose conditions are elements of the parameters, so
that every path can be taken; each `retorna` has a number of its own.
"""
import random

from . import progs, vmrun


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Ret(Exception):
    pass


class Body:
    def __init__(self, seed, size):
        self.rng = random.Random(seed)
        self.n = 0        # conditions
        self.rets = 0
        self.loops = 0
        self.size = size
        self.counters = 0
        self.method = self.rng.random() < .3
        self.wide = self.rng.random() < .3
        self.stmts = self.block(2 if self.wide else 4, self.rng.choice([1, 2, 3]), False if self.wide else None)

    def block(self, d, n, must=None):
        out = [self.stmt(d) for _ in range(n)]
        if must if must is not None else self.rng.random() < .45:
            out.insert(self.rng.randrange(len(out) + 1), self.ret())
        return out

    def ret(self):
        self.rets += 1
        return ("ret", self.rets)

    def cond(self):
        self.n += 1
        return self.n - 1

    def stmt(self, d):
        rng = self.rng
        k = rng.random()
        if d == 0 or k < .15:
            if self.loops and rng.random() < .4:
                return (rng.choice(["brk", "cont"]),)
            return ("ret", self.ret()[1]) if rng.random() < .3 else ("simple", rng.randrange(3))
        full = rng.random() < .7
        b = lambda: self.block(d - 1, rng.choice([0, 1, 1, 2]), rng.random() < .75)
        if self.wide and self.rng.random() < .6:
            # many branches, of which at most one does not return
            n = rng.randrange(3, 10)
            odd = rng.randrange(n + 1) if rng.random() < .6 else None
            b = lambda it=iter(range(99)): self.block(0, 0, next(it) != odd)
            c = self.cond()
            if k < .35:
                return ("se", [(c, b())] + [(self.cond(), b()) for _ in range(n - 1)], b())
            if k < .7:
                return ("escolha", c, [(v, b()) for v in range(n)], b())
            return ("igi", c, [(v, b()) for v in range(n)] + [(None, b())])
        if k < .40:
            c = self.cond()
            branches = [(c, b())] + [(self.cond(), b()) for _ in range(rng.choice([0, 0, 1, 2]))]
            return ("se", branches, b() if full else None)
        if k < .54:
            c = self.cond()
            cases = [(v, b()) for v in range(rng.choice([0, 1, 1, 2]))]
            return ("escolha", c, cases, b() if full else None)
        if k < .70:
            c = self.cond()
            arms = [(v, b()) for v in range(3)]
            if rng.random() < .4:
                arms = arms[:rng.randrange(3)] + [(None, b())]
            return ("iguala", c, arms)
        if k < .80:
            c = self.cond()
            return ("seig", c, rng.randrange(3), b(), b() if full else None)
        self.loops += 1
        self.counters += 1
        i = self.counters
        # a loop that returns on every path through its body is another story: see known_findings.jsonl
        body = self.block(d - 1, rng.choice([1, 2]), rng.random() < .15)
        self.loops -= 1
        return ("enq" if rng.random() < .5 else "para", i, rng.choice([0, 1, 2]), body)

    # paths
    @staticmethod
    def returns(stmts, loops):
        return any(Body.ret1(s, loops) for s in stmts)

    @staticmethod
    def ret1(s, loops):
        R = lambda b: b is not None and Body.returns(b, loops)
        k = s[0]
        if k == "ret":
            return True
        if k == "se":
            return all(R(b) for _, b in s[1]) and R(s[2])
        if k == "escolha":
            return all(R(b) for _, b in s[2]) and R(s[3])
        if k in ("iguala", "igi"):
            return all(R(b) for _, b in s[2])
        if k == "seig":
            return R(s[3]) and R(s[4])
        if k in ("enq", "para"):
            return loops and R(s[3])
        return False

    # text
    def text(self, stmts, ind, L):
        p = " " * ind
        T = lambda b: self.text(b, ind + 1, L)
        for s in stmts:
            k = s[0]
            if k == "ret":
                L.append(f"{p}retorna {s[1]}")
            elif k == "simple":
                L.append(p + ["k = k + 1", f"y{len(L)}: int = k", "tam(c)"][s[1]])
            elif k in ("brk", "cont"):
                L.append(p + {"brk": "quebra", "cont": "continua"}[k])
            elif k == "se":
                for i, (c, b) in enumerate(s[1]):
                    L.append(f"{p}{'senaose' if i else 'se'} c[{c}] == {2 if i else 1} entao")
                    T(b)
                if s[2] is not None:
                    L.append(p + "senao")
                    T(s[2])
                L.append(p + "fim")
            elif k == "escolha":
                L.append(f"{p}escolha c[{s[1]}]:")
                for v, b in s[2]:
                    L.append(f"{p}caso {v}:")
                    T(b)
                if s[3] is not None:
                    L.append(f"{p}senao:")
                    T(s[3])
                L.append(p + "fim")
            elif k in ("iguala", "igi"):
                L.append(f"{p}iguala {'c' if k == 'igi' else 'u'}[{s[1]}]")
                for v, b in s[2]:
                    L.append(f"{p}{'_' if v is None else v if k == 'igi' else 'U::' + 'ABC'[v]} => faca")
                    T(b)
                    L.append(p + "fim")
                L.append(p + "fim")
            elif k == "seig":
                L.append(f"{p}se iguala u[{s[1]}] => U::{'ABC'[s[2]]} entao")
                T(s[3])
                if s[4] is not None:
                    L.append(p + "senao")
                    T(s[4])
                L.append(p + "fim")
            elif k == "enq":
                L.append(f"{p}i{s[1]}: int = 0")
                L.append(f"{p}enquanto i{s[1]} < {s[2]} faca")
                L.append(f"{p} i{s[1]} = i{s[1]} + 1")
                T(s[3])
                L.append(p + "fim")
            else:
                L.append(f"{p}para i{s[1]} de 0..{s[2]} faca")
                T(s[3])
                L.append(p + "fim")
        return L

    # execution
    def run(self, stmts, c):
        for s in stmts:
            k = s[0]
            if k == "ret":
                raise Ret(s[1])
            if k == "brk":
                raise Brk
            if k == "cont":
                raise Cont
            if k == "se":
                for i, (x, b) in enumerate(s[1]):
                    if c[x] == (2 if i else 1):
                        self.run(b, c)
                        break
                else:
                    self.run(s[2] or [], c)
            elif k == "escolha":
                b = [b for v, b in s[2] if v == c[s[1]]]
                self.run(b[0] if b else s[3] or [], c)
            elif k in ("iguala", "igi"):
                b = [b for v, b in s[2] if v is None or v == c[s[1]]]
                self.run(b[0], c)
            elif k == "seig":
                self.run(s[3] if c[s[1]] == s[2] else s[4] or [], c)
            elif k in ("enq", "para"):
                for _ in range(s[2]):
                    try:
                        self.run(s[3], c)
                    except Brk:
                        break
                    except Cont:
                        pass

    def result(self, c):
        try:
            self.run(self.stmts, c)
            return None
        except Ret as r:
            return r.args[0]

    def source(self, returning, vectors):
        L = ["uniao U", " A,", " B,", " C", "fim", "registo R", " a: int", "fim"]
        sig = "(c: [int], u: [U])" + (": int" if returning else "")
        if self.method:
            L.append("met R::f" + sig.replace("(", "(alvo, "))
        else:
            L.append("func f" + sig)
        head = len(L)
        L.append(" k: int = 0")
        body = self.text(self.stmts, 1, [])
        if not returning:
            body = [b.split("retorna")[0] + "retorna" if "retorna" in b else b for b in body]
        L += body + ["fim"]
        call = "R(a: 1).f" if self.method else "f"
        for c in vectors:
            a = f"([int: {', '.join(map(str, c))}], [U: {', '.join('U::' + 'ABC'[x] for x in c)}])"
            L.append(f"mostra {call}{a}" if returning else f"{call}{a}")
        return "\n".join(L) + "\n", head


def standin(r, tier, seed, deadline):
    vm = progs.start()

    def one(i):
        s = f"{seed}-ret-{i}"
        b = Body(s, 3)
        if b.n > 40:
            return None
        returning = b.rng.random() < .85
        sure, loose = Body.returns(b.stmts, False), Body.returns(b.stmts, True)
        if returning and sure != loose:
            return None
        vec = [[b.rng.randrange(3) for _ in range(b.n + 1)] for _ in range(12)] if sure or not returning else []
        src, line = b.source(returning, vec)
        files = {"m.ama": src}
        res = vmrun.execute(files, run=vm is not None and bool(vec))
        res.pop("blob", None)
        what = None
        ok = sure or not returning
        if res["status"] == "crash":
            what = f"the compiler crashes: {res['detail']}"
        elif ok and res["status"] == "error":
            what = f"a body that returns on every path is refused: {res['line']}: {res['message']}" if returning else \
                f"a body with well placed jumps is refused: {res['line']}: {res['message']}"
        elif not ok and res["status"] == "ok":
            what = "a body that can reach its end without returning is accepted"
        elif ok and "out" in res:
            want = "".join(f"{b.result(v)}\n" for v in vec) if returning else ""
            if (res["out"], res["err"]) != (want, ""):
                what = "another path is taken than the conditions say"
                res["expected"] = want
        if what:
            return s, None, {"key": f"paths {s}", "what": what, "files": files, "observed": res, "listing": progs.listing(files)}
        return s, src if i < 6 and len(src) < 700 else None, None
    progs.small(r, deadline, one)


def known(r, tier, seed, deadline):
    """The one shape known to be judged wrongly."""
    progs.start()
    for key, body in (("loop-body-return", " enquanto falso faca\n  retorna 1\n fim"),
                      ("loop-body-return", " para i de 0..0 faca\n  retorna 1\n fim")):
        res = vmrun.execute({"m.ama": f"func f(): int\n{body}\nfim\n"}, run=False)
        r.case((key, body))
        if res["status"] == "ok":
            r.fail(key, "a function whose only return is inside a loop is accepted", body=body)


RESULTS = ["int", "real", "texto", "bool", "indef", "int?", "real?", "[int]", "[[texto]]", "R", "U", "U?", "vazio"]
BODIES = {   # text with {r}: a return of the right kind; does it always return?
    "nothing": ("", False), "a value": ("    mostra 1\n", False), "a return": ("    {r}\n", True),
    "a return, then more": ("    {r}\n    mostra 1\n", True),
    "se": ("    se b entao\n        {r}\n    fim\n", False),
    "se senao": ("    se b entao\n        {r}\n    senao\n        {r}\n    fim\n", True),
    "se senao, one returns": ("    se b entao\n        mostra 1\n    senao\n        {r}\n    fim\n", False),
    "se senaose": ("    se b entao\n        {r}\n    senaose nao b entao\n        {r}\n    fim\n", False),
    "se senaose senao": ("    se b entao\n        {r}\n    senaose b entao\n        {r}\n    senao\n        {r}\n    fim\n", True),
    "se senaose senao, the middle one does not": ("    se b entao\n        {r}\n    senaose b entao\n        mostra 1\n    senao\n        {r}\n    fim\n", False),
    "escolha": ("    escolha k:\n        caso 1:\n            {r}\n        caso 2:\n            {r}\n    fim\n", False),
    "escolha senao": ("    escolha k:\n        caso 1:\n            {r}\n        senao:\n            {r}\n    fim\n", True),
    "escolha senao, a case does not": ("    escolha k:\n        caso 1:\n            mostra 1\n        senao:\n            {r}\n    fim\n", False),
    "iguala": ("    iguala u\n        U::A => faca\n            {r}\n        fim,\n        U::B(x) => faca\n            {r}\n        fim\n    fim\n", True),
    "iguala, an arm does not": ("    iguala u\n        U::A => faca\n            {r}\n        fim,\n        U::B(x) => faca\n            mostra x\n        fim\n    fim\n", False),
    "an assignment": ("    k = 2\n", False), "a declaration": ("    t: int = 2\n", False), "a call": ("    g()\n", False),
    "a loop before a return": ("    enquanto falso faca\n        quebra\n    fim\n    {r}\n", True),
    "a loop": ("    enquanto b faca\n        quebra\n    fim\n", False),
    "nested": ("    se b entao\n        se b entao\n            {r}\n        senao\n            {r}\n        fim\n    senao\n        {r}\n    fim\n", True),
    "nested, not all": ("    se b entao\n        se b entao\n            {r}\n        fim\n    senao\n        {r}\n    fim\n", False),
}
JUMPS = {   # statement -> where it may stand
    "quebra": "loop", "continua": "loop", "retorna": "function", "produz 1": "block",
}
PLACES = {   # text with {s}, and what surrounds it
    "top": ("{s}\n", ()), "se": ("se verdadeiro entao\n{s}\nfim\n", ()), "enquanto": ("enquanto falso faca\n{s}\nfim\n", ("loop",)),
    "para": ("para i de 0..2 faca\n{s}\nfim\n", ("loop",)), "se in para": ("para i de 0..2 faca\nse verdadeiro entao\n{s}\nfim\nfim\n", ("loop",)),
    "senaose in enquanto": ("enquanto falso faca\nse verdadeiro entao\nmostra 1\nsenaose falso entao\n{s}\nfim\nfim\n", ("loop",)),
    "escolha in para": ("para i de 0..2 faca\nescolha i:\ncaso 1:\n{s}\nfim\nfim\n", ("loop",)),
    "iguala in enquanto": ("enquanto falso faca\niguala v\nU::A => faca\n{s}\nfim,\nU::B(x) => faca\nmostra x\nfim\nfim\nfim\n", ("loop",)),
    "after an enquanto": ("enquanto falso faca\nmostra 1\nfim\n{s}\n", ()), "after a para": ("para i de 0..2 faca\nmostra i\nfim\n{s}\n", ()),
    "after an inner enquanto": ("para i de 0..2 faca\nenquanto falso faca\nmostra 1\nfim\n{s}\nfim\n", ("loop",)),
    "after an inner para": ("enquanto falso faca\npara i de 0..2 faca\nmostra 1\nfim\n{s}\nfim\n", ("loop",)),
    "function": ("func f(): vazio\n{s}\nfim\n", ("function",)), "se in function": ("func f(): vazio\nse verdadeiro entao\n{s}\nfim\nfim\n", ("function",)),
    "enquanto in function": ("func f(): vazio\nenquanto falso faca\n{s}\nfim\nfim\n", ("function", "loop")),
    "after a loop in function": ("func f(): vazio\nenquanto falso faca\nmostra 1\nfim\n{s}\nfim\n", ("function",)),
    "method": ("met R::m(alvo)\n{s}\nfim\n", ("function",)), "para in method": ("met R::m(alvo)\npara i de 0..2 faca\n{s}\nfim\nfim\n", ("function", "loop")),
    "after a function": ("func f(): vazio\nmostra 1\nfim\n{s}\n", ()), "after a method": ("met R::m(alvo)\nmostra 1\nfim\n{s}\n", ()),
    "after a function with a loop": ("func f(): vazio\nenquanto falso faca\nmostra 1\nfim\nfim\n{s}\n", ()),
    "produced": ("w: int = iguala v\nU::A => faca\n{s}\nfim,\nU::B(x) => 2\nfim\n", ("produced",)),
}


def kinds(r, tier, seed, deadline):
    """Every shape of body for every kind of result, and every jump in every place."""
    progs.start()
    head = "registo R\n    a: int\nfim\nuniao U\n    A,\n    B(int)\nfim\nfunc g(): vazio\nfim\nv: U = U::A\n"
    jobs = []
    for t in RESULTS:
        for meth in (False, True):
            for n, (text, ok) in BODIES.items():
                ret = "retorna" if t == "vazio" else "retorna r"
                src = head + f"{'met R::f(alvo, ' if meth else 'func f('}b: bool, k: int, u: U, r: {'int' if t == 'vazio' else t}){': ' + t if t != 'vazio' else ''}\n{text.replace('{r}', ret)}fim\n"
                jobs.append((f"{'method' if meth else 'function'} of {t}: {n}", src, ok or t == "vazio"))
    for j, want in JUMPS.items():
        for n, (text, around) in PLACES.items():
            if want == "block" or n == "produced":
                ok = n == "produced" and want == "block"
                if n == "produced" and want != "block":
                    continue
                if want == "block" and n.startswith("iguala"):
                    continue
            else:
                ok = want in around
            jobs.append((f"{j} at {n}", head + text.replace("{s}", j), ok))

    def one(i):
        n, src, ok = jobs[i]
        res = vmrun.execute({"m.ama": src}, run=False)
        res.pop("blob", None)
        what = None
        if res["status"] == "crash":
            what = f"the compiler crashes: {res['detail']}"
        elif ok != (res["status"] == "ok"):
            what = f"{n}: " + ("refused: " + str(res.get("message")) if ok else "accepted")
        return n, n if i % 50 == 0 else None, what and {"key": "kinds " + n, "what": what, "files": {"m.ama": src}, "observed": res}
    from .sites import small
    small(r, deadline, one, len(jobs))
