"""C14: generic types (positions of type arguments, everywhere they occur), and determinism.

The declared types are built at random; the oracle substitutes arguments for
parameters by position and knows equality and implicit conversion.
Generic records cannot be built by programs, so what is observed is which programs
the compiler accepts, and where it reports the others."""
import hashlib
import os
import random
import shutil
import subprocess
import sys
import tempfile

from . import lang, progs, vmrun

PRIM = ["int", "real", "bool", "texto"]


def text(t):
    k = t[0]
    if k == "prim" or k == "tvar" or k == "reg":
        return t[1]
    if k == "vec":
        return f"[{text(t[1])}]"
    if k == "opt":
        return f"Opcao[{text(t[1])}]" if t[1][0] == "opt" else text(t[1]) + "?"
    return f"{t[1]}[{', '.join(map(text, t[2]))}]"


def subst(t, m):
    k = t[0]
    if k == "tvar":
        return m.get(t[1], t)
    if k in ("vec", "opt"):
        return (k, subst(t[1], m))
    if k == "inst":
        return (k, t[1], tuple(subst(a, m) for a in t[2]))
    return t


def prom(a, b):
    if a == b:
        return True
    if b == ("prim", "indef"):
        return a[0] != "tvar"
    if b == ("prim", "real"):
        return a == ("prim", "int")
    if b[0] == "opt":
        return prom(a, b[1])
    return False


class Gen:
    def __init__(self, seed):
        self.rng = random.Random(seed)
        self.L = []
        self.types = {}     # name -> (params, fields, methods)
        self.bad = None
        self.wrong = self.rng.random() < .5
        self.n = 0

    def pick(self, params, depth, inst=True):
        """A type over the type variables `params`."""
        r = self.rng
        x = r.random()
        if depth and x < .25:
            t = self.pick(params, depth - 1)
            return ("vec", t)
        if depth and x < .4:
            t = self.pick(params, depth - 1)
            return t if t[0] == "opt" else ("opt", t)
        if depth and inst and self.types and x < .65:
            n = r.choice(list(self.types))
            return ("inst", n, tuple(self.pick(params, depth - 1) for _ in self.types[n][0]))
        if params and x < .9:
            return ("tvar", r.choice(params))
        return r.choice([("prim", p) for p in PRIM] + [("reg", "Reg")])

    def build(self):
        r, L = self.rng, self.L
        L += ["registo Reg", " v: int", "fim"]
        for i in range(r.choice([1, 2, 3])):
            self.record(f"G{i}")
            for _ in range(r.choice([0, 1, 2])):
                self.method(f"G{i}")
        for _ in range(r.choice([1, 2, 4])):
            self.probe()
        while self.wrong and self.bad is None:
            self.probe()
        return "\n".join(L) + "\n"

    def names(self, k):
        pool = ["A", "B", "C", "T", "Z", "U"]
        self.rng.shuffle(pool)
        return pool[:k]

    def record(self, name):
        r = self.rng
        ps = self.names(r.choice([1, 2, 2, 3, 3]))
        fields = {f"f{i}": self.pick(ps, 2) for i in range(r.choice([1, 2, 3, 4]))}
        self.L.append(f"registo {name}[{', '.join(ps)}]")
        self.L += [f" {f}: {text(t)}" for f, t in fields.items()]
        self.L.append("fim")
        self.types[name] = (ps, fields, {})

    def method(self, name):
        """A method; its type variables may have other names, in any order."""
        r = self.rng
        ps, fields, methods = self.types[name]
        vs = r.choice([list(ps), r.sample(ps, len(ps)), self.names(len(ps))])
        decl = r.sample(vs, len(vs)) if r.random() < .3 else vs
        to = {v: ("tvar", p) for v, p in zip(vs, ps)}          # method's name -> record's name
        back = {p: ("tvar", v) for v, p in zip(vs, ps)}
        params = {f"p{i}": self.pick(vs, 1, False) for i in range(r.choice([0, 1, 2, 3]))}
        m = f"m{len(methods)}"
        # what the body can return: (text, type in the method's names)
        can = [(p, t) for p, t in params.items()] + [(f"alvo.{f}", subst(t, back)) for f, t in fields.items()]
        can += [(f"{e}[0]", t[1]) for e, t in can if t[0] == "vec"]
        e, t = r.choice(can)
        ret = t
        if self.wrong and self.bad is None and r.random() < .4:
            ret = r.choice([x for _, x in can] + [("tvar", v) for v in vs] + [("prim", "int"), ("prim", "bool")])
        self.L.append(f"met[{', '.join(decl)}] {name}[{', '.join(vs)}]::{m}({', '.join(['alvo'] + [f'{p}: {text(x)}' for p, x in params.items()])}): {text(ret)}")
        self.L.append(f" retorna {e}")
        if not prom(t, ret):
            self.bad = len(self.L)
        self.L.append("fim")
        methods[m] = ([subst(x, to) for x in params.values()], subst(ret, to))

    def paths(self, e, t, depth=2):
        """Everything that can be read from e: (text, type, params of the function that are needed)."""
        out = [(e, t, ())]
        if not depth:
            return out
        if t[0] == "vec":
            out += self.paths(e + "[0]", t[1], depth - 1)
        elif t[0] == "opt":
            out += self.paths(e + ".valor", t[1], depth - 1)
            out.append((f"{e}.valor_ou(@)", t[1], (t[1],)))
        elif t[0] == "inst":
            ps, fields, methods = self.types[t[1]]
            m = dict(zip(ps, t[2]))
            for f, x in fields.items():
                out += self.paths(f"{e}.{f}", subst(x, m), depth - 1)
            for f, (args, ret) in methods.items():
                out.append((f"{e}.{f}({', '.join('@' * len(args))})", subst(ret, m), tuple(subst(a, m) for a in args)))
        return out

    def probe(self):
        r, L = self.rng, self.L
        name = r.choice(list(self.types))
        fault = r.choice(["type", "type", "arg", "arity", "number", "plain"]) if self.wrong and self.bad is None and r.random() < .6 else None
        ps = self.types[name][0]
        t = ("inst", name, tuple(self.pick([], 2) for _ in ps))
        self.n += 1
        if fault == "arity":
            k = r.choice([len(ps) - 1, len(ps) + 1])
            if k:
                args = [self.pick([], 1) for _ in range(k)]
                L.append(f"func b{self.n}(v: {name}[{', '.join(map(text, args))}])")
                self.bad = len(L)
                L.append("fim")
            return
        if fault == "plain":
            L.append(f"func b{self.n}(v: {r.choice(PRIM + ['Reg'])}[int])")
            self.bad = len(L)
            L.append("fim")
            return
        e, x, args = r.choice(self.paths("v", t))
        given = list(args)
        if fault == "arg" and args:
            i = r.randrange(len(args))
            given[i] = r.choice([self.pick([], 1)] + list(args) + list(t[2]))
        for a in range(len(given)):
            e = e.replace("@", f"a{a}", 1)
        want = x
        if fault == "type":
            want = r.choice([self.pick([], 1)] + list(t[2]))
        elif r.random() < .2:
            want = r.choice([("opt", x), ("prim", "indef"), x]) if x[0] != "opt" else ("prim", "indef")
        if fault == "number" and args:
            e = e[:-1] + ", 1)"
        L.append(f"func b{self.n}({', '.join([f'v: {text(t)}'] + [f'a{i}: {text(a)}' for i, a in enumerate(given)])})")
        L.append(f" q: {text(want)} = {e}")
        ok = prom(x, want) and all(prom(g, a) for g, a in zip(given, args)) and not (fault == "number" and args)
        if not ok:
            self.bad = len(L)
        L.append("fim")


def standin(r, tier, seed, deadline):
    from . import env
    env.plain()

    def one(i):
        s = f"{seed}-generic-{i}"
        g = Gen(s)
        src = g.build()
        files = {"m.ama": src}
        res = vmrun.execute(files, run=False)
        res.pop("blob", None)
        what = None
        if res["status"] == "crash":
            what = f"the compiler crashes: {res['detail']}"
        elif g.bad and res["status"] == "ok":
            what = f"an ill-typed program is accepted (line {g.bad})"
        elif g.bad and res["line"] != g.bad:
            what = f"the error is at line {res['line']}, the ill-typed construct is at line {g.bad}: {res['message']}"
        elif not g.bad and res["status"] == "error":
            what = f"a correct program is refused: line {res['line']}: {res['message']}"
        if what:
            return s, None, {"key": f"generic {s}", "what": what, "files": files, "observed": res, "listing": progs.listing(files)}
        return s, src if i < 3 else None, None
    progs.small(r, deadline, one)


WORKER = """
import hashlib, json, os, sys
sys.path.insert(0, {home!r})
from standin import env, vmrun
env.plain()
for d in json.load(sys.stdin):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        x = vmrun.compile_files({{}}, "m.ama", d)
        os.write(w, json.dumps([x[0], hashlib.sha256(x[1]).hexdigest()] if x[0] == "ok" else list(x)).encode())
        os._exit(0)
    os.close(w)
    b = b""
    while c := os.read(r, 65536):
        b += c
    os.waitpid(pid, 0)
    print(json.dumps([d, b.decode()]), flush=True)
"""


def determinism(r, tier, seed, deadline):
    """The same sources, compiled in processes that hash differently."""
    import json
    from . import bad
    home = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

    def one(i):
        top = tempfile.mkdtemp(prefix="amadet")
        try:
            dirs = {}
            for j in range(24):
                s = f"{seed}-same-{i}-{j}"
                if j % 6 == 5:
                    files = {"m.ama": Gen(s).build()}
                elif j % 6 == 4:
                    files = lang.Program(s, 8, modules=j % 3, bad=bad.plant("C04", i + j, None)).files()
                else:
                    files = lang.Program(s, 14, modules=j % 4).files()
                d = os.path.join(top, str(j))
                for n, t in files.items():
                    p = os.path.join(d, n)
                    os.makedirs(os.path.dirname(p), exist_ok=True)
                    with open(p, "w") as f:
                        f.write(t)
                dirs[d] = files
            got = {}
            for h in ("0", "1", "77", "random"):
                p = subprocess.run([sys.executable, "-c", WORKER.format(home=home)], input=json.dumps(list(dirs)), text=True,
                                   capture_output=True, env={**os.environ, "PYTHONHASHSEED": h}, timeout=240)
                if p.returncode:
                    raise RuntimeError(p.stderr[-800:])
                for line in p.stdout.split("\n"):
                    if line:
                        d, x = json.loads(line)
                        got.setdefault(d, []).append(x)
            for d, xs in got.items():
                if len(set(xs)) > 1:
                    return f"batch {i}", None, {"key": f"same {seed}-{i}-{os.path.basename(d)}", "files": dirs[d], "observed": xs,
                                                "what": "the same sources compile to different results in different processes",
                                                "listing": progs.listing(dirs[d])}
            return f"batch {i}", {"programs": len(got), "runs": 4} if i < 2 else None, None
        finally:
            shutil.rmtree(top, ignore_errors=True)
    progs.small(r, deadline, one)
