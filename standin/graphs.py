"""C12: random import graphs, import modes and spellings of paths.

Every module announces its initialisation, keeps state of its own and uses what its
imports make visible; the oracle is a direct reading of the rules."""
import random

from . import modlint, progs, vmrun


class Graph:
    def __init__(self, seed):
        rng = self.rng = random.Random(seed)
        self.n = rng.choice([1, 2, 3, 4, 5, 6, 8])
        # files of one name in several directories are different modules
        pool = ["a", "b", "sub/c", "d", "sub/e", "lib/f", "g", "h"]
        if seed.endswith(("1", "4", "7")):
            pool = ["a", "sub/a", "lib/a", "A", "sub/m", "sub/sub/a", "lib/sub/a", "m.b"]
            rng.shuffle(pool)
        self.names = ["m"] + pool[:self.n]
        self.bad = None          # (file, lines that may be reported)
        self.cyclic = rng.random() < .2
        self.wrong = not self.cyclic and rng.random() < .3
        order = list(range(self.n + 1))
        self.imports = {k: [] for k in order}
        dens = rng.choice([.25, .5, .9])
        for k in order:
            later = [j for j in order if j > k]
            rng.shuffle(later)
            self.imports[k] = [j for j in later if rng.random() < dens]
            if k == 0 and not self.imports[0]:
                self.imports[0] = [1]
        if self.cyclic:
            a = rng.randrange(self.n + 1)
            b = rng.randrange(a + 1)
            # an edge back, from a module that is reached
            self.imports[a].insert(rng.randrange(len(self.imports[a]) + 1), b)
        reach = self.reach(0)
        for k in range(1, self.n + 1):
            if k not in reach:
                self.imports[0].append(k)
                reach |= self.reach(k)
        # a module can be imported again, in another way
        for k in order:
            if self.imports[k] and rng.random() < .25:
                self.imports[k].append(rng.choice(self.imports[k]))
        # an edge back closes a cycle only when it reaches its start again
        self.cyclic = any(k in self.reach(j) for k in order for j in self.imports[k])
        # some only import, or have nothing at all
        self.empty = {k for k in order if k and rng.random() < .12}
        self.suffix = {k: rng.choice(["", "", str(k)]) if k else "0" for k in order}
        self.vals = {}
        self.scope = {}
        self.lines = {k: [] for k in order}
        self.body = {k: [] for k in order}
        self.usas = {k: [] for k in order}

    def reach(self, k):
        out, todo = set(), [k]
        while todo:
            x = todo.pop()
            if x not in out:
                out.add(x)
                todo += self.imports[x]
        return out

    def path(self, k):
        n = self.names[k]
        r = self.rng.random()
        if n.startswith("lib/") and r < .5 and n[4:] not in self.names:
            # found through the import paths
            n = n[4:]
        elif r < .2:
            n = "./" + n
        elif r < .3:
            n = "sub/../" + n
        if self.rng.random() < .25:
            n += ".ama"
        q = self.rng.choice("'\"")
        return q + n + q

    def own(self, k):
        if k in self.empty:
            return {}
        s = self.suffix[k]
        return {f"x{s}": (k, "var"), f"y{s}": (k, "var"), f"get{s}": (k, "get"), f"bump{s}": (k, "bump"), f"R{s}": (k, "reg")}

    def write(self, k):
        """Writes module k; the modules it imports have been written, unless there is a cycle."""
        rng, L = self.rng, self.lines[k]
        sc = self.scope[k] = {}
        alias = []
        for j in self.imports[k]:
            mode = rng.choice(["global", "scoped", "item"])
            have = self.scope.get(j, self.own(j))
            clash = [n for n, s in have.items() if n in self.own(k) or sc.get(n, s) != s]
            if mode == "global" and not clash:
                L.append(f"usa {self.path(j)}")
                sc.update(have)
            elif mode == "item" and (pick := [n for n, s in have.items() if n not in clash and rng.random() < .6 and s[1] != "mod"]):
                L.append(f"usa {self.path(j)} => [{', '.join(pick)}]")
                sc.update({n: have[n] for n in pick})
            else:
                al = f"m{k}_{len(L)}"
                L.append(f"usa {self.path(j)} => {al}")
                sc[al] = (j, "mod")
            self.usas[k].append(len(L))
        if k in self.empty:
            L += rng.choice([[], [""], ["# nada"]])
            return
        sc.update(self.own(k))
        s = self.suffix[k]
        v0 = rng.randrange(100)
        L.append(f'mostra "init {k}"')
        L += [f"x{s}: int = {v0}", f"y{s}: texto = 'y{k}'", f"func get{s}(): int", f" retorna x{s} + 0", "fim",
              f"func bump{s}(x: int, n: int): texto" if s else "func bump(z: int, n: int): texto", f" x{s} = x{s} + n", f" retorna y{s}", "fim",
              f"registo R{s}", " a: int,"[:-1], "fim", f"met R{s}::p(alvo): int", f" retorna alvo.a + x{s}", "fim"]
        self.body[k].append(("init", k, v0))
        for _ in range(rng.choice([1, 2, 4, 6])):
            self.use(k)
        if self.wrong and self.bad is None and (rng.random() < .5 or k == 0):
            self.fault(k)
            for _ in range(2):
                self.use(k)

    def refs(self, k):
        """(text, module, kind) of everything k can name."""
        out = []
        for n, (j, kind) in self.scope[k].items():
            if kind == "mod":
                out += [(f"{n}.{m}", i, kd) for m, (i, kd) in self.own(j).items()]
            else:
                out.append((n, j, kind))
        return out

    def use(self, k):
        rng, L = self.rng, self.lines[k]
        t, j, kind = rng.choice(self.refs(k))
        if kind == "get":
            L.append(f"mostra {t}()")
            self.body[k].append(("x", j))
        elif kind == "bump":
            n = rng.randrange(1, 9)
            L.append(f"mostra {t}(7, {n})")
            self.body[k].append(("bump", j, n))
        elif kind == "reg":
            a = rng.randrange(50)
            L.append(f"r{len(L)}_{k}: {t} = {t}(a: {a})")
            v = L[-1].split(":")[0]
            L.append(f"mostra {v}.p()")
            self.body[k].append(("reg", j, a))
        elif t.split(".")[-1].startswith("x"):
            if j == k and rng.random() < .5:
                n = rng.randrange(9)
                L.append(f"{t} = {t} + {n}")
                self.body[k].append(("set", j, n))
            L.append(f"mostra {t}")
            self.body[k].append(("x", j))
        else:
            L.append(f"mostra {t}")
            self.body[k].append(("y", j))

    def fault(self, k):
        rng, L = self.rng, self.lines[k]
        ext = [(t, j, kd) for t, j, kd in self.refs(k) if j != k]
        names = set(self.scope[k])
        hidden = [n for j in self.imports[k] for n in self.own(j) if n not in names]
        c = []
        for t, j, kd in ext:
            base = t.split(".")[-1][0]
            if kd == "var" and base == "x":
                c += [f"{t} = 3", f"{t} += 1"]
                own = [n for n, s in self.own(k).items() if s[1] == "var" and n[0] == "x"]
                c += [f"{own[0]} = {t} = 4"]
        c += [f"mostra {n}" for n in hidden if n[0] in "xy"] + [f"mostra {n}()" for n in hidden if n[0] == "g"]
        c += [f"usa 'nada{k}'", f"usa 'sub' => q{k}"] + [f"usa '{self.names[j]}' => [zz]" for j in self.imports[k]]
        # a name that is in use already
        al = [n for n in names if n[0] != "m"]
        c += [f"usa '{self.names[j]}' => {rng.choice(al)}" for j in self.imports[k][:1]]
        L.append(rng.choice(c))
        self.bad = (self.names[k] + ".ama", [len(L)])

    def build(self):
        done = []

        def go(k, stack):
            if k in stack:
                return
            for j in self.imports[k]:
                if j not in done:
                    go(j, stack + [k])
            if k not in done:
                self.write(k)
                done.append(k)
        go(0, [])
        self.order = self.load()
        return {self.names[k] + ".ama": "\n".join(self.lines[k]) + "\n" for k in range(self.n + 1)}

    def load(self):
        out = []

        def go(k):
            for j in self.imports[k]:
                if j not in out:
                    go(j)
            if k not in out:
                out.append(k)
        if self.cyclic:
            return None
        go(0)
        return out

    def run(self):
        x, out = {}, []
        for k in self.order:
            for op in self.body[k]:
                if op[0] == "init":
                    out.append(f"init {k}")
                    x[k] = op[2]
                elif op[0] == "x":
                    out.append(str(x[op[1]]))
                elif op[0] == "set":
                    x[op[1]] += op[2]
                elif op[0] == "bump":
                    x[op[1]] += op[2]
                    out.append(f"y{op[1]}")
                elif op[0] == "reg":
                    out.append(str(op[2] + x[op[1]]))
                else:
                    out.append(f"y{op[1]}")
        return "".join(o + "\n" for o in out)


def standin(r, tier, seed, deadline):
    vm = progs.start()

    def one(i):
        s = f"{seed}-graph-{i}"
        g = Graph(s)
        files = g.build()
        res = vmrun.execute(files, run=vm is not None, paths=["lib"])
        blob = res.pop("blob", None)
        what = None
        if res["status"] == "crash":
            what = f"the compiler crashes: {res['detail']}"
        elif g.cyclic:
            k = [k for k in g.lines if g.names[k] + ".ama" == res.get("file")]
            if res["status"] == "ok":
                what = "a cyclic import is accepted"
            elif not k or res["line"] not in g.usas[k[0]]:
                what = f"a cyclic import is reported at {res['file']}:{res['line']}, which is no import"
        elif g.bad:
            if res["status"] == "ok":
                what = f"an illegal use of a module is accepted ({g.bad[0]}:{g.bad[1]})"
            elif (res["file"], res["line"]) != (g.bad[0], g.bad[1][0]):
                what = f"the error is at {res['file']}:{res['line']}, the illegal use is at {g.bad}"
        elif res["status"] == "error":
            what = f"a correct program is refused: {res['file']}:{res['line']}: {res['message']}"
        else:
            doc = modlint.decode(blob)
            mods = [m["name"] for m in doc["imports"] if not m["builtin"]]
            want = [g.names[k].split("/")[-1] for k in g.order[:-1]]
            bad = modlint.lint(doc)
            if mods != want:
                what = f"the modules are initialised in the order {mods}, imports come first in {want}"
            elif bad:
                what = f"the compiled module is wrong ({bad[0][0]}): {bad[0][1]}"
            elif "out" in res and (res["out"], res["err"]) != (g.run(), ""):
                what = "the program prints something else than it says"
                res["expected"] = g.run()
        if what:
            return s, None, {"key": f"graph {s}", "what": what, "files": files, "observed": res, "listing": progs.listing(files)}
        return s, None if i > 3 else {k: g.imports[k] for k in g.imports}, None
    progs.small(r, deadline, one)
