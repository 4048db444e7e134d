"""C07: random unions and pattern matrices against an oracle that enumerates values.

Values are enumerated to the depth of the patterns: integers and texts are those
written in the patterns and one that is not, unions below the deepest pattern are
represented by one value, because no pattern looks inside them.
"""
import itertools
import random
import re

from . import progs, vmrun

CAP = 4000
NAMES = list("abcdfghijklmnopqr") + ["e2"]


# values that are told apart only by all of their characters or digits
INTS = [[0, 1, 2, 7], [0, 1, 2, 7], [0, 2 ** 32, 2 ** 63 - 1], [1, 10, 100], [255, 256, 65536, 65537], [2 ** 53, 2 ** 53 + 1]]
TEXTS = [["", "a", "0"], ["a", " a", "a "], ["a", "A", "á"], ["1", "01", "1.0"], ["", " ", "  "], ["verdadeiro", "falso", "nulo"],
         ["ab", "ba", "b"], ["{a}", "#a", "a"], ["a" * 40, "a" * 41, "a" * 40 + "b"], ["x", "xx", "xxx"], ["é", "e", "É"]]


class Case:
    def __init__(self, seed):
        rng = self.rng = random.Random(seed)
        self.unions = {}
        names = ["U", "W", "Z"][:rng.choice([1, 1, 2, 2, 3])]
        for k, u in enumerate(names):
            vs = {}
            for j in range(rng.choice([1, 2, 2, 3, 3, 4])):
                # the first variant only holds what is already there, so that there are values
                pool = ["int", "texto", "bool"] + names[:k] * 3 + ([u] if j else [])
                vs["ABCDE"[j]] = [rng.choice(pool) for _ in range(rng.choice([0, 0, 1, 1, 2, 2, 3] if j else [0, 0, 1, 2]))]
            self.unions[u] = vs
        self.ty = rng.choice(names * 4 + ["int", "texto"])
        self.lits = {"int": set(), "texto": set()}
        self.pool = {"int": rng.choice(INTS), "texto": rng.choice(TEXTS)}
        self.depth = rng.choice([1, 1, 2, 2, 3])
        self.arms = []
        want = rng.random()
        n = rng.choice([1, 2, 3, 3, 4, 5, 6, 8])
        for _ in range(n):
            self.arms.append(self.pattern(self.ty, self.depth, set()))
        if want < .55:
            # cover what is left, one value at a time or at once
            self.complete()
        if rng.random() < .15 and len(self.arms) > 1:
            del self.arms[rng.randrange(len(self.arms))]

    # patterns: ("lit", v) | ("bind", name) | ("var", u, v, [patterns])
    def pattern(self, ty, d, used):
        rng = self.rng
        k = rng.random()
        if ty in self.unions and d and k < .8:
            v = rng.choice(list(self.unions[ty]))
            return ("var", ty, v, [self.pattern(t, d - 1, used) for t in self.unions[ty][v]])
        if ty in self.lits and k < .5:
            v = rng.choice(self.pool[ty])
            self.lits[ty].add(v)
            return ("lit", v)
        return self.bind(used)

    def bind(self, used):
        c = [n for n in NAMES if n not in used] or [f"z{len(used)}"]
        n = "_" if "_" not in used and self.rng.random() < .3 else self.rng.choice(c)
        used.add(n)
        return ("bind", n)

    def generalise(self, v, ty, used):
        """A pattern that matches v."""
        if ty in self.unions and self.rng.random() < .9:
            return ("var", ty, v[0], [self.generalise(x, t, used) for x, t in zip(v[1], self.unions[ty][v[0]])])
        if ty in self.lits and v in self.lits[ty] and self.rng.random() < .6:
            return ("lit", v)
        return self.bind(used)

    def complete(self):
        for _ in range(8):
            un = self.uncovered()
            if not un:
                return
            self.arms.insert(self.rng.randrange(len(self.arms) + 1), self.generalise(self.rng.choice(un[:50]), self.ty, set()))
        if self.rng.random() < .8:
            self.arms.append(self.bind(set()))

    # values
    def values(self, ty, d):
        if ty in self.lits:
            return sorted(self.lits[ty]) + [99 if ty == "int" else "zz"]
        if ty == "bool":
            return [True]
        if d == 0:
            return [self.least(ty)]
        out = []
        for v, ts in self.unions[ty].items():
            for xs in itertools.product(*[self.values(t, d - 1) for t in ts]):
                out.append((v, xs))
                if len(out) > CAP:
                    raise OverflowError
        return out

    def all(self):
        def levels(p):
            return 1 + max(map(levels, p[3]), default=0) if p[0] == "var" else 0
        return self.values(self.ty, max(map(levels, self.arms)) + 1)

    def least(self, ty):
        if ty in self.unions:
            v = next(iter(self.unions[ty]))
            return (v, tuple(self.least(t) for t in self.unions[ty][v]))
        return {"int": 99, "texto": "zz", "bool": True}[ty]

    @staticmethod
    def match(p, v, out):
        if p[0] == "lit":
            return type(v) is type(p[1]) and v == p[1]
        if p[0] == "bind":
            out[p[1]] = v
            return True
        return v[0] == p[2] and all(Case.match(q, x, out) for q, x in zip(p[3], v[1]))

    def first(self, v):
        for i, p in enumerate(self.arms):
            out = {}
            if self.match(p, v, out):
                return i, out
        return None

    def uncovered(self):
        return [v for v in self.all() if self.first(v) is None]

    # text
    def ptext(self, p):
        if p[0] == "lit":
            return str(p[1]) if isinstance(p[1], int) else f"'{p[1]}'" if self.rng.random() < .5 else f'"{p[1]}"'
        if p[0] == "bind":
            return p[1]
        return f"{p[1]}::{p[2]}" + (f"({', '.join(map(self.ptext, p[3]))})" if p[3] else "")

    def btypes(self, p, ty, out):
        if p[0] == "bind":
            out[p[1]] = ty
        elif p[0] == "var":
            for q, t in zip(p[3], self.unions[p[1]][p[2]]):
                self.btypes(q, t, out)
        return out

    def vtext(self, v, ty):
        if ty in self.unions:
            return f"{ty}::{v[0]}" + (f"({', '.join(self.vtext(x, t) for x, t in zip(v[1], self.unions[ty][v[0]]))})" if v[1] else "")
        return "verdadeiro" if v is True else str(v) if isinstance(v, int) else f"'{v}'"

    def show(self, v, ty):
        if ty in self.unions:
            return f"{ty}.{v[0]}" + "".join(f"<{self.show(x, t)}>" for x, t in zip(v[1], self.unions[ty][v[0]]))
        return "verdadeiro" if v is True else str(v)

    def render(self, name, ty):
        return f"{{s{ty}({name})}}" if ty in self.unions else f"{{{name}}}"

    def source(self, values):
        rng, L = self.rng, []
        for u, vs in self.unions.items():
            L.append(f"uniao {u}")
            vs = list(vs.items())
            for k, (v, ts) in enumerate(vs):
                L.append(f" {v}" + (f"({', '.join(ts)})" if ts else "") + ("," if k < len(vs) - 1 else ""))
            L.append("fim")
        for u, vs in self.unions.items():
            L += [f"func s{u}(v: {u}): texto", " retorna iguala v"]
            for v, ts in vs.items():
                ns = [f"x{i}" for i in range(len(ts))]
                L.append(f"  {u}::{v}" + (f"({', '.join(ns)})" if ns else "") + " => f'" + f"{u}.{v}" + "".join(
                    f"<{self.render(n, t)}>" for n, t in zip(ns, ts)) + "'")
            L += [" fim", "fim"]
        expr = rng.random() < .5
        L += [f"func ident(v: {self.ty}): {self.ty}", " retorna v", "fim"]
        L.append(f"func t(v: {self.ty}): texto")
        if rng.random() < .5:
            L.append(" z: int = 5")
        tgt = "v" if rng.random() < .6 else "ident(v)"
        line = len(L) + 1
        L.append(f" {'retorna ' if expr else ''}iguala {tgt}")
        for i, p in enumerate(self.arms):
            b = self.btypes(p, self.ty, {})
            res = f"'{i}" + "".join(f" {n}={self.render(n, t)}" for n, t in sorted(b.items()) if n != "_") + "'"
            if "{" in res:
                res = "f" + res
            if expr:
                L.append(f"  {self.ptext(p)} => {res}")
            else:
                L += [f"  {self.ptext(p)} => faca", f"   retorna {res}", "  fim"]
        L += [" fim"]
        if not expr:
            L += [" retorna 'fora'"]
        L += ["fim"]
        want = []
        for v in values:
            L.append(f"mostra t({self.vtext(v, self.ty)})")
            i, b = self.first(v) or (None, {})
            ts = self.btypes(self.arms[i], self.ty, {}) if i is not None else {}
            want.append(f"{i}" + "".join(f" {n}={self.show(x, ts[n])}" for n, x in sorted(b.items()) if n != "_"))
        return "\n".join(L) + "\n", line, "".join(w + "\n" for w in want)


# ------------------------------------------------------------------- named missing patterns
def parse_pattern(s):
    toks = re.findall(r"\w+::\w+|-?\d+|'[^']*'|\"[^\"]*\"|_|[(),]", s)
    if "".join(toks) != s.replace(" ", ""):
        raise ValueError(s)

    def go(i):
        t = toks[i]
        if t == "_":
            return ("bind", "_"), i + 1
        if "::" in t:
            u, v = t.split("::")
            args = []
            if i + 1 < len(toks) and toks[i + 1] == "(":
                i += 2
                while True:
                    a, i = go(i)
                    args.append(a)
                    if toks[i] == ")":
                        break
                    i += 1
            return ("var", u, v, args), i + 1
        return ("lit", t[1:-1] if t[0] in "'\"" else int(t)), i + 1
    p, i = go(0)
    if i != len(toks):
        raise ValueError(s)
    return p


def bindings(r, tier, seed, deadline):
    """C10: the right arm was chosen, and its variables have other values."""
    standin(r, tier, seed, deadline, True)


def standin(r, tier, seed, deadline, bound=False):
    vm = progs.start()

    def one(i):
        s = f"{seed}-match-{i}"
        try:
            c = Case(s)
            vals = c.all()
        except OverflowError:
            return None
        if len(vals) > CAP:
            return None
        un = [v for v in vals if c.first(v) is None]
        # every arm that can be chosen is tried, with values it alone tells apart
        pick = c.rng.sample(vals, min(len(vals), 40))
        for k in range(len(c.arms)):
            hit = [v for v in vals if (c.first(v) or (None,))[0] == k]
            pick += c.rng.sample(hit, min(len(hit), 3))
        src, line, want = c.source([] if un else pick)
        files = {"m.ama": src}
        if i % 4 == 3:
            # a module whose unions have the same names, and other variants
            for k in range(6):
                try:
                    o = Case(f"{s}-other-{k}")
                    if len(o.all()) <= CAP and all(o.first(v) for v in o.all()):
                        files["o.ama"] = o.source([])[0]
                        files["m.ama"] = "usa 'o' => o\n" + src
                        line += 1
                        break
                except OverflowError:
                    pass
        res = vmrun.execute(files, run=vm is not None and not un)
        res.pop("blob", None)
        what = None
        if res["status"] == "crash":
            what = f"the compiler crashes: {res['detail']}"
        elif not un and res["status"] == "error":
            what = f"an iguala that covers every value is refused: {res['line']}: {res['message']}"
        elif un and res["status"] == "ok":
            what = f"an iguala that misses {c.vtext(un[0], c.ty)} is accepted"
        elif un:
            named = [l.strip()[2:].rsplit("=>", 1)[0].strip() for l in res["message"].split("\n") if l.strip().startswith("* ")]
            try:
                ps = [parse_pattern(n) for n in named]
            except (ValueError, IndexError):
                ps = None
            if not named:
                what = f"the refusal does not name a missing case: {res['message']}"
            elif ps is not None:
                for n, p in zip(named, ps):
                    if not any(c.match(p, v, {}) for v in un):
                        what = f"the refusal names {n}, which the arms cover"
                for v in un:
                    if not any(c.match(p, v, {}) for p in ps):
                        what = f"the refusal does not name {c.vtext(v, c.ty)}, only {named}"
                        break
            if res["line"] != line and not what:
                what = f"the error is at line {res['line']}, the iguala is at {line}"
        elif "out" in res and (res["out"], res["err"]) != (want, ""):
            what = "the arm executed or its bindings are not those of the first pattern that matches"
        if bound and what:
            got, exp = res.get("out", "").split("\n"), want.split("\n")
            if un or "out" not in res or res["err"] or [l.split(" ")[0] for l in got] != [l.split(" ")[0] for l in exp]:
                what = None
        if what:
            return s, None, {"key": f"matching {s}", "what": what, "files": files, "expected": want, "observed": res, "listing": progs.listing(files)}
        return s, src if i < 4 else None, None
    progs.small(r, deadline, one)
