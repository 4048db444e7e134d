"""C05/C12: what one import makes visible, for every combination of what the importer
and the imported module already know, and for every spelling of a path."""
import itertools
import os
import re

from . import progs, vmrun
from .sites import small

KINDS = {   # what x is: declaration, a use, what the use prints
    "variable": ("x: int = {v}", "mostra {x}", "{v}"),
    "function": ("func x(): int\n    retorna {v}\nfim", "mostra {x}()", "{v}"),
    "record": ("registo x\n    a: int\nfim", "q: {x} = {x}(a: {v})\nmostra q.a", "{v}"),
}
MODES = ["usa 'b'", "usa 'b' => [x]", "usa 'b' => [y, x]", "usa 'b' => [x, x]", "usa 'b' => [y]", "usa 'b' => mb", "usa 'b' => x"]
PRE = ["", "usa 'a'", "usa 'a' => [x]", "usa 'a' => ma", "own later"]


def cases():
    """(files, name, where it is refused (line of m.ama) or None, output)"""
    for ka, kb, via, pre, mode in itertools.product(KINDS, [None, *KINDS], ["", "usa 'a'", "usa 'a' => [x]", "usa 'a' => ma"], PRE, MODES):
        if kb and via in ("usa 'a'", "usa 'a' => [x]"):
            continue   # b itself would be refused
        if ka != "variable" and not (kb is None or pre.startswith("usa 'a'")):
            continue
        a = KINDS[ka][0].replace("{v}", "1") + "\nz: int = 9\n"
        b = (via + "\n" if via else "") + (KINDS[kb][0].replace("{v}", "2") + "\n" if kb else "") + "y: int = 3\n"
        # what x is in b
        if kb:
            bx = ("b", kb)
        elif via in ("usa 'a'", "usa 'a' => [x]"):
            bx = ("a", ka)
        else:
            bx = None
        # what x is in m, before
        mx = None
        L, out, bad = [], [], None
        if pre == "x: int = 5":
            L.append(pre)
            mx = ("m", "variable")
        elif pre == "own later":
            pass
        elif pre:
            L.append(pre)
            if pre != "usa 'a' => ma":
                mx = ("a", ka)
        names = {}
        if mx:
            names["x"] = mx
        if pre == "usa 'a'":
            names["z"] = ("a", "variable")
        L.append(mode)
        at = len(L)
        new = {}
        if mode == "usa 'b'":
            new = {"y": ("b", "variable")}
            if bx:
                new["x"] = bx
            if via == "usa 'a'":
                new["z"] = ("a", "variable")
            if via == "usa 'a' => ma":
                new["ma"] = ("a", "module", "b")
        elif mode == "usa 'b' => mb":
            new = {"mb": ("b", "module", "m")}
        elif mode == "usa 'b' => x":
            new = {"x": ("b", "module", "m")}
        else:
            for n in mode.split("[")[1][:-1].split(", "):
                if n == "y":
                    new["y"] = ("b", "variable")
                elif bx:
                    new["x"] = bx
                else:
                    bad = at
        if pre == "usa 'a' => ma":
            names["ma"] = ("a", "module", "m")
        for n, s in new.items():
            if n in names and names[n] != s:
                bad = bad or at
        names.update(new)
        if bad is None and pre == "own later":
            L.append("x: int = 5")
            if "x" in names:
                bad = sum(l.count("\n") + 1 for l in L)
            names["x"] = ("m", "variable")
        if bad is None:
            x = names.get("x")
            vals = {"a": "1", "b": "2", "m": "5"}
            if x is None:
                if names.get("mb") and bx:
                    _, use, o = KINDS[bx[1]]
                    L.append(use.replace("{x}", "mb.x").replace("{v}", vals[bx[0]]))
                    out.append(vals[bx[0]])
                else:
                    L.append("mostra x")
                    bad = sum(l.count("\n") + 1 for l in L)
            elif x[1] == "module":
                if bx:
                    _, use, o = KINDS[bx[1]]
                    L.append(use.replace("{x}", "x.x").replace("{v}", vals[bx[0]]))
                    out.append(vals[bx[0]])
                else:
                    L.append("mostra x.y")
                    out.append("3")
            else:
                _, use, o = KINDS[x[1]]
                L.append(use.replace("{x}", "x").replace("{v}", vals[x[0]]))
                out.append(vals[x[0]])
            if bad is None and "y" in names:
                L.append("mostra y")
                out.append("3")
            elif bad is None:
                L.append("mostra y")
                bad = sum(l.count("\n") + 1 for l in L)
        yield {"m.ama": "\n".join(L) + "\n", "a.ama": a, "b.ama": b}, f"x is a {ka} in a, {kb or 'nothing'} in b ({via}); {pre}; {mode}", bad, "".join(o + "\n" for o in out)
    # modules that have little of their own
    for b, am, mode in itertools.product(["", "\n\n", "# nada", "usa 'a'", "usa 'a' => ma", "usa 'a' => [x]\n", "mostra 'b'", "func f()\nfim", "registo R\n    a: int\nfim"],
                                         ["", "mostra 'a'\n"], ["usa 'b'", "usa 'b' => mb", "usa 'b'\nusa 'b' => mb", "usa 'a' => ma\nusa 'b' => mb"]):
        L = mode.split("\n") + ["mostra 'm'", "z: int = 4", "mostra z"]
        a = am + "x: int = 1\n"
        out = ["a"] * bool(am and ("'a'" in b or "'a'" in mode)) + ["b"] * ("mostra" in b) + ["m", "4"]
        if mode.startswith("usa 'b'") and b.startswith("usa") and not b.endswith("ma") and "mb" not in mode.split("\n")[0]:
            L.append("mostra x")
            out.append("1")
        yield {"m.ama": "\n".join(L) + "\n", "a.ama": a, "b.ama": b + "\n" * bool(b)}, f"b is {b!r}, a is {a!r}, {mode!r}", None, "".join(o + "\n" for o in out)
    for sp in ["b", "b.ama", "b.c", "b.c.ama", "./b", "sub/../b", "sub/b", "sub.d/b", ".b", "b.amax", "b.ama.b", "b c", "sub/../b.c", "ama", "B", "b.AMA", "b\"c", "\"b\""]:
        for have in itertools.product([True, False], repeat=2):
            f = {"m.ama": f"usa '{sp}' => [y]\nmostra y\n"}
            full = sp if sp.endswith(".ama") else sp + ".ama"
            if have[0]:
                f[os.path.normpath(full)] = "y: int = 3\n"
            if have[1] and full != sp:
                f[os.path.normpath(sp)] = "y: int = 4\n"
            yield f, f"path '{sp}', files {sorted(f)}", None if have[0] else 1, "3\n"
    # names of every form
    for n, (kind, (decl, use, o)) in itertools.product(SPELLINGS, KINDS.items()):
        b = re.sub(r"\bx\b", n, decl).replace("{v}", "2") + "\ny: int = 3\n"
        for mode, x in (("usa 'b'", n), (f"usa 'b' => [y, {n}]", n), ("usa 'b' => mb", f"mb.{n}"), (f"usa 'b' => {n}", f"{n}.{n}")):
            if kind == "record" and "." in x:
                continue
            yield ({"m.ama": mode + "\n" + use.replace("q", "qq").replace("{x}", x).replace("{v}", "2") + "\n", "b.ama": b},
                   f"the {kind} {n}, {mode}", None, "2\n")
    # several directories have the file
    for order in (["lib"], ["z", "a"], ["a", "z"], ["z", "lib", "a"], ["lib", "z", "lib", "a"], ["b", "B", "a"]):
        dirs = [".", *dict.fromkeys(order)]
        for r in range(0, len(dirs) + 1):
            for have in itertools.combinations(dirs, r):
                for sp in ("b", "k/b"):
                    f = {"m.ama": f"usa '{sp}'\nmostra y\n"}
                    for i, d in enumerate(have):
                        f[os.path.normpath(f"{d}/{sp}.ama")] = f"y: texto = '{d}'\n"
                    yield f, f"'{sp}' is in {have}, searched {order}", None if have else 1, "".join(f"{d}\n" for d in have[:1]), order


SPELLINGS = ["_x", "__x", "_x_", "__x__", "x_", "é", "X", "xX", "print", "None", "self", "main", "x1", "_", "__", "x" * 70, "builtins", "embutidos", "mod", "name"]


def standin(r, tier, seed, deadline):
    vm = progs.start()
    jobs = list(cases())

    def one(i):
        files, name, bad, out, *paths = jobs[i]
        res = vmrun.execute(files, run=vm is not None and bad is None, paths=paths[0] if paths else ())
        res.pop("blob", None)
        what = None
        if res["status"] == "crash":
            what = f"the compiler crashes: {res['detail']}"
        elif bad is None and res["status"] == "error":
            what = f"a correct program is refused: {res['file']}:{res['line']}: {res['message']}"
        elif bad and res["status"] == "ok":
            what = f"line {bad} of m.ama is accepted"
        elif bad and (res["file"], res["line"]) != ("m.ama", bad):
            what = f"the error is at {res['file']}:{res['line']} instead of m.ama:{bad}: {res['message']}"
        elif bad is None and "out" in res and (res["out"], res["err"]) != (out, ""):
            what = "another definition is reached"
            res["expected"] = out
        return name, name if i % 60 == 0 else None, what and {"key": "import " + name, "what": what, "files": files, "observed": res,
                                                             "listing": progs.listing(files)}
    small(r, deadline, one, len(jobs))
