"""Stand-ins that compile (and run) random programs: standin.lang, standin.bad."""
import random
import time

from . import bad, env, lang, modlint, vmrun

STOP = 6   # failures after which a stand-in stops


def listing(files):
    return "\n".join(f"--- {k}\n" + "\n".join(f"{n + 1:3} {l}" for n, l in enumerate(t.split("\n"))) for k, t in files.items())


def start():
    """Loads the compiler and builds the VM, once, before any fork."""
    env.plain()
    return vmrun.build()


ODD = ["\u2028", "\x0c", "\x0b", "\x85", "\u2029", "\x1c", "\t", "\u00a0", "\u3000"]


def noise(files, seed):
    """The same program with comments and blanks at the end of lines, of characters that
    only some take for the end of a line."""
    rng, out = random.Random(f"noise {seed}"), {}
    if rng.random() < .5:
        return files
    for name, text in files.items():
        lines, open_ = text.split("\n"), False
        for i, l in enumerate(lines):
            open_ = open_ or l.count("'") % 2 or l.count('"') % 2   # a text may go on in the next line
            if not open_ and not l.count("'") + l.count('"') and rng.random() < .08:
                o = rng.choice(ODD)
                lines[i] = l + rng.choice([o, f" # a{o}b", f" #{o}{o} mostra 1"])
        out[name] = "\n".join(lines)
    return out


def drive(r, deadline, fn, jobs=1 << 30, procs=6):
    """Runs fn(i) -> (key, sample, failure | None) on all workers; failures are dicts with key and what."""
    n = 0
    for i, v in vmrun.parallel(jobs, fn, deadline, procs):
        if i < 0:
            r.errors.append(v["crash"])
            continue
        key, sample, failure = v
        r.case(key if key is None else str(key), sample)
        if failure:
            n += 1
            if n <= 20:
                r.fail(failure.pop("key"), failure.pop("what"), **failure)


def outcome(files, exp, run=True, timeout=20, lint=()):
    """Compares a program that must be accepted with its expected output.
    None, or what is wrong: (kind, text)."""
    res = vmrun.execute(files, run=run, timeout=timeout)
    if res["status"] == "error":
        return "refused", f"a correct program is refused: {res['file']}:{res['line']}: {res['message']}", res
    if res["status"] == "crash":
        return "crash", f"the compiler crashes on a correct program: {res['detail']}", res
    if lint:
        try:
            bad_ = [d for d in modlint.lint(modlint.decode(res["blob"])) if d[0] in lint]
        except (modlint.Bad, ValueError) as e:
            bad_ = [("decode", str(e))] if "decode" in lint else []
        if bad_:
            return bad_[0][0], f"the compiled module is wrong ({bad_[0][0]}): {bad_[0][1]}", res
    if run and "out" in res and exp is not None and (res["out"], res["err"]) != exp:
        if "panicked" in res["err"]:
            return "panic", "the virtual machine aborts", res
        return "output", "the program prints something else than it says", res
    return None


def positive(profile=None, modules=False, sizes=(2, 14), run=True, kinds=("refused", "crash", "panic", "output"),
             maker=None, lint=(), shown=True):
    """A stand-in over programs that must be accepted and print what they say, and
    whose compiled modules have no defect of the kinds in `lint` (standin.modlint)."""
    def fn(r, tier, seed, deadline):
        vm = start() if run else env.plain() and None
        if run and vm is None:
            r.errors.append("the virtual machine could not be built: " + str(vmrun.why()))

        def one(i):
            s = f"{seed}-{i}"
            size = sizes[0] + (i // 300) % (sizes[1] - sizes[0] + 1)
            p = maker(s, size, i) if maker else lang.Program(
                s, size, modules=(1 + i % 4) if modules else 0, profile=profile)
            exp = p.run()
            if exp is None:
                return None
            files = noise(p.files(), s)
            w = outcome(files, exp if shown else None, vm is not None, lint=lint)
            if w and (w[0] in kinds or w[0] in lint):
                _, text, res = w
                res.pop("blob", None)
                return s, None, {"key": f"program {s}", "what": text, "files": files, "expected": list(exp), "observed": res,
                                 "listing": listing(files)}
            return s, files["m.ama"] if i < 3 else None, None
        small(r, deadline, one)
    return fn


def small(r, deadline, one):
    """Runs one(i), and keeps only the smallest failing programs."""
    got = []

    def collect(key, what, **data):
        got.append((len(str(data.get("files", ""))), key, what, data))
    real, r.fail = r.fail, collect
    try:
        for i, v in vmrun.parallel(1 << 30, one, deadline):
            if i < 0:
                if not r.errors:
                    r.errors.append(v["crash"])
                continue
            key, sample, failure = v
            r.case(key, sample)
            if failure:
                k, w = failure.pop("key"), failure.pop("what")
                r.fail(k, w, **failure)
                # enough is known: there is no need to use all the time there is
                if len(got) >= 12:
                    deadline = min(deadline, time.time() + 1)
                    break
    finally:
        r.fail = real
    for _, key, what, data in sorted(got, key=lambda g: g[:2])[:6]:
        r.fail(key, what, **data)


def header(res, files):
    """Is the error shown with the file, the line and the text of the line?"""
    text = files[res["file"]].split("\n")[res["line"] - 1].strip()
    at = f'Ficheiro "{res["file"]}", linha {res["line"]}'
    got = res["shown"].strip("\n").split("\n")
    if not (got[0] == at or got[0].startswith(at + ":")) or len(got) < 3 or got[1].strip() != text or res["message"].split("\n")[0] not in got[2]:
        return f"the user is shown {res['shown']!r}; the error is at {res['file']}:{res['line']}, the line is {text!r}"
    return None


def negative(prop, modules=0, check_line=True, check_refusal=True, only=None):
    """A stand-in over programs with one ill-formed construct."""
    props = prop if isinstance(prop, (list, tuple)) else [prop]

    def fn(r, tier, seed, deadline):
        env.plain()

        def one(i):
            s = f"{seed}-bad-{i}"
            pr = props[i % len(props)]
            mods = (1 + i % 3) if modules and i % modules == 0 else 0
            p = lang.Program(s, 1 + i % 7, modules=mods, bad=bad.plant(pr, i // len(props), only), bad_module=bool(mods) and i % 5 == 0)
            if not p.main.planted:
                return None
            f, line, kind = p.main.planted
            files = noise(p.files(), s)
            res = vmrun.execute(files, run=False)
            res.pop("blob", None)
            what = None
            if res["status"] == "ok" and check_refusal:
                what = f"an ill-formed program ({kind}, {f}:{line}) is accepted"
            elif res["status"] == "crash" and check_refusal:
                what = f"the compiler crashes on an ill-formed program ({kind}, {f}:{line}): {res['detail']}"
            elif res["status"] == "error" and check_line and (res["file"], res["line"]) != (f, line):
                what = f"the error is reported at {res['file']}:{res['line']}, the ill-formed construct ({kind}) is at {f}:{line}"
            elif res["status"] == "error" and check_line:
                what = header(res, files)
            if what:
                return f"{s}:{kind}", None, {"key": f"{kind} {s}", "what": what, "files": files, "observed": res,
                                             "listing": listing(files)}
            return f"{s}:{kind}", f"{kind}: {files[f].split(chr(10))[line - 1].strip()}" if i < 20 else None, None
        small(r, deadline, one)
    return fn
