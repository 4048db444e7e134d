"""How an error gets its file and line, and how it is shown (C13)."""
import z3
from pvc.engine import PathEnd, Template, Unsupported
from pvc.hooks import Unbound
from pvc.seq import SymSeq, _t
from pvc.values import Opaque
from . import checker

step = checker.step
ER = "amanda.compiler.error."


def raised(W, out, fpath, line, message, col=None):
    e = out.value
    W.prove("C13", "an error stops the compilation", out.rejected, lambda: out)
    if not out.rejected:
        raise PathEnd()
    W.prove("C13", "an error names the file at fault", e.fpath == fpath)
    W.prove("C13", "an error has the line of its place", W.valid_int(e.line, line), lambda: (e.line, line))
    W.prove("C13", "an error says what is wrong", e.message == message, lambda: e.message)
    if col is not None:
        W.prove("C13", "a syntax error has its column", W.valid_int(e.col, col))


TEXTS = [("o nome 'a' é inválido", {}, "o nome 'a' é inválido"), ("o ficheiro '{d}/a{' não existe", {}, "o ficheiro '{d}/a{' não existe"),
         ("o nome '{name}' já existe em '{uniao}'", dict(name="{x}", uniao="U"), "o nome '{x}' já existe em 'U'"),
         ("{n}: {name}", dict(n=1, name="a"), "1: a")]


@step("errors of the checker", "C13", "error error_with_loc", covers=["done"])
def of_checker(W):
    text, kw, want = W.cx.choose("message", TEXTS)
    line, here = W.cx.int("line", 1), W.cx.int("current line", 1)
    W.an.ctx_node = W.at_line(here)
    W.set(W.an, ctx_module=W.cx.choose("module", [W.module, W.other_module]))
    if W.cx.flag("place given"):
        raised(W, W.cx.call(lambda: W.an.error_with_loc(W.tok("IDENTIFIER", "x", line), text, **kw)), W.an.ctx_module.fpath, line, want)
    else:
        raised(W, W.cx.call(lambda: W.an.error(text, **kw)), W.an.ctx_module.fpath, here, want)
    W.cx.cover("done")


@step("errors of the parser", "C13", "amanda.compiler.parse.Parser.error amanda.compiler.parse.Lexer.error", covers=["parser", "lexer"])
def of_parser(W):
    m = W.ns["amanda.compiler.parse"]
    here, line, col = W.cx.int("current line", 1), W.cx.int("line", 1), W.cx.int("column", 1)
    if W.cx.flag("of the parser"):
        p = m.Parser.__new__(m.Parser)
        t = W.tok("IDENTIFIER", "x", here)
        t.col = col
        p.__dict__.update(filename="/m/este.ama", lookahead=t, lexer=None)
        given = W.cx.flag("place given")
        out = W.cx.call(lambda: p.error("falta {isto}", line) if given else p.error("falta {isto}"))
        raised(W, out, "/m/este.ama", line if given else here, "falta {isto}", col)
        W.cx.cover("parser")
    else:
        x = m.Lexer.__new__(m.Lexer)
        x.__dict__.update(filename="/m/este.ama", line=here, pos=col)
        text, kw, want = W.cx.choose("message", [TEXTS[0], TEXTS[2], TEXTS[3]])
        raised(W, W.cx.call(lambda: x.error(text, **kw)), "/m/este.ama", here, want, col)
        W.cx.cover("lexer")


@step("errors of the generator", "C13", "amanda.compiler.codegen.ByteGen.error", covers=["done"])
def of_generator(W):
    B = W.ns["amanda.compiler.codegen"].ByteGen
    g = B(W.other_module)
    here = W.cx.int("current line", 1)
    g.lineno = here
    raised(W, W.cx.call(g.error, "grande {demais}"), W.other_module.fpath, here, "grande {demais}")
    W.cx.cover("done")


@step("kinds of errors", "C13", ER + "AmandaError.syntax_error " + ER + "AmandaError.common_error " + ER + "AmandaError.__str__", covers=["done"])
def kinds(W):
    E = W.err.AmandaError
    line, col = W.cx.int("line", 1), W.cx.int("column", 1)
    a, b = E.syntax_error("/m/a.ama", "falta", line, col), E.common_error("/m/b.ama", "há", line)
    W.prove("C13", "a syntax error", (a.fpath, a.message, a.err_type) == ("/m/a.ama", "falta", E.SYNTAX_ERR) and W.valid_int(a.line, line) and W.valid_int(a.col, col))
    W.prove("C13", "another error", (b.fpath, b.message, b.err_type) == ("/m/b.ama", "há", E.COMMON_ERR) and W.valid_int(b.line, line))
    W.prove("C13", "kinds of errors differ", E.SYNTAX_ERR != E.COMMON_ERR)
    W.prove("C13", "an error as a text is its message", str(a) == "falta" and str(b) == "há")
    W.cx.cover("done")


@step("an error is shown", "C13", ER + "fmt_error", covers=["syntax", "other"])
def shown(W):
    W.cx.templates = True
    E = W.err.AmandaError
    line, col = W.cx.int("line", 1), W.cx.int("column", 1)
    syntax = W.cx.flag("syntax")
    import os
    name = W.cx.choose("file", ["a.ama", "d/a.ama"])
    e = E.syntax_error(os.path.abspath(name), "falta {isto}", line, col) if syntax else E.common_error(os.path.abspath(name), "falta {isto}", line)
    out = W.cx.call(W.err.fmt_error, "mostra {1}", e)
    W.prove("C13", "no crash", out.ok, lambda: out)
    if not out.ok:
        raise PathEnd()
    v = out.value
    ok = isinstance(v, Template) and len(v.ints()) >= 1
    W.prove("C13", "shown: the line is given", ok and W.valid_int(v.ints()[0], line), lambda: repr(v))
    if not ok:
        raise PathEnd()
    W.prove("C13", "shown: the line is given as such, after the file", str(v.parts[0]).endswith("linha ") and f'"{name}"' in str(v.parts[0]), lambda: repr(v))
    W.prove("C13", "shown: the column of a syntax error, and of no other",
            len(v.ints()) == 1 + syntax and (not syntax or W.valid_int(v.ints()[1], col)), lambda: repr(v))
    rest = str(v.parts[-1])
    W.prove("C13", "shown: the text of the line, and nothing between", rest.startswith("\n    mostra {1}\n"), lambda: rest)
    W.prove("C13", "shown: the message", ("Erro sintático: " if syntax else "Erro: ") + "falta {isto}.\n" in rest, lambda: rest)
    W.cx.cover("syntax" if syntax else "other")


@step("an error is reported", "C13", ER + "throw_error", covers=["reported"], infer=1)
def reported(W):
    from .gen import shadow
    cx, m = W.cx, W.err
    e = m.AmandaError.common_error("/m/a.ama", "falta", cx.int("line", 1))
    wrote, opened, left = [], [], []

    class Line:
        partner = position = None

        def __init__(self):
            self.label = "line of the file"

        def strip(self, *a):
            return ("text of", self)
        lstrip = strip

        def at(self):
            return lines.index(self) if self.position is None else self.position

    class Lines(SymSeq):
        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def readlines(self):
            return self

        def close(self):
            pass

        def __getitem__(self, i):
            l = Line()
            l.position = i
            if not cx.decide(z3.And(_t(i) >= 0, _t(i) < _t(self.n))):
                raise cx.modelled(IndexError("list index out of range"))
            return l
    # the error is within the file
    lines = Lines(cx, "lines of the file", Line, {"it is another line": lambda l: l.at() != e.line - 1}, {"it is another line": lambda l: None})
    cx.assume(e.line <= lines.n)

    def open_(p, *a, **k):
        opened.append(p)
        return lines

    class Leave(BaseException):
        pvc_modelled = True

    def leave(*a):
        raise Leave()

    def show(context, err):
        if isinstance(context, Unbound):
            raise Unsupported("a local that a loop assigns before it ends")
        return ("shown", context, err)
    as_is, true = (lambda p: p), (lambda p: True)
    stderr = Opaque("stderr", write=wrote.append, flush=lambda: None)
    fake_path = Opaque("path", abspath=as_is, relpath=as_is, realpath=as_is, isfile=true, exists=true)
    fake_os = Opaque("os", path=fake_path)
    for n, x in (("sys", Opaque("sys", stderr=stderr, exit=leave)), ("open", open_), ("path", fake_path), ("os", fake_os),
                 ("print", lambda *a, file=None, end="\n", flush=False: wrote.extend(a)), ("fmt_error", show)):
        shadow(cx, m, n, x)
    out = cx.call(m.throw_error, e)
    if lines.est:
        raise PathEnd()     # no line is the one of the error: it is not within the file
    W.prove("C13", "reported: the compilation ends", isinstance(out.value, Leave), lambda: out)
    W.prove("C13", "reported: the file of the error is read", opened == ["/m/a.ama"])
    ok = len(wrote) == 1 and wrote[0][0] == "shown" and wrote[0][2] is e
    W.prove("C13", "reported: the error is shown", ok)
    l = wrote[0][1] if ok else None
    W.prove("C13", "reported: with the text of its line", isinstance(l, tuple) and l[0] == "text of" and
            W.valid_int(l[1].at(), e.line - 1), lambda: l)
    cx.cover("reported")
