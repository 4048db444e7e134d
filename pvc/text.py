"""Symbolic text: characters known up to a set of code point classes, runs of
unknown length, and the character stream the lexer reads.

The domain is exact for the predicates the lexer uses: every ASCII character is
its own class, and the other code points are partitioned by the str predicates
(and by their decimal digit value), so a decision on a character narrows its
set of classes and both outcomes are explored.
"""
import builtins
import sys
from .engine import PathEnd, Unsupported, SymInt, mk
from .hooks import LoopSpec, UNBOUND
import z3

PREDS = ("isspace", "isalpha", "isalnum", "isdigit", "isdecimal", "isnumeric", "isidentifier",
         "isprintable", "islower", "isupper", "istitle", "isascii")


def _classes():
    out = [chr(i) for i in range(128)]
    groups = {}
    for i in range(128, sys.maxunicode + 1):
        c = chr(i)
        k = tuple(getattr(c, p)() for p in PREDS)
        groups.setdefault(k, []).append(c)
    reps = [g[0] for g in groups.values()]
    return out + reps, [[c] for c in out] + list(groups.values())


_CL = None


def classes():
    """Representative character and members of every class."""
    global _CL
    if _CL is None:
        _CL = _classes()
    return _CL


def where(pred):
    reps, _ = classes()
    return frozenset(i for i, c in enumerate(reps) if pred(c))


def everything():
    return frozenset(range(len(classes()[0])))


def cl(p):
    """Classes a piece of text may hold."""
    if isinstance(p, str):
        if ord(p) > 127:
            raise Unsupported("non-ASCII constant")
        return frozenset([ord(p)])
    return p.cands


def known(p):
    return p if isinstance(p, str) else p.known() if isinstance(p, SymChar) else None


class SymChar:
    is_sym = True
    sym_text = True

    def __init__(self, cx, cands=None):
        self.cx = cx
        self.cands = everything() if cands is None else cands

    def pieces(self):
        return [self]

    def split(self, label, subset):
        """Decide whether the character is in a set of classes."""
        yes, no = self.cands & subset, self.cands - subset
        if not yes:
            return False
        if not no:
            return True
        v = self.cx.flag(label)
        self.cands = yes if v else no
        return v

    def narrow(self, subset):
        self.cands &= subset
        if not self.cands:
            raise PathEnd()

    def known(self):
        """The character, when it is one particular ASCII character."""
        if len(self.cands) == 1:
            (i,) = self.cands
            if i < 128:
                return chr(i)
        return None

    def __eq__(self, o):
        if isinstance(o, SymText):
            return o == self
        if isinstance(o, SymChar):
            if o is self:
                return True
            k = o.known()
            if k is None:
                k = self.known()
                if k is None:
                    raise Unsupported("comparison of two symbolic characters")
                return o == k
            return self == k
        if not isinstance(o, str):
            return False
        if len(o) != 1 or ord(o) > 127:
            if len(o) == 1:
                raise Unsupported("comparison with a non-ASCII constant")
            return False
        return self.split(f"char=={o!r}", frozenset([ord(o)]))

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        k = self.known()
        if k is None:
            raise Unsupported("hash of a symbolic character")
        return hash(k)

    def __bool__(self):
        return True

    def sym_len(self):
        return 1

    def sym_int(self):
        if self.cands <= where(str.isdecimal):
            k = self.known()
            return int(k) if k else self.cx.int("digit", 0, 9)
        raise Unsupported("int of a character that may not be a digit")

    def in_str(self, s):
        return self.split("char in str", frozenset(ord(c) for c in s if ord(c) < 128))

    def __add__(self, o):
        return SymText(self.cx, [self]) + o

    def __radd__(self, o):
        return o + SymText(self.cx, [self]) if not isinstance(o, str) else SymText(self.cx, list(o) + [self])

    def __str__(self):
        return self.known() or "\ufffd"

    __repr__ = __str__

    def __format__(self, s):
        return str(self)

    def __getattr__(self, a):
        if a in PREDS:
            sub = where(lambda c: getattr(c, a)())
            return lambda: self.split(a, sub)
        if a.startswith("__") or a.startswith("sym_") or a == "is_sym_seq":
            raise AttributeError(a)
        raise Unsupported(f"str.{a} on a symbolic character")


class Run:
    """Any finite sequence of characters of one set of classes.

    `img` is what the loop that consumed the run must have added to its
    accumulators: the same characters ('same') or their escape-decoded form.
    """
    n = 0

    def __init__(self, cx, cands, key):
        self.cx, self.cands, self.key = cx, cands, key
        self.len = cx.int("runlen", 0)
        self.newlines = cx.int("newlines", 0)
        cx.solver.add(self.newlines.t <= self.len.t)
        if 10 not in cands:
            cx.solver.add(self.newlines.t == 0)

    def __repr__(self):
        return f"<run {self.key}>"


class Image:
    """The escape-decoded form of a run."""

    def __init__(self, run):
        self.run = run

    def __repr__(self):
        return f"<decoded {self.run.key}>"


def same_piece(a, b):
    if isinstance(a, Image) and isinstance(b, Image):
        return a.run is b.run
    if isinstance(a, (Run, Image)) or isinstance(b, (Run, Image)):
        return a is b
    if a is b:
        return True
    ka = a if isinstance(a, str) else a.known()
    kb = b if isinstance(b, str) else b.known()
    return ka is not None and ka == kb


def same_pieces(a, b):
    return len(a) == len(b) and all(same_piece(x, y) for x, y in zip(a, b))


class SymText:
    is_sym = True
    sym_text = True

    def __init__(self, cx, pieces):
        self.cx = cx
        self.ps = list(pieces)
        self.ident = None  # concrete text, once decided by hashing/comparison
        self.other = set()

    def pieces(self):
        return list(self.ps)

    def could_be(self, s):
        if s in self.other:
            return False

        def go(i, j):
            if i == len(self.ps):
                return j == len(s)
            p = self.ps[i]
            if isinstance(p, (Run, Image)):
                if go(i + 1, j):
                    return True
                return (j < len(s) and (isinstance(p, Image) or any(
                    classes()[0][c] == s[j] or c >= 128 for c in p.cands)
                    and (ord(s[j]) > 127 or ord(s[j]) in p.cands)) and go(i, j + 1))
            if j >= len(s):
                return False
            if isinstance(p, str):
                return p == s[j] and go(i + 1, j + 1)
            return (ord(s[j]) in p.cands if ord(s[j]) < 128 else True) and go(i + 1, j + 1)
        return go(0, 0)

    def fixed(self):
        return not any(isinstance(p, (Run, Image)) for p in self.ps)

    def __eq__(self, o):
        if isinstance(o, SymChar):
            o = SymText(self.cx, [o])
        if isinstance(o, SymText):
            if same_pieces(self.ps, o.ps):
                return True
            raise Unsupported("comparison of two symbolic texts")
        if not isinstance(o, str):
            return False
        if self.ident is not None:
            return self.ident == o
        if not self.could_be(o):
            return False
        if self.fixed():
            # character by character: the set domain decides exactly
            for p, c in zip(self.ps, o):
                if not (p == c if isinstance(p, SymChar) else p == c):
                    return False
            return True
        if self.cx.flag(f"text=={o!r}"):
            self.ident = o
            self.cx.state.setdefault("decided", []).append(self)
            return True
        self.other.add(o)
        return False

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        """Used as a dictionary key: decide which known text it is, if any."""
        if self.ident is not None:
            return hash(self.ident)
        for t in self.cx.state.get("decided", ()):
            if same_pieces(t.ps, self.ps):
                self.ident, self.other = t.ident, set(t.other)
                return hash(self.ident if self.ident is not None else id(self))
        ks = [known(p) for p in self.ps]
        if all(k is not None for k in ks):
            self.ident = "".join(ks)
            return hash(self.ident)
        cands = [k for k in self.cx.state.get("universe", ()) if self.could_be(k)]
        k = self.cx.choose("text", cands + [None])
        self.cx.state.setdefault("decided", []).append(self)
        if k is None:
            self.other |= set(self.cx.state.get("universe", ()))
            return hash(id(self))
        self.ident = k
        return hash(k)

    def __add__(self, o):
        if isinstance(o, str):
            return SymText(self.cx, self.ps + list(o))
        if isinstance(o, (SymText, SymChar)):
            return SymText(self.cx, self.ps + o.pieces())
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, str):
            return SymText(self.cx, list(o) + self.ps)
        return NotImplemented

    def sym_len(self):
        t = 0
        for p in self.ps:
            if isinstance(p, Image):
                t = t + self.cx.int("imagelen", 0)
            else:
                t = t + (p.len if isinstance(p, Run) else 1)
        return t

    def __len__(self):
        v = self.sym_len()
        if isinstance(v, int):
            return v
        raise Unsupported("len of a symbolic text")

    def __bool__(self):
        v = self.sym_len()
        return bool(v != 0) if not isinstance(v, int) else v != 0

    def sym_contains(self, x):
        if isinstance(x, str) and len(x) == 1:
            for p in self.ps:
                if isinstance(p, Image) or (isinstance(p, Run) and ord(x) in p.cands):
                    raise Unsupported("membership in a run")
                if isinstance(p, SymChar) and p == x or p == x:
                    return True
            return False
        raise Unsupported("membership in a symbolic text")

    def sym_int(self):
        return self.cx.state["text_int"](self)

    def sym_float(self):
        return self.cx.state["text_float"](self)

    def sym_str(self):
        return self

    def __str__(self):
        return "".join(str(p) for p in self.ps)

    __repr__ = __str__

    def __format__(self, s):
        return str(self)

    def __getattr__(self, a):
        if a.startswith("__") or a.startswith("sym_") or a in ("is_sym_seq", "in_str"):
            raise AttributeError(a)
        raise Unsupported(f"str.{a} on a symbolic text")


def text_pieces(x):
    """Pieces of a text value, or None when it is not text."""
    if isinstance(x, str):
        return list(x)
    if isinstance(x, (SymText, SymChar)):
        return x.pieces()
    if isinstance(x, AbsBuffer):
        return list(x.ps)
    if isinstance(x, list) and all(isinstance(y, (str, SymChar)) for y in x):
        return list(x)
    return None


class AbsBuffer:
    """io.StringIO used as an accumulator."""

    def __init__(self, cx):
        self.cx, self.ps = cx, []

    def write(self, x):
        p = text_pieces(x)
        if p is None:
            raise Unsupported("write of something that is not text")
        self.ps += p

    def getvalue(self):
        if all(isinstance(p, str) for p in self.ps):
            return "".join(self.ps)
        return SymText(self.cx, self.ps)

    def close(self):
        pass


class Mark:
    def __init__(self, i):
        self.i = i


class AbsStream:
    """A text file: any sequence of characters, read one at a time."""

    def __init__(self, cx):
        self.cx = cx
        self.chars = []  # characters and runs read so far; "" marks the end
        self.i = 0

    def read(self, n=-1):
        if n != 1:
            raise Unsupported("read of more than one character")
        if self.i < len(self.chars):
            c = self.chars[self.i]
            if isinstance(c, str) and c == "":
                return ""
            self.i += 1
            return c
        if self.cx.choose("source", ["char", "end"]) == "end":
            self.chars.append("")
            return ""
        c = SymChar(self.cx)
        self.chars.append(c)
        self.i += 1
        return c

    def tell(self):
        return Mark(self.i)

    def seek(self, m):
        if not isinstance(m, Mark):
            raise Unsupported("seek")
        self.i = m.i


class TextLoop(LoopSpec):
    """Invariant of every scanning loop.

    The text consumed since the loop began is a sequence of characters of one
    set of classes (inferred from the iterations, then proved closed under
    them), every text accumulator has grown by exactly that text (its decoded
    form inside a string literal), and the line has grown by its line breaks.
    """

    def __init__(self, cx, key, lx, decode, locals_):
        self.cx, self.key, self.lx, self.decode = cx, key, lx, decode
        self.all_locals = locals_
        self.S = cx.persist.setdefault(("run", decode) + tuple(key), set())

    def cur_index(self):
        # position of lx.current_char in the stream
        st = self.lx.src
        c = self.lx.current_char
        if isinstance(c, str):
            return st.i
        return st.i - 1

    def entry(self, vals):
        self.i0 = self.cur_index()
        self.line0 = self.lx.line
        self.v0 = {n: v for n, v in vals.items()}
        self.bufs = {n: v for n, v in self.all_locals.items() if isinstance(v, AbsBuffer)}
        self.b0 = {n: list(v.ps) for n, v in self.bufs.items()}

    def head(self, vals):
        cx, lx = self.cx, self.lx
        self.base = []
        self.run = None
        if isinstance(lx.current_char, str):
            pass  # at the end already: no iteration has happened or will consume
        if cx.choose("earlier iterations", ["none", "some"]) == "none" or isinstance(lx.current_char, str):
            self.i1 = self.i0
            self.line1 = self.line0
            return {}
        first = lx.current_char
        S = frozenset(self.S)
        first.narrow(S)
        run = Run(cx, S, self.key[0].split(".")[-1])
        self.run = run
        st = lx.src
        del st.chars[self.i0 + 1:]
        st.chars.append(run)
        st.i = len(st.chars)
        if self.decode:
            added = [Image(run)]
            self.head_consumed = None
        # the next character, or the end
        lx.current_char = None
        lx.pos = cx.int("pos")
        nl = run.newlines
        if 10 in first.cands:
            nl = nl + (1 if first == "\n" else 0)
        lx.line = self.line0 + nl
        eof = type(lx).EOF
        if cx.choose("source", ["char", "end"]) == "end":
            st.chars.append("")
            lx.current_char = eof
        else:
            c = SymChar(cx)
            st.chars.append(c)
            st.i += 1
            lx.current_char = c
        self.i1 = self.cur_index()
        self.line1 = lx.line
        if self.decode:
            run.first = first
            self.img = [Image(run)]
            run.decodes = [first, run]
        else:
            self.img = [first, run]
        for n, b in self.bufs.items():
            b.ps = self.b0[n] + list(self.img)
        out = {}
        for n, v in self.v0.items():
            p = text_pieces(v)
            if p is not None and v is not UNBOUND:
                if isinstance(v, AbsBuffer):
                    continue
                if isinstance(v, list):
                    out[n] = p + list(self.img)
                else:
                    out[n] = SymText(cx, p + list(self.img))
            else:
                out[n] = UNBOUND
        self.out = out
        return out

    def back(self, vals):
        cx, lx = self.cx, self.lx
        st = lx.src
        end = self.cur_index()
        consumed = st.chars[self.i1:end]
        if not consumed:
            cx.prove("every iteration of a scanning loop consumes a character", False,
                     lambda: {"loop": self.key[0]})
            return
        for c in consumed:
            if not isinstance(c, SymChar):
                raise Unsupported("nested run")
            if cx.inferring:
                self.S |= c.cands
            else:
                cx.prove("loop invariant: characters consumed", c.cands <= self.S)
        want = list(consumed)
        if self.decode:
            want = decode_one(consumed)
            if want is None:
                raise Unsupported("a string loop consumed more than one character or escape at a time")
            if len(consumed) == 1:
                # a lone character is not the closing quote, nor a backslash
                # that starts an escape
                cx.prove("a string ends at the first unescaped quote", not (consumed[0] == self.decode))
                if consumed[0] == "\\":
                    c = lx.current_char
                    cx.prove("every escape in a string is decoded",
                             isinstance(c, str) or not (c == "n" or c == "'" or c == '"'))
        img = [] if self.run is None else list(self.img)
        for n, b in self.bufs.items():
            cx.prove("loop invariant: text accumulated", same_pieces(b.ps, self.b0[n] + img + want),
                     lambda: {"loop": self.key[0], "got": str(b.ps), "want": str(self.b0[n] + img + want)})
        for n, v in vals.items():
            p0 = text_pieces(self.v0[n]) if self.v0[n] is not UNBOUND else None
            p1 = text_pieces(v) if v is not UNBOUND else None
            if p0 is None:
                continue  # not live at the head
            if p1 is None:
                raise Unsupported("accumulator changed its type")
            cx.prove("loop invariant: text accumulated", same_pieces(p1, p0 + img + want),
                     lambda: {"loop": self.key[0], "got": str(p1), "want": str(p0 + img + want)})
        nl = 0
        for c in consumed:
            if 10 in c.cands:
                if c == "\n":
                    nl += 1
        cx.prove("loop invariant: line counts the line breaks", lx.line == self.line1 + nl)


def decode_one(consumed):
    """Escape decoding of one step of a string literal."""
    if len(consumed) == 1:
        return list(consumed)
    if len(consumed) == 2 and consumed[0].known() == "\\":
        k = consumed[1].known()
        if k == "n":
            return ["\n"]
        if k in ("'", '"'):
            return [k]
    return None
