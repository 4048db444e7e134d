"""Contract of amanda/compiler/bindump.py: a document is its elements, in order.

Bytes are ropes: sequences of pieces of known or unknown content whose lengths are
terms.  The loop over the entries is cut: an arbitrary entry appends exactly its
element.  A nested document is encoded by this same contract (induction on depth).
"""
import z3
from pvc.engine import PathEnd, Unsupported, SymInt, mkb, ti
from pvc.seq import SymSeq
from pvc.acc import AccSpec, is_all
from .gen import shadow

MOD = "amanda.compiler.bindump"


class Rope:
    def __init__(self, cx, parts):
        self.cx, out = cx, []
        for p in parts:
            if isinstance(p, bytes):
                if not p:
                    continue
                if out and isinstance(out[-1], bytes):
                    out[-1] += p
                    continue
            out.append(p)
        self.parts = out

    def __add__(self, o):
        return Rope(self.cx, self.parts + parts(o))

    def __radd__(self, o):
        return Rope(self.cx, parts(o) + self.parts)

    def sym_len(self):
        n = 0
        for p in self.parts:
            n = n + (len(p) if isinstance(p, bytes) else p.size)
        return n

    def __len__(self):
        raise Unsupported("len")


def parts(x):
    if isinstance(x, Rope):
        return list(x.parts)
    if isinstance(x, (bytes, bytearray)):
        return [bytes(x)]
    if isinstance(x, Piece):
        return [x]
    raise Unsupported(f"bytes from {type(x).__name__}")


class Piece:
    """Bytes of unknown content; equal when made the same way."""

    def __init__(self, kind, what, size):
        self.kind, self.what, self.size = kind, what, size

    def __repr__(self):
        return f"<{self.kind} {self.what}>"


class Buf:
    def __init__(self, cx, *init):
        self.cx, self.p = cx, []
        for x in init:
            self.write(x)

    def write(self, b):
        self.p += parts(b)
        return None

    def getvalue(self):
        return Rope(self.cx, self.p)

    def close(self):
        pass

    def acc_items(self):
        return list(self.p)

    def acc_add(self, part):
        self.p.append(Piece("all" if part.whole else "some", part.seq.label, part.seq.bytes if part.whole else self.cx.int("bytes", 0)))


class Text:
    """A text value or key."""

    def __init__(self, cx, name):
        self.cx, self.name, self.size = cx, name, cx.int("bytes of " + name, 0)

    def encode(self, encoding="utf-8", errors="strict"):
        if encoding.lower().replace("-", "") != "utf8" or errors != "strict":
            raise Unsupported("encoding " + encoding)
        return Rope(self.cx, [Piece("utf8", self.name, self.size)])

    def sym_len(self):
        return self.cx.int("characters of " + self.name, 0)

    def __repr__(self):
        return self.name


class Val:
    """A value of a type that is known."""

    def __init__(self, ty, **kw):
        self.ty = ty
        self.__dict__.update(kw)


class Pack:
    W = {"l": 4, "i": 4, "q": 8, "d": 8, "L": 4, "I": 4, "Q": 8, "B": 1, "b": 1, "h": 2, "H": 2}
    error = __import__("struct").error

    def __init__(self, cx):
        self.cx = cx

    def pack(self, fmt, *vs):
        cx = self.cx
        if len(fmt) != 2 or fmt[0] not in "<>!" or fmt[1] not in self.W or len(vs) != 1:
            raise Unsupported("struct format " + fmt)
        w, v = self.W[fmt[1]], vs[0]
        c = fmt[1]
        if c == "d":
            what = getattr(v, "name", v)
        else:
            lo, hi = (0, 2 ** (8 * w)) if c.isupper() else (-2 ** (8 * w - 1), 2 ** (8 * w - 1))
            if isinstance(v, Val):
                v = v.value
            if not cx.decide(z3.And(ti(v) >= lo, ti(v) < hi)):
                raise cx.modelled(self.error("out of range"))
            what = v
        c = {"i": "l", "I": "L"}.get(c, c)
        # of a value that fits both, signed and unsigned are the same bytes
        if c.isupper() and c != "B" and cx.decide(ti(what) < 2 ** (8 * w - 1)):
            c = c.lower()
        return Rope(cx, [Piece(("<" if fmt[0] == "<" else ">") + c, what, w)])

    def unpack(self, fmt, b):
        raise Unsupported("unpack")


class Entries(SymSeq):
    """An arbitrary dict with values of the types of a module."""
    check = None

    def items(self):
        return self

    def loop_spec(self, key, names):
        if self.check is None:
            raise Unsupported("the entries of a nested document")
        return AccSpec(self, lambda e: e.pair, key, names, self.check)


class List(SymSeq):
    """An arbitrary list; as a document its keys are the positions."""

    def loop_spec(self, key, names):
        raise Unsupported("the elements of a list without their positions")

    def sym_enumerate(self, start=0):
        return Positions(self, start)


class Positions:
    is_sym_seq = True

    def __init__(self, seq, start):
        self.seq, self.start = seq, start

    def loop_spec(self, key, names):
        seq, cx = self.seq, self.seq.cx

        def check(e, added):
            k = added and added[0][0]
            cx.prove("an element of a list is under its position", bool(added) and len(added) == 1 and isinstance(k, StrOf)
                     and added[0][1] is e and cx.check(ti(k.i) != ti(seq.index(e))) == z3.unsat, lambda: repr(added))
        return AccSpec(seq, lambda e: (Pos(cx, ti(seq.index(e) + self.start)), e), key, names, check)


class Pos(SymInt):
    def sym_str(self):
        return StrOf(self)


class StrOf:
    """The decimal digits of an integer."""

    def __init__(self, i):
        self.i = i


def same(W_cx, a, b):
    if len(a.parts) != len(b.parts):
        return False
    for x, y in zip(a.parts, b.parts):
        if isinstance(x, bytes) or isinstance(y, bytes):
            if not (isinstance(x, bytes) and isinstance(y, bytes) and x == y):
                return False
            continue
        if x.kind != y.kind:
            return False
        if isinstance(x.what, (SymInt, int)) and isinstance(y.what, (SymInt, int)) and not isinstance(x.what, bool):
            if W_cx.check(ti(x.what) != ti(y.what)) != z3.unsat:
                return False
        elif x.what is not y.what and x.what != y.what:
            return False
    return True


def document(cx):
    ns = cx.ns
    m = ns[MOD]
    shadow(cx, m, "BytesIO", lambda *init: Buf(cx, *init))
    shadow(cx, m, "struct", Pack(cx))
    TY = {"text": str, "document": dict, "list": list, "bytes": bytes, "int": int, "float": float, "other": tuple}

    def type_(x):
        if isinstance(x, Text):
            return str
        if isinstance(x, Val):
            return x.ty
        if isinstance(x, SymInt):
            return int
        if isinstance(x, Rope):
            return bytes
        if isinstance(x, Entries):
            return dict
        if isinstance(x, List):
            return list
        return type(x)

    def isinstance_(x, t):
        return issubclass(type_(x), t)
    shadow(cx, m, "type", type_)
    shadow(cx, m, "isinstance", isinstance_)
    real = m.dumps
    nested = {}

    def doc_of(key):
        if key not in nested:
            nested[key] = Piece("document", key, cx.int("bytes of a document", 5))
        return Rope(cx, [nested[key]])

    def dumps(d):
        if d is seq:
            return real(d)
        if type(d) is dict:
            v = seq.current.v
            return doc_of(("list", id(v)) if isinstance(v, List) and is_all(d, v) else ("dict", id(d)))
        return doc_of(id(d))
    seq = Entries(cx, "entries", None)
    shadow(cx, m, "dumps", dumps)

    def make():
        e = type("Entry", (), {})()
        e.kind = cx.choose("value", list(TY))
        k = Text(cx, "key")
        if e.kind == "text":
            v = Text(cx, "value")
        elif e.kind == "document":
            v = Entries(cx, "nested", None)
        elif e.kind == "list":
            v = List(cx, "elements", lambda: Val(int))
        elif e.kind == "bytes":
            v = Rope(cx, [Piece("bytes", "value", cx.int("bytes of value", 0))])
        elif e.kind == "int":
            v = cx.int("value")
            cx.assume(mkb(cx, z3.And(v.t >= -2 ** 63, v.t < 2 ** 63)))
        elif e.kind == "float":
            v = Val(float, name="the float")
        else:
            v = ()
        e.v, e.k, e.pair = v, k, (k, v)
        return e
    seq.make = make

    def check(e, added):
        if added is None:
            cx.prove("an entry is written once", False, lambda: e.kind)
            return
        got = Rope(cx, added)
        head = {"text": b"\x02", "document": b"\x03", "list": b"\x04", "bytes": b"\x05", "int": b"\x12", "float": b"\x01"}.get(e.kind)
        if head is None:
            cx.prove("a value of no known type is refused", False)
            return
        v = e.v
        body = {
            "text": lambda: [Piece("<l", v.size, 4), Piece("utf8", v.name, v.size), b"\0"],
            "document": lambda: parts(doc_of(id(v))),
            "list": lambda: parts(doc_of(("list", id(v)))),
            "bytes": lambda: [Piece("<l", v.sym_len(), 4), b"\x80"] + v.parts,
            "int": lambda: [Piece("<q", v, 8)],
            "float": lambda: [Piece("<d", v.name, 8)],
        }[e.kind]()
        want = Rope(cx, [head, Piece("utf8", "key", 0), b"\0"] + body)
        cx.prove("an entry is its type, its key and its value", same(cx, got, want), lambda: (e.kind, repr(got.parts), repr(want.parts)))
    seq.check = check

    seq.bytes = total = cx.int("bytes of the entries", 0)
    out = cx.call(m.dumps, seq)
    if out.crashed:
        # beyond 2^31 - 1 bytes nothing can be written; of what is not known neither
        e = seq.current
        sizes = [total] + ([e.v.size] if isinstance(e and e.v, Text) else [e.v.sym_len()] if isinstance(e and e.v, Rope) else [])
        big = any(cx.check(ti(x) < 2 ** 31) == z3.unsat for x in sizes)
        cx.prove("refused only when a size does not fit, or the type is unknown", big or (e is not None and e.kind == "other"), lambda: out.tb)
        cx.cover("refused")
        raise PathEnd()
    cx.cover("written")
    want = Rope(cx, [Piece("<l", total, 4), Piece("all", "entries", total), b"\0"])
    cx.prove("a document is its length, its entries in order and a zero", isinstance(out.value, Rope) and same(cx, out.value, want),
             lambda: repr(getattr(out.value, "parts", out.value)))


def vcs(prop):
    if prop not in ("C11", "C14"):
        return []
    return [dict(name="documents", fn=document, covers=["written", "refused"], infer=2,
                 functions=[MOD + "." + f for f in ("dumps", "dump_value", "bson_int32_len", "into_bson_int32", "into_bson_int64", "into_bson_f64")])]
