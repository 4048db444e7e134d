"""What the instrumented code calls: the loop rule and symbolic builtins."""
import builtins
from .loader import COUNTERS
from .engine import PathEnd, Unsupported, SymInt, SymBool, SymName, mk, CURRENT


class Unbound:
    """A local that has no value at the loop head: any use is unsupported."""

    def __getattr__(self, a):
        if a.startswith("__") and a.endswith("__"):
            raise AttributeError(a)
        raise Unsupported("use of an unbound local after a loop cut")

    def __bool__(self):
        raise Unsupported("use of an unbound local after a loop cut")

    def __eq__(self, o):
        raise Unsupported("use of an unbound local after a loop cut")

    __hash__ = None


UNBOUND = Unbound()


class NodeMeta(type):
    """isinstance of a stub: what a contract leaves open is not decided here."""

    def __instancecheck__(cls, x):
        if type.__instancecheck__(cls, x):
            return True
        base = getattr(type(x), "stub_of", None)
        if base is None or not issubclass(cls, base) or x.__dict__.get("exact"):
            return False
        return x.stub_is(cls)


class AnyNode:
    """Stands for every node of a kind; mixed into the class of the kind."""

    def __getattr__(self, a):
        if a.startswith(("__", "sym_", "is_", "pvc_")) or a in AnyNode.OURS or a in self.__dict__.get("lacks", ()):
            raise AttributeError(a)
        raise Unsupported(f"attribute {a} of {self.label}")
    OURS = ("may_fail", "on_type", "in_str", "part_contains")

    def stub_is(self, cls):
        known = self.__dict__.setdefault("kinds", {})
        for c, yes in known.items():
            if yes and not issubclass(c, cls) and not issubclass(cls, c) or not yes and issubclass(cls, c):
                return False
        if cls not in known:
            known[cls] = CURRENT[0].flag(f"{self.label} is a {cls.__name__}")
        if known[cls] and cls.__name__ not in AnyNode.PLAIN and "any_kind" not in self.__dict__:
            raise Unsupported(f"{self.label} as a {cls.__name__}")
        return known[cls]
    # kinds that any part of that sort may have, whatever its type: code may tell them apart
    PLAIN = ("Call", "Variable", "Get", "IndexGet", "Unwrap")


class LoopSpec:
    """An invariant for one loop, supplied by a contract.

    entry(vals)          -- prove the invariant holds initially
    head(vals) -> dict   -- havoc: new values of the assigned locals (and of
                            the heap the contract owns), invariant assumed
    back(vals)           -- prove the invariant after an arbitrary iteration
    done(vals)           -- (for loops) called on the exit path with the final
                            values: assume invariant at the end of the sequence
    """

    def entry(self, vals): ...
    def head(self, vals): return {}
    def back(self, vals): ...
    def done(self, vals): return self.head(vals)


class Loop:
    def __init__(self, key, names, it):
        self.key, self.names, self.it = key, names, it
        self.cut = False
        self.spec = None

    def __iter__(self):
        return iter(self.it)


class CutFor(Loop):
    """for x in SEQ with SEQ of arbitrary length: 0 or 1 arbitrary iteration."""

    def __init__(self, key, names, seq, spec, cx):
        super().__init__(key, names, seq)
        self.cut = True
        self.spec, self.cx = spec, cx
        self.phase = 0

    def __iter__(self):
        return self

    def __next__(self):
        if self.phase == 0:
            self.phase = self.cx.choose("loop", ["iter", "exit"]) == "iter" and 1 or 2
            if self.phase == 1:
                self.phase = 3
                return self.spec.element()
            self.spec.exiting()
            raise StopIteration
        raise PathEnd()  # the back edge was proved by .back()


class Hooks:
    def __init__(self):
        self.cx = None

    # ------------------------------------------------------------------ loops
    def for_loop(self, key, names, it, loc):
        cx = self.cx
        if cx is None or not getattr(it, "is_sym_seq", False):
            return Loop(key, names, self.unordered(it))
        spec = it.loop_spec(key, names) if cx.loop_policy is None else cx.loop_policy(key, names, it, loc)
        if spec is None:
            raise Unsupported(f"no invariant for the loop in {key[0]}")
        L = CutFor(key, names, it, spec, cx)
        L.v0 = {n: loc[n] for n in COUNTERS.get(key, ()) if n in names and n in loc}
        spec.entry({n: loc.get(n, UNBOUND) for n in names})
        return L

    NodeMeta = NodeMeta

    def b_type(self, x, type=type):
        if getattr(builtins.type(x), "stub_of", None) is not None and not x.__dict__.get("exact"):
            raise Unsupported(f"the class of {x.label}")
        f = getattr(builtins.type(x), "sym_type", None)
        return f(x) if f else getattr(builtins.type(x), "pvc_class", None) or type(x)

    def unordered(self, it):
        """A set has no order that the code may rely on."""
        if self.cx is not None and type(it) in (set, frozenset) and builtins.len(it) > 1:
            it = builtins.list(it)
            if self.cx.flag("a set is traversed in the other order"):
                it.reverse()
        return it

    def for_enter(self, L, loc):
        if not L.cut:
            return None
        new = L.spec.head({n: loc.get(n, UNBOUND) for n in L.names})
        if hasattr(L.spec, "see_head"):
            L.spec.see_head(loc)
        return self.rebind(L, new, loc, "iteration")

    def for_exit(self, L, loc):
        if not L.cut:
            return None
        if hasattr(L.spec, "see_exit"):
            L.spec.see_exit(loc)
        new = L.spec.done({n: loc.get(n, UNBOUND) for n in L.names})
        return self.rebind(L, new, loc, "count")

    def rebind(self, L, new, loc, where):
        """The values of the names a loop assigns, as the rule leaves them; a counter
        that the rule says nothing about has advanced once per iteration."""
        out = []
        for n in L.names:
            v = new.get(n, loc.get(n, UNBOUND))
            if v is UNBOUND and n in getattr(L, "v0", ()) and COUNTERS[L.key][n] is None:
                v = L.v0[n]
            elif v is UNBOUND and n in getattr(L, "v0", ()) and type(L.v0[n]) in (int, SymInt):
                k = getattr(L.spec, where)() if hasattr(L.spec, where) else None
                if k is not None:
                    v = L.v0[n] + k * COUNTERS[L.key][n]
            if v is UNBOUND:
                self.cx.lost.add(n)
            out.append(v)
        return tuple(out)

    def while_loop(self, key, names, loc):
        cx = self.cx
        L = Loop(key, names, None)
        if cx is not None and getattr(cx, "while_policy", None):
            spec = cx.while_policy(key, names, {n: loc.get(n, UNBOUND) for n in names}, loc)
            if spec is not None:
                L.cut, L.spec, L.cx = True, spec, cx
                spec.entry({n: loc.get(n, UNBOUND) for n in names})
        return L

    def while_head(self, L, loc):
        if not L.cut:
            return None
        new = L.spec.head({n: loc.get(n, UNBOUND) for n in L.names})
        return self.rebind(L, new, loc, None)

    def back(self, L, loc):
        if L.cut:
            if hasattr(L.spec, "see_back"):
                L.spec.see_back(loc)
            L.spec.back({n: loc.get(n, UNBOUND) for n in L.names})
            raise PathEnd()
        cx = self.cx
        if cx is not None and L.it is None:
            n = getattr(L, "n", 0) + 1
            L.n = n
            lim = getattr(cx, "unroll", None)
            if lim is not None and n > lim:
                cx.bounded.add(f"{L.key[0]}: loop unrolled {lim} times")
                raise PathEnd()

    # -------------------------------------------------------------- operators
    def is_(self, a, b):
        f = getattr(a, "sym_is", None) or getattr(b, "sym_is", None)
        if self.cx is not None and f is not None and callable(f):
            return f(b if getattr(a, "sym_is", None) else a)
        return a is b

    def contains(self, a, b):
        if self.cx is not None:
            f = getattr(b, "sym_contains", None)
            if f is not None:
                return f(a)
            if type(b) in (list, dict):
                for x in b:
                    f = getattr(x, "part_contains", None)
                    if f is not None and f(a):
                        return True
            if isinstance(a, (SymName, SymInt)) or getattr(a, "is_sym", False):
                if isinstance(b, (list, tuple, set, frozenset, dict)):
                    for x in b:
                        if a == x:
                            return True
                    return False
                if isinstance(b, str) and getattr(a, "in_str", None):
                    return a.in_str(b)
        return a in b

    # --------------------------------------------------------------- builtins
    def _sym(self, name):
        def get(x):
            return getattr(x, name, None) if self.cx is not None else None
        return get

    def b_len(self, x):
        f = getattr(x, "sym_len", None)
        return f() if f is not None and self.cx is not None else builtins.len(x)

    def b_range(self, *a):
        if any(isinstance(x, SymInt) for x in a):
            s = self.cx.lengths.get(id(a[0])) if self.cx is not None and len(a) == 1 else None
            r = s.sym_range() if s is not None else None
            if r is not None:
                return r
            raise Unsupported("a range of an arbitrary length")
        return builtins.range(*a)

    def b_enumerate(self, x, start=0):
        f = getattr(x, "sym_enumerate", None)
        return f(start) if f else builtins.enumerate(x, start)

    def b_zip(self, *xs):
        for x in xs:
            f = getattr(x, "sym_zip", None)
            if f:
                if any(type(y) in (list, tuple, dict) and not len(y) for y in xs):
                    return []
                return f(xs)
        return builtins.zip(*xs)

    def b_map(self, f, *xs):
        g = getattr(xs[0], "sym_map", None)
        return g(f) if g else builtins.map(f, *xs)

    def b_next(self, x, *d):
        f = getattr(x, "sym_next", None)
        return f(*d) if f else builtins.next(x, *d)

    def b_any(self, x):
        f = getattr(x, "sym_any", None)
        return f() if f else builtins.any(x)

    def b_all(self, x):
        f = getattr(x, "sym_all", None)
        return f() if f else builtins.all(x)

    def b_int(self, x):
        f = getattr(x, "sym_int", None)
        return f() if f is not None and self.cx is not None else builtins.int(x)

    def b_float(self, x):
        f = getattr(x, "sym_float", None)
        return f() if f is not None and self.cx is not None else builtins.float(x)

    def b_str(self, x):
        f = getattr(x, "sym_str", None)
        return f() if f is not None and self.cx is not None else builtins.str(x)

    def fstr(self, *parts):
        """An f-string: constant parts are str, expressions 1-tuples."""
        if getattr(self.cx, "templates", False) and any(
                isinstance(p, tuple) and (isinstance(p[0], SymInt) or getattr(p[0], "is_template", False)) for p in parts):
            from .engine import Template
            out = []
            for p in parts:
                x = p if isinstance(p, str) else p[0]
                out += x.parts if isinstance(x, Template) else [x if isinstance(x, (str, SymInt)) else format(x)]
            return Template(self.cx, out)
        if self.cx is not None and any(
                isinstance(p, tuple) and getattr(p[0], "sym_text", None) for p in parts):
            acc = ""
            for p in parts:
                x = p if isinstance(p, str) else p[0]
                if getattr(x, "sym_text", None) is None and not isinstance(x, str):
                    x = format(x)
                acc = acc + x if acc != "" or not isinstance(acc, str) else x
            return acc
        return "".join(p if isinstance(p, str) else format(p[0]) for p in parts)

    def comp(self, kind, key, it, f, cond):
        if self.cx is not None and getattr(it, "is_sym_seq", False):
            return it.comp(kind, key, f, cond)
        it = self.unordered(it)
        if kind == "list":
            return [f(x) for x in it if cond is None or cond(x)]
        if kind == "dict":
            return dict(f(x) for x in it if cond is None or cond(x))
        if kind == "set":
            return {f(x) for x in it if cond is None or cond(x)}
        return (f(x) for x in it if cond is None or cond(x))

    def b_list(self, *x):
        if x and getattr(x[0], "is_sym_seq", False):
            return x[0].sym_list()
        return builtins.list(*(self.unordered(y) for y in x))

    def b_reversed(self, x):
        f = getattr(x, "sym_reversed", None)
        return f() if f else builtins.reversed(x)
