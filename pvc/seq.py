"""Sequences of arbitrary length, and the rule for the loops over them.

A loop over a SymSeq is cut: one path runs the body on an arbitrary element and
ends at the back edge, the other continues after the loop.  What an iteration
establishes about its element (a set of candidate facts supplied by the contract)
is inferred: a first pass drops the candidates that fail at some back edge of the
loop, the final pass proves the others, and the path after the loop, and later
traversals, may assume them of every element.  The rule is only applied when the
body carries no state between iterations: the names it assigns are unbound for
the next iteration, and a change of the state that the contract lists (`frame`) or
of a local container makes the path undecided.
"""
import z3
from .engine import PathEnd, Unsupported, mk, mkb
from .hooks import LoopSpec, UNBOUND

PLAIN = (list, dict, set)


def _shape(v):
    if isinstance(v, dict):
        return ("d", tuple((id(k) if not isinstance(k, str) else k, id(x)) for k, x in v.items()))
    if isinstance(v, set):
        return ("s", frozenset(map(id, v)))
    return ("l", tuple(map(id, v)))


class SeqSpec(LoopSpec):
    def __init__(self, seq, view, key, names):
        self.seq, self.view, self.key, self.names = seq, view, key, names
        self.cx = seq.cx

    def cand(self):
        return self.cx.persist.setdefault(("seq", self.seq.label) + tuple(self.key),
                                          set(self.seq.facts))

    def entry(self, vals):
        self.cand()

    def element(self):
        self.seq.head()
        self.e = self.seq.fresh()
        self.seq.current = self.e
        self.snap = None
        return self.view(self.e)

    def exiting(self):
        pass

    def iteration(self):
        """How many iterations came before this one."""
        e = getattr(self, "e", None)
        return self.seq.index(e) if e is not None and hasattr(self.seq, "index") else None

    def count(self):
        return getattr(self.seq, "n", None)

    def head(self, vals):
        self.frame = self.seq.frame()
        return {n: UNBOUND for n in self.names}

    def done(self, vals):
        self.seq.finish(self)
        return {n: UNBOUND for n in self.names}

    def locals_at(self, loc):
        return {n: _shape(v) for n, v in loc.items()
                if type(v) in PLAIN and not n.startswith("__pvc") and n not in self.names}

    def see_head(self, loc):
        self.locs = self.locals_at(loc)

    def see_back(self, loc):
        now = self.locals_at(loc)
        if any(now.get(n) != v for n, v in self.locs.items()):
            raise Unsupported(f"the loop in {self.key[0]} carries state between iterations")

    def back(self, vals):
        self.seq.at_back(self)


class SymSeq:
    is_sym_seq = True

    def __init__(self, cx, label, make, facts=None, effects=None, n=None, frame=None, head=None):
        self.cx, self.label, self.make = cx, label, make
        self.facts = dict(facts or {})      # name -> predicate of an element
        self.effects = dict(effects or {})  # name -> makes it true of a fresh element
        self.est = set()
        self.n = n if n is not None else cx.int(label + ".n", lo=0)
        self.frame = frame or (lambda: None)
        self.head = head or (lambda: None)
        self.current = None
        self.pos = {}

    # -- elements
    def fresh(self):
        self.cx.assume(mkb(self.cx, (self.n.t if hasattr(self.n, "t") else z3.IntVal(self.n)) >= 1))
        e = self.make()
        for f in sorted(self.est):
            if f in self.effects:
                self.effects[f](e)
        return e

    def loop_spec(self, key, names):
        return SeqSpec(self, lambda e: e, key, names)

    def at_back(self, spec):
        if spec.frame != self.frame():
            raise Unsupported(f"the loop in {spec.key[0]} carries state between iterations")
        self.check_facts(spec.cand(), spec.e)

    def check_facts(self, cand, e):
        for f in sorted(cand):
            if self.cx.inferring:
                if not self.facts[f](e):
                    cand.discard(f)
            else:
                self.cx.prove(f"every iteration over {self.label}: {f}", self.facts[f](e))

    def finish(self, spec):
        self.est |= spec.cand()

    # -- operations
    def sym_len(self):
        self.cx.lengths[id(self.n)] = self
        return self.n

    def sym_range(self):
        """range(len(..)): the positions of the elements."""
        if type(self).loop_spec is not SymSeq.loop_spec:
            return None
        return View(self, self.index)

    def __bool__(self):
        n = self.n
        return bool(n > 0)

    def sym_enumerate(self, start=0):
        return View(self, lambda e: (plus(self.index(e), start), e))

    def index(self, e):
        if id(e) not in self.pos:
            i = self.cx.int(self.label + ".i", lo=0)
            self.cx.assume(i < self.n)
            self.pos[id(e)] = (i, e)
        return self.pos[id(e)][0]

    def sym_zip(self, xs):
        base = [x.base() for x in xs]
        part = None
        for x in xs:
            p = getattr(x, "part", None)
            if p is not None and (part is not None or p[0] != 0):
                raise Unsupported("zip of slices")
            part = part or p
        main = base[0]
        for b in base[1:]:
            if b is not main and getattr(b, "mate", None) is not main and getattr(main, "mate", None) is not b:
                raise Unsupported("zip of unrelated sequences")
        return View(main, lambda e: tuple(x.of(e) for x in xs), others=base[1:], part=part)

    def base(self):
        return self

    def of(self, e):
        """The element of this sequence at the position of e (of this one or its mate)."""
        if e.seq is self:
            return e
        return e.partner

    def sym_list(self):
        return self

    def values(self):
        return self

    def comp(self, kind, key, f, cond):
        return View(self, lambda e: e).comp(kind, key, f, cond)

    def sym_map(self, f):
        return self.comp("gen", ("map", 0, "map"), f, None)

    def __iter__(self):
        raise Unsupported(f"iteration over {self.label} outside a loop rule")

    def __getitem__(self, i):
        """The element at the position of one that a loop looks at."""
        if isinstance(i, slice):
            return View(self, lambda e: e)[i]
        mate = getattr(self, "mate", None)
        for s in (self, mate):
            for j, e in getattr(s, "pos", {}).values():
                if i is j or hasattr(i, "t") and i.t.eq(j.t):
                    if s is not self and not self.cx.decide(_t(j) < _t(self.n)):
                        raise self.cx.modelled(IndexError("list index out of range"))
                    return self.of(e)
        raise Unsupported(f"an element of {self.label} by position")

    def __len__(self):
        raise Unsupported("len")


class Selected:
    """The elements that a filter keeps: at least the one at hand."""

    def __init__(self, first):
        self.first = first

    def __bool__(self):
        return True

    def __getitem__(self, i):
        if i == 0:
            return self.first
        raise Unsupported("an element that a filter keeps by position")

    def __iter__(self):
        raise Unsupported("iteration over what a filter keeps")

    __len__ = sym_len = __iter__


class View:
    """What enumerate, zip and comprehensions make of a SymSeq."""
    is_sym_seq = True
    filtered = False

    def __init__(self, seq, view, others=(), part=None):
        self.seq, self.view, self.others = seq, view, list(others)
        self.part = part        # the positions that a slice keeps: not all of them, and at least one
        self.cx = seq.cx

    @property
    def n(self):
        return self.seq.n

    def derived(self, view):
        return View(self.seq, view, self.others, self.part)

    def __getitem__(self, i):
        if not isinstance(i, slice) or self.others or self.part or type(self.seq).loop_spec is not SymSeq.loop_spec or \
                i.step is not None or any(type(x) is not int and x is not None for x in (i.start, i.stop)):
            raise Unsupported(f"a part of {self.seq.label} by position")
        self.plain()
        n = _t(self.seq.n)

        def at(x):
            if x is None or x >= 0:
                return x
            return 0 if self.cx.decide(n <= -x) else mk(self.cx, n + x)
        lo, hi = at(i.start or 0), at(i.stop)
        if hi is not None and self.cx.decide(_t(hi) >= n):
            hi = None
        top = n if hi is None else _t(hi)
        if self.cx.decide(_t(lo) >= top):
            return []
        if hi is None and not self.cx.decide(_t(lo) > 0):
            return self
        return View(self.seq, self.view, (), (lo, mk(self.cx, top)))

    def plain(self):
        if self.filtered:
            raise Unsupported("what a filter keeps of an arbitrary sequence")
        return self

    def base(self):
        self.plain()
        return self.seq

    def of(self, e):
        return self.view(self.seq.of(e))

    def sym_len(self):
        self.plain()
        if self.part:
            return mk(self.cx, _t(self.part[1]) - _t(self.part[0]))
        return self.seq.n

    def __bool__(self):
        self.plain()
        return True if self.part else bool(self.seq)

    def sym_list(self):
        self.plain()
        return self

    def loop_spec(self, key, names):
        self.plain()
        return ViewSpec(self, key, names)

    def sym_enumerate(self, start=0):
        self.plain()
        lo = self.part[0] if self.part else 0
        if not isinstance(lo, int) or lo:
            start = mk(self.cx, _t(start) - _t(lo))
        return self.derived(lambda e: (plus(self.seq.index(e), start), self.view(e)))

    def sym_zip(self, xs):
        return SymSeq.sym_zip(self.seq, xs) if self.part else self.seq.sym_zip(xs)

    def comp(self, kind, key, f, cond):
        self.plain()
        if cond is not None:
            if kind not in ("gen", "list") or type(self.seq).loop_spec is not SymSeq.loop_spec:
                raise Unsupported("a filtered comprehension over an arbitrary sequence")
            v = self.derived(lambda e: (f, cond, self.view(e))).keyed(key, kind)
            v.filtered = True
            if kind == "gen":
                return v
            out = v.sym_next([])
            return out if out == [] else Selected(out)
        if kind == "set":
            raise Unsupported("a set of an arbitrary sequence")
        if kind == "list" or kind == "dict":
            spec = ViewSpec(self, key, ())
            spec.entry({})
            if self.cx.choose("comprehension", ["iter", "exit"]) == "iter":
                spec.head({})
                x = spec.element()
                f(x)
                spec.back({})
                raise PathEnd()
            spec.done({})
        v = self.derived(lambda e: f(self.view(e))).keyed(key, kind)
        return DictView(v) if kind == "dict" else v

    def keyed(self, key, kind):
        self.key, self.kind = key, kind
        return self

    def _quant(self, stop):
        spec = ViewSpec(self, self.key, ())
        spec.entry({})
        if self.cx.choose("any/all", ["iter", "exit"]) == "iter":
            spec.head({})
            x = spec.element()
            if self.filtered:
                f, cond, e = x
                x = f(e) if cond(e) else not stop
            if bool(x) is stop:
                return stop
            spec.back({})
            raise PathEnd()
        spec.done({})
        return not stop

    def sym_next(self, *default):
        """The first element that passes the filter (any element without one)."""
        spec = ViewSpec(self, self.key, ())
        spec.entry({})
        if self.cx.choose("next", ["iter", "exit"]) == "iter":
            spec.head({})
            x = spec.element()
            if not self.filtered:
                if self.part or self.cx.decide(_t(self.seq.n) != 1):
                    raise Unsupported("the first element of an arbitrary sequence")
                return x
            f, cond, e = x
            if cond(e):
                return f(e)
            spec.back({})
            raise PathEnd()
        spec.done({})
        if not self.filtered:
            self.cx.assume(mkb(self.cx, _t(self.seq.n) == 0))
        if not default:
            raise self.cx.modelled(StopIteration())
        return default[0]

    def sym_any(self):
        return self._quant(True)

    def sym_all(self):
        return self._quant(False)

    def sym_map(self, f):
        return self.comp("gen", ("map", 0, "map"), f, None)

    def __iter__(self):
        raise Unsupported(f"iteration over {self.seq.label} outside a loop rule")


class DictView:
    """What a dict comprehension makes of a SymSeq.  Passed as keyword arguments it
    is one entry that stands for all."""
    is_sym_map = True

    def __init__(self, pairs):
        self.pairs = pairs
        self.seq, self.cx = pairs.seq, pairs.cx

    def items(self):
        return self.pairs

    def values(self):
        p = self.pairs
        return p.derived(lambda e: p.view(e)[1]).keyed(p.key, "gen")

    def keys(self):
        return [f"* of {self.seq.label}"]

    def __getitem__(self, k):
        if k == f"* of {self.seq.label}":
            return self
        raise Unsupported(f"an entry of {self.seq.label} by name")

    def sym_len(self):
        return self.pairs.sym_len()

    def __iter__(self):
        raise Unsupported(f"iteration over {self.seq.label} outside a loop rule")

    def __len__(self):
        raise Unsupported("len")

    def __bool__(self):
        return bool(self.seq)


class ViewSpec(SeqSpec):
    def __init__(self, v, key, names):
        super().__init__(v.seq, v.view, key, names)
        self.v = v

    def element(self):
        e = self.seq.fresh()
        for o in self.v.others:
            # the shorter sequence ends a zip
            self.cx.assume(mkb(self.cx, _t(o.n) >= 1))
        if self.v.part:
            at, (lo, hi) = self.seq.index(e), self.v.part
            self.cx.assume(mkb(self.cx, z3.And(_t(lo) <= _t(at), _t(at) < _t(hi))))
        self.seq.head()
        self.e = self.seq.current = e
        return self.view(e)

    def done(self, vals):
        full = not self.v.part
        for o in self.v.others:
            if o is not self.seq and not self.cx.decide(_t(self.seq.n) <= _t(o.n)):
                full = False
        self.full = full
        if full:
            self.seq.finish(self)
        return {n: UNBOUND for n in self.names}

    def count(self):
        return self.seq.n if self.full else None


def plus(i, start):
    return i if type(start) is int and start == 0 else i + start


def _t(n):
    return n.t if hasattr(n, "t") else z3.IntVal(n)
