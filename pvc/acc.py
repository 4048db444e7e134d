"""Loops that build a container: what an arbitrary iteration adds is checked, the rest of
the container is one piece.

Which of the function's local containers grow is inferred (a pass that runs first finds
those that an iteration changes); a container that was not found to grow must be the
same after an iteration.
"""
from .engine import Unsupported, PathEnd
from .seq import SeqSpec
from .hooks import UNBOUND


class Part:
    """What the iterations so far have added (or, at the end, all of them)."""

    def __init__(self, seq, whole):
        self.seq, self.whole = seq, whole

    def part_contains(self, x):
        f = getattr(self.seq, "has", None)
        if f is None:
            raise Unsupported(f"whether {self.seq.label} has an element")
        return f(x, self)

    def __repr__(self):
        return f"<{'all' if self.whole else 'some'} of {self.seq.label}>"


def items(v):
    """The contents of a container in a comparable form, or None."""
    if type(v) is list:
        return list(v)
    if type(v) is dict:
        return list(v.items())
    if v is UNBOUND:
        return None
    f = getattr(v, "acc_items", None)
    return f() if f is not None else None


def add(v, part):
    if type(v) is list:
        v.append(part)
    elif type(v) is dict:
        v[part] = part
    else:
        v.acc_add(part)


def eq(a, b):
    if a is b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    return False


class AccSpec(SeqSpec):
    """check(e, added): added is the list of what the iteration added (to the one
    container that grew), or None when none grew."""

    def __init__(self, seq, view, key, names, check, begin=None, end=None):
        super().__init__(seq, view, key, names)
        self.check, self.begin, self.end = check, begin, end
        self.at = ("acc", seq.label) + tuple(key)

    def entry(self, vals):
        self.cx.persist.setdefault(self.at, set())

    def head(self, vals):
        return {n: UNBOUND for n in self.names}

    def containers(self, loc):
        return {n: v for n, v in loc.items() if n not in self.names and not n.startswith("__pvc") and items(v) is not None}

    def grow(self, loc, whole):
        for n in sorted(self.cx.persist[self.at]):
            v = loc.get(n)
            if items(v) is None:
                raise Unsupported(f"the loop in {self.key[0]} changes what it builds")
            add(v, Part(self.seq, whole))

    def see_head(self, loc):
        self.grow(loc, False)
        self.snap = {n: (v, items(v)) for n, v in self.containers(loc).items()}
        if self.begin:
            self.begin()

    def see_back(self, loc):
        grown = self.cx.persist[self.at]
        added = []
        for n, (v, old) in self.snap.items():
            if loc.get(n) is not v:
                raise Unsupported(f"the loop in {self.key[0]} carries state between iterations")
            now = items(v)
            if len(now) < len(old) or not all(eq(a, b) for a, b in zip(now, old)):
                raise Unsupported(f"the loop in {self.key[0]} changes what it has built")
            new = now[len(old):]
            if new and n not in grown:
                if not self.cx.inferring:
                    raise Unsupported(f"the loop in {self.key[0]} carries state between iterations")
                grown.add(n)
            if n in grown:
                added.append(new)
        if self.cx.inferring:
            return
        if len(added) > 1:
            raise Unsupported(f"the loop in {self.key[0]} builds several things")
        self.check(self.e, added[0] if added else None)

    def back(self, vals):
        pass

    def see_exit(self, loc):
        self.grow(loc, True)
        if self.end:
            self.end()

    def done(self, vals):
        return {n: UNBOUND for n in self.names}


def is_all(v, seq, before=()):
    """The container holds what it held before and all that the loop over seq builds."""
    xs = items(v)
    if xs is None:
        raise Unsupported("a container that is not the one a loop built")
    xs = [x[0] if isinstance(x, tuple) and isinstance(x[0], Part) else x for x in xs]
    return len(xs) == len(before) + 1 and list(xs[:-1]) == list(before) and isinstance(xs[-1], Part) and xs[-1].whole and xs[-1].seq is seq

