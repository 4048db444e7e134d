"""A deductive verifier for the real Python code: forward symbolic execution.

One verification condition generator = one Python function `vc(cx)` which builds
an arbitrary input of a function of /repo that satisfies the function's
precondition, calls the real (instrumented) function, and states the function's
postcondition with `cx.prove`.

  * inputs: `cx.choose` splits over a finite, complete list of cases;
    `cx.int/bool/name` make unconstrained z3 terms; abstract objects
    (pvc.values) stand for "any value meeting this contract";
  * callees are replaced by their contracts (the vc installs stubs on the
    private copy), loops by their invariants (pvc loop rule below);
  * every branch on a symbolic condition is explored on both sides unless z3
    proves one side infeasible; each `prove` is a named obligation decided by z3
    (or by evaluation when the path has made it ground).

Paths are enumerated depth first by replaying the decision prefix.
"""
import builtins
import os
import signal
import re
import time
import traceback
import z3


_VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class PathEnd(BaseException):
    """This path is complete or infeasible (assume false, end of loop body)."""


class Unsupported(BaseException):
    """The code used something the verifier has no rule for: undecided."""


class Budget(BaseException):
    pass


class TimeLimit(BaseException):
    """The code under a watchdog did not finish."""


def _alarm(*_):
    raise TimeLimit()


def limited(seconds, fn, *a, **k):
    """Run fn under a watchdog (main thread only)."""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        return fn(*a, **k)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


# --------------------------------------------------------------- symbolic values
class SymBool:
    __slots__ = ("cx", "t")

    def __deepcopy__(self, memo):
        return self

    def __init__(self, cx, t):
        self.cx, self.t = cx, t

    def __bool__(self):
        return self.cx.decide(self.t)

    def __invert__(self):
        return SymBool(self.cx, z3.Not(self.t))

    def __and__(self, o):
        return SymBool(self.cx, z3.And(self.t, tb(o)))

    __rand__ = __and__

    def __or__(self, o):
        return SymBool(self.cx, z3.Or(self.t, tb(o)))

    __ror__ = __or__

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return SymBool(self.cx, self.t == tb(o))
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else ~r

    def __hash__(self):
        return hash(bool(self))

    def __repr__(self):
        return f"SymBool({self.t})"


def tb(x):
    if isinstance(x, SymBool):
        return x.t
    if isinstance(x, z3.BoolRef):
        return x
    return z3.BoolVal(bool(x))


def ti(x):
    if isinstance(x, SymInt):
        return x.t
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, z3.ArithRef):
        return x
    raise Unsupported(f"integer term from {type(x).__name__}")


class SymInt:
    """A mathematical integer (Python ints are unbounded: exact)."""
    __slots__ = ("cx", "t")

    def __deepcopy__(self, memo):
        return self

    def __init__(self, cx, t):
        self.cx, self.t = cx, z3.simplify(t) if not z3.is_int_value(t) else t

    def _b(self, o, f):
        if isinstance(o, (int, SymInt)):
            return mk(self.cx, f(self.t, ti(o)))
        return NotImplemented

    def __add__(self, o): return self._b(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(self, o): return self._b(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._b(o, lambda a, b: b - a)
    def __mul__(self, o): return self._b(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __neg__(self): return mk(self.cx, -self.t)

    def __floordiv__(self, o):
        if isinstance(o, int) and o > 0:
            return mk(self.cx, self.t / o)
        raise Unsupported("symbolic //")

    def __mod__(self, o):
        if isinstance(o, int) and o > 0:
            return mk(self.cx, self.t % o)
        raise Unsupported("symbolic %")

    def __lshift__(self, o):
        if isinstance(o, int):
            return self * (1 << o)
        raise Unsupported("symbolic <<")

    def __rshift__(self, o):
        if isinstance(o, int):
            return self // (1 << o)
        raise Unsupported("symbolic >>")

    def __and__(self, o):
        # exact for masks of the form (2^w - 1) << s on any (two's complement) int
        if isinstance(o, int) and o >= 0:
            s = 0
            m = o
            if m == 0:
                return 0
            while m & 1 == 0:
                m >>= 1
                s += 1
            if m & (m + 1) == 0:
                return ((self >> s) % (m + 1)) << s
        raise Unsupported("symbolic & with a non-contiguous mask")

    __rand__ = __and__

    def __or__(self, o):
        raise Unsupported("symbolic |")

    __ror__ = __or__

    def _c(self, o, f):
        if isinstance(o, (int, SymInt)):
            return mkb(self.cx, f(self.t, ti(o)))
        return NotImplemented

    def __eq__(self, o):
        return self._c(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._c(o, lambda a, b: a != b)

    def __lt__(self, o): return self._c(o, lambda a, b: a < b)
    def __le__(self, o): return self._c(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._c(o, lambda a, b: a > b)
    def __ge__(self, o): return self._c(o, lambda a, b: a >= b)

    def __bool__(self):
        return self.cx.decide(self.t != 0)

    def __hash__(self):
        v = self.cx.concrete_int(self)
        if v is None:
            raise Unsupported("hash of a symbolic int")
        return hash(v)

    def __index__(self):
        v = self.cx.concrete_int(self)
        if v is None:
            raise Unsupported("symbolic int used as an index")
        return v

    __int__ = __index__

    def sym_int(self):
        return self

    def __repr__(self):
        return f"SymInt({self.t})"


def mk(cx, t):
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    return SymInt(cx, t)


def mkb(cx, t):
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(cx, t)


class Template:
    """A string written around integers that are known only by their relations.  Between
    two integers there is always a part that does not start or end with a digit, so two of
    them with the same parts are equal exactly when the integers are."""
    is_template = True

    def __init__(self, cx, parts):
        self.cx = cx
        self.parts = []
        for p in parts:
            if isinstance(p, str) and self.parts and isinstance(self.parts[-1], str):
                self.parts[-1] += p
            elif p != "" or not isinstance(p, str):
                self.parts.append(p)
        for a, b in zip(self.parts, self.parts[1:]):
            if not isinstance(a, str) and not isinstance(b, str) or isinstance(a, str) and a[-1] in "0123456789-" or \
                    isinstance(b, str) and b[0].isdigit():
                raise Unsupported("a string in which numbers touch")

    def __add__(self, o):
        if not isinstance(o, (str, Template)):
            return NotImplemented
        return Template(self.cx, self.parts + (o.parts if isinstance(o, Template) else [o]))

    def __radd__(self, o):
        return Template(self.cx, [o] + self.parts) if isinstance(o, str) else NotImplemented

    def shape(self):
        return [p if isinstance(p, str) else None for p in self.parts]

    def ints(self):
        return [p for p in self.parts if not isinstance(p, str)]

    def same(self, o):
        if isinstance(o, Template):
            if self.shape() == o.shape():
                return z3.And(*[ti(a) == ti(b) for a, b in zip(self.ints(), o.ints())])
            a, b = self.parts[0], o.parts[0]
            if isinstance(a, str) and isinstance(b, str) and not a.startswith(b) and not b.startswith(a):
                return z3.BoolVal(False)
            if [x for x in self.shape() if x] != [x for x in o.shape() if x] and len(self.parts) == len(o.parts) and \
                    self.shape()[0] == o.shape()[0] and all((x is None) == (y is None) for x, y in zip(self.shape(), o.shape())):
                return z3.BoolVal(False)
            raise Unsupported("strings of different makes compared")
        if isinstance(o, str):
            import re
            m = re.fullmatch("".join("(-?[0-9]+)" if p is None else re.escape(p) for p in self.shape()), o)
            if not m or any(str(int(x)) != x for x in m.groups()):
                return z3.BoolVal(False)
            return z3.And(*[ti(a) == int(x) for a, x in zip(self.ints(), m.groups())])
        return None

    def __eq__(self, o):
        t = self.same(o)
        return NotImplemented if t is None else mkb(self.cx, t)

    def __ne__(self, o):
        t = self.same(o)
        return NotImplemented if t is None else mkb(self.cx, z3.Not(t))

    def __hash__(self):
        return 0

    def __repr__(self):
        return "".join(p if isinstance(p, str) else "{}" for p in self.parts)

    __str__ = __repr__


class SymName:
    """An arbitrary string known only up to equality (identifiers, lexemes)."""
    is_sym_name = True
    sym_text = None

    def __deepcopy__(self, memo):
        return self
    _intern = {}
    _prefix_known = ()

    def __init__(self, cx, label, t=None):
        self.cx, self.label = cx, label
        self.t = t if t is not None else z3.FreshInt("name_" + label)

    @classmethod
    def code(cls, s):
        return cls._intern.setdefault(s, len(cls._intern) + 1)

    def term(self, o):
        if isinstance(o, SymName):
            return o.t
        if isinstance(o, str):
            return z3.IntVal(self.code(o))
        return None

    def __eq__(self, o):
        t = self.term(o)
        if t is None:
            return NotImplemented
        return mkb(self.cx, self.t == t)

    def __ne__(self, o):
        t = self.term(o)
        if t is None:
            return NotImplemented
        return mkb(self.cx, self.t != t)

    def __hash__(self):
        raise Unsupported("hash of a symbolic name")

    def __str__(self):
        return f"<{self.label}>"

    __repr__ = __str__

    def __format__(self, spec):
        return str(self)

    def __bool__(self):
        return True  # non-empty by construction

    def startswith(self, p):
        return self.cx.fact(("startswith", p), self)

    def endswith(self, p):
        return self.cx.fact(("endswith", p), self)

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        raise Unsupported(f"str.{a} on a symbolic name")


# ------------------------------------------------------------------------ context
class Ctx:
    def __init__(self, name, deadline=None, z3_timeout=20000):
        self.name = name
        self.prefix = []
        self.deadline = deadline
        self.z3_timeout = z3_timeout
        self.obl = {}  # clause -> dict(proved, refuted, unknown)
        self.failures = []
        self.undecided = []
        self.paths = 0
        self.covers = {}
        self.solver_s = 0.0
        self.z3_calls = 0
        self.ground = 0
        self.bounded = set()
        self.lost = set()       # locals that a loop rule unbound
        self.assumed = set()
        self.functions = set()
        self.loop_policy = None
        self.ns = None
        self.persist = {}
        self.inferring = False

    # -- path management
    def begin(self):
        self.lost = set()
        self.lengths = {}       # lengths that were asked for
        self.trail = []  # (kind, index, total, label)
        self.pos = 0
        self.solver = z3.Solver()
        self.solver.set("timeout", self.z3_timeout)
        self.solver.set("random_seed", 1)
        self.labels = []
        self.pc = []
        self.facts = {}
        self.loop_policy = None
        self.cleanup = []
        self.state = {}
        self.while_policy = None
        self.unroll = None

    def _next(self, n, label):
        """Pick one of n alternatives, replaying the prefix."""
        if self.pos < len(self.prefix):
            i = self.prefix[self.pos]
        else:
            i = 0
        self.pos += 1
        self.trail.append([i, n])
        return i

    def choose(self, label, options):
        options = list(options)
        if not options:
            raise PathEnd()
        if len(options) == 1:
            return options[0]
        i = self._next(len(options), label)
        self.labels.append(f"{label}={_short(options[i])}")
        return options[i]

    def check(self, *extra):
        if self.deadline and time.time() > self.deadline:
            raise Budget()
        t0 = time.time()
        r = self.solver.check(*extra)
        self.solver_s += time.time() - t0
        self.z3_calls += 1
        return r

    def decide(self, t):
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        can_t = self.check(t)
        if can_t == z3.unsat:
            return False
        can_f = self.check(z3.Not(t))
        if can_f == z3.unsat:
            return True
        i = self._next(2, "branch")
        v = i == 0
        self.labels.append(f"[{'' if v else 'not '}{_short(t, 80)}]")
        self.solver.add(t if v else z3.Not(t))
        self.pc.append(t if v else z3.Not(t))
        return v

    def assume(self, c):
        if isinstance(c, bool):
            if not c:
                raise PathEnd()
            return
        self.solver.add(tb(c))
        self.pc.append(tb(c))
        if self.check() == z3.unsat:
            raise PathEnd()

    def concrete_int(self, s):
        if self.check() != z3.sat:
            raise PathEnd()
        v = self.solver.model().eval(s.t, model_completion=True)
        if self.check(s.t != v) == z3.unsat:
            return v.as_long()
        return None

    # -- fresh values
    def int(self, label, lo=None, hi=None):
        s = SymInt(self, z3.FreshInt(label))
        if lo is not None:
            self.solver.add(s.t >= lo)
        if hi is not None:
            self.solver.add(s.t <= hi)
        return s

    def bool(self, label):
        return SymBool(self, z3.FreshBool(label))

    def flag(self, label):
        """A boolean decided right away (both values explored)."""
        return self.choose(label, [True, False])

    def strname(self, label):
        return SymName(self, label)

    def fact(self, key, *objs):
        """Uninterpreted predicate, memoised on object identity."""
        k = (key, tuple(builtins.id(o) for o in objs))
        if k not in self.facts:
            self.facts[k] = (self.flag(f"{key}"), objs)
        return self.facts[k][0]

    # -- obligations
    def _rec(self, clause):
        return self.obl.setdefault(
            clause, {"proved": 0, "refuted": 0, "unknown": 0, "z3": 0})

    def prove(self, clause, cond, info=None):
        if self.inferring:
            return None
        r = self._rec(clause)
        if isinstance(cond, SymBool) or isinstance(cond, z3.BoolRef):
            t = z3.simplify(tb(cond))
            if not (z3.is_true(t) or z3.is_false(t)):
                r["z3"] += 1
                res = self.check(z3.Not(t))
                if res == z3.unsat:
                    r["proved"] += 1
                    return True
                if res == z3.unknown:
                    r["unknown"] += 1
                    self.undecided.append((clause, "solver: " + self.solver.reason_unknown(), list(self.labels)))
                    return None
                m = self.solver.model()
                r["refuted"] += 1
                self._fail(clause, info, m, str(t))
                return False
            cond = z3.is_true(t)
        if cond:
            r["proved"] += 1
            self.ground += 1
            return True
        if self.check() == z3.unsat:
            return True
        m = self.solver.model() if self.check() == z3.sat else None
        r["refuted"] += 1
        self._fail(clause, info, m, "false")
        return False

    def _fail(self, clause, info, model, text):
        if len(self.failures) < 200:
            self.failures.append({
                "clause": clause, "path": list(self.labels),
                "model": None if model is None else {str(d): str(model[d]) for d in model.decls()},
                "condition": text[:2000],
                "info": info() if callable(info) else info,
            })

    def cover(self, point):
        self.covers[point] = self.covers.get(point, 0) + 1

    def undecide(self, why):
        self.undecided.append(("-", why, list(self.labels)))

    # -- real code
    def call(self, fn, *a, **k):
        """Runs real code; returns ('ret', v) or ('err', amanda_error)."""
        from .values import amanda_error_class
        try:
            return Outcome("ret", fn(*a, **k))
        except (PathEnd, Unsupported, Budget, TimeLimit):
            raise
        except RecursionError:
            raise Unsupported("recursion limit")
        except BaseException as e:
            if isinstance(e, amanda_error_class(self.ns)):
                return Outcome("err", e)
            if isinstance(e, KeyboardInterrupt):
                raise
            last = traceback.extract_tb(e.__traceback__)[-1].filename
            if last.startswith(_VERIF) and not getattr(e, "pvc_modelled", False):
                # an error inside a contract or an abstract value is the
                # verifier's, not the code's
                raise Unsupported("abstract value: " + "".join(traceback.format_exception(e))[-700:])
            if isinstance(e, NameError) and any(f"'{n}'" in str(e) for n in self.lost):
                raise Unsupported(f"a value that a loop carries: {e}")
            if artefact(e) and not getattr(e, "pvc_modelled", False):
                raise Unsupported("abstract value: " + "".join(traceback.format_exception(e))[-700:])
            return Outcome("exc", e, traceback.format_exc(limit=-4))

    @staticmethod
    def modelled(exc):
        """An exception that a contract raises on behalf of the callee."""
        exc.pvc_modelled = True
        return exc

    def patch(self, obj, name, value):
        """Install a callee contract on the private copy for this path."""
        missing = object()
        old = obj.__dict__.get(name, missing)
        self.cleanup.append((obj, name, old, missing))
        if old is missing and not hasattr(obj, name):
            raise Unsupported(f"no such callee: {getattr(obj, '__name__', obj)}.{name}")
        setattr(obj, name, value)

    def undo(self):
        for obj, name, old, missing in reversed(self.cleanup):
            if old is missing:
                delattr(obj, name)
            else:
                setattr(obj, name, old)
        self.cleanup = []


class Outcome:
    def __init__(self, kind, value, tb=None):
        self.kind, self.value, self.tb = kind, value, tb

    @property
    def ok(self):
        return self.kind == "ret"

    @property
    def rejected(self):
        return self.kind == "err"

    @property
    def crashed(self):
        return self.kind == "exc"


def artefact(e):
    """An error that the code only meets because a value is abstract."""
    def ours(t):
        return any(getattr(c, "__module__", "").split(".")[0] in ("pvc", "contracts", "checks") for c in t.__mro__)
    if isinstance(e, AttributeError):
        return ours(type(e.obj))
    if isinstance(e, TypeError):
        words = set(re.findall(r"\w+", str(e)))
        todo, seen = [object], set()
        while todo:
            for c in type.__subclasses__(todo.pop()):
                if c not in seen:
                    seen.add(c)
                    todo.append(c)
        return any(c.__name__ in words and ours(c) for c in seen)
    return False


def _short(x, n=40):
    s = getattr(x, "label", None) or getattr(x, "__name__", None) or str(x)
    return str(s).replace("\n", " ")[:n]


CURRENT = [None]


def run_vc(vc, name, ns, hooks, max_paths=200000, deadline=None, persist=None, inferring=False):
    cx = Ctx(name, deadline)
    cx.inferring = inferring
    if persist is not None:
        cx.persist = persist
    cx.ns = ns
    cx.hooks = hooks
    t0 = time.time()
    complete = False
    timeouts = 0
    with ns.active():
        while True:
            cx.begin()
            hooks.cx = cx
            CURRENT[0] = cx
            try:
                limited(30, vc, cx)
            except PathEnd:
                pass
            except TimeLimit:
                cx.undecided.append(("-", "a path did not finish in 30 s", list(cx.labels)))
                timeouts += 1
                if timeouts > 2:
                    cx.undo()
                    break
            except Unsupported as e:
                tbk = traceback.extract_tb(e.__traceback__)
                where = [f"{f.filename}:{f.lineno}" for f in tbk if "/repo" in f.filename][-1:]
                cx.undecided.append(("-", f"unsupported: {e} {where}", list(cx.labels)))
            except Budget:
                cx.undecided.append(("-", "time budget", []))
                cx.undo()
                break
            except (KeyboardInterrupt, MemoryError):
                raise
            except BaseException as e:  # an error of the contract itself on this code
                cx.undecided.append(("-", "contract error: " + "".join(
                    traceback.format_exception(e))[-1500:], list(cx.labels)))
            finally:
                cx.undo()
            cx.paths += 1
            tr = cx.trail
            while tr and tr[-1][0] + 1 >= tr[-1][1]:
                tr.pop()
            if not tr:
                complete = True
                break
            cx.prefix = [i for i, _ in tr]
            cx.prefix[-1] += 1
            if cx.paths >= max_paths or len(cx.undecided) > 50 or (deadline and time.time() > deadline):
                cx.undecided.append(("-", f"path budget ({cx.paths})", []))
                break
    hooks.cx = None
    CURRENT[0] = None
    cx.complete = complete
    cx.wall = time.time() - t0
    return cx
