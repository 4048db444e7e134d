"""Contracts of the compiler of iguala into a decision tree
(amanda/compiler/check/exhaustiveness.py), for any number of arms, columns, cases.

What a list of rows means: the first row all of whose columns match.  The tree that
`_compile_rows` makes must mean the same (induction on the patterns that are left):

 * a row without patterns is taken, whatever follows;
 * otherwise the value of one variable is tested.  For an arbitrary constructor (the
   tracked one), the rows of its case are, in order, the rows that may match a value
   made by it: those that test the variable for this constructor, with their other
   columns and the patterns of its arguments, and copies of those that do not test it.
"""
from pvc.engine import PathEnd, Unsupported, mkb, ti
from pvc.hooks import UNBOUND
from pvc.seq import SymSeq, SeqSpec, View
from pvc.acc import AccSpec, Part, items, add, eq

EX = "amanda.compiler.check.exhaustiveness."
CO = EX + "IgualaCompiler."
STEPS = []


def step(name, functions, covers=("done",), props="C07", **kw):
    def deco(f):
        STEPS.append(dict(props=props.split(), name="decision tree: " + name, fn=f, covers=list(covers), functions=functions.split(), kw=kw))
        return f
    return deco


def vcs(prop):
    out = []
    for s in STEPS:
        if prop not in s["props"]:
            continue
        def fn(cx, s=s):
            s["fn"](MW(cx))
        out.append(dict(name=s["name"], fn=fn, covers=s["covers"], functions=s["functions"], **s["kw"]))
    return out


class Tok:
    """A tree that a list of rows is compiled to, by contract."""

    def __init__(self, rows):
        self.rows = rows

    def __repr__(self):
        return f"<tree of {self.rows}>"


class Grow(SeqSpec):
    """A loop over seq that adds to containers the contract knows.

    where() -> {name: container}; check(e, {name: added})."""

    def __init__(self, seq, view, key, names, where, check, end=None, begin=None):
        super().__init__(seq, view, key, names)
        self.where, self.check, self.end, self.begin = where, check, end, begin

    def entry(self, vals):
        pass

    def head(self, vals):
        return {n: UNBOUND for n in self.names}

    def fill(self, whole):
        for n, v in self.where().items():
            if items(v) is None:
                raise Unsupported(f"the loop in {self.key[0]} changes what it builds")
            add(v, Part(self.seq, whole))
            v[-1].name = n

    def see_head(self, loc):
        self.fill(False)
        self.old = {n: (v, items(v)) for n, v in self.where().items()}
        self.locs = self.locals_at(loc)
        if self.begin:
            self.begin()

    def locals_at(self, loc):
        known = {id(v) for v in self.where().values()}
        return {n: (id(v), tuple(map(id, v))) for n, v in loc.items()
                if type(v) in (list, set) and not n.startswith("__pvc") and n not in self.names and id(v) not in known}

    def see_back(self, loc):
        if self.locals_at(loc) != self.locs:
            raise Unsupported(f"the loop in {self.key[0]} carries state between iterations")
        added = {}
        now_ = self.where()
        for n, (v, old) in self.old.items():
            if now_.get(n) is not v:
                raise Unsupported(f"the loop in {self.key[0]} changes what it builds")
            now = items(v)
            if len(now) < len(old) or not all(eq(a, b) for a, b in zip(now, old)):
                raise Unsupported(f"the loop in {self.key[0]} changes what it has built")
            added[n] = now[len(old):]
        self.check(self.e, added)

    def back(self, vals):
        pass

    def see_exit(self, loc):
        self.fill(True)
        if self.end:
            self.end()

    def done(self, vals):
        return {n: UNBOUND for n in self.names}


def whole(xs, seq, name, before=()):
    return type(xs) is list and len(xs) == len(before) + 1 and all(a is b for a, b in zip(xs, before)) and \
        isinstance(xs[-1], Part) and xs[-1].whole and xs[-1].seq is seq and getattr(xs[-1], "name", None) == name


class MW:
    def __init__(self, cx):
        self.cx, ns = cx, cx.ns
        self.ex = ns["amanda.compiler.check.exhaustiveness"]
        self.ast, self.ty = ns["amanda.compiler.ast"], ns["amanda.compiler.types.core"]
        self.sym, self.base = ns["amanda.compiler.symbols.core"], ns["amanda.compiler.symbols.base"]
        self.B = ns["amanda.compiler.types.builtins"].Builtins
        self.tokens = ns["amanda.compiler.tokens"]
        self.module = ns["amanda.compiler.module"].Module("/m/este.ama")
        self.scope = self.sym.Scope()
        self.nv = 0

    def prove(self, clause, ok, info=None):
        self.cx.prove(clause, ok, info)

    def run(self, f, *a):
        out = self.cx.call(f, *a)
        if not out.ok:
            self.cx.prove("no crash", False, lambda: out.tb if out.crashed else repr(out.value))
            raise PathEnd()
        self.cx.cover("done")
        return out.value

    def compiler(self):
        return self.ex.IgualaCompiler(self.scope, self.module)

    def var(self, label, ty=None):
        self.nv += 1
        return self.sym.VariableSymbol(f"{label} {self.nv}", ty or self.B.Int, self.module)

    def tok(self, lexeme):
        return self.tokens.Token(self.tokens.TokenType.IDENTIFIER, lexeme, 50, 1)

    def pattern(self, kind):
        a = self.ast
        if kind == "name":
            return a.BindingPattern(self.variable("x"))
        if kind == "int":
            return a.IntPattern(self.tok("5"))
        if kind == "text":
            return a.StrPattern(self.tok("'5'"))
        p = a.ADTPattern(self.variable("A"), [])
        return p

    def variable(self, name):
        return self.ast.Variable(self.tok(name))

    def block(self):
        b = self.ast.YieldBlock.__new__(self.ast.YieldBlock)
        return b

    def uniao(self):
        return self.ty.Uniao("U", self.module, {})

    def frow(self, row):
        """What a row means, by identity."""
        return ([(id(c.variable), id(c.pattern)) if isinstance(c, self.ex.Column) else id(c) for c in row.columns],
                list(map(id_, row.body.bindings)), id(row.body.value), id(row.guard))


def id_(x):
    return (x[0], id(x[1])) if isinstance(x, tuple) else id(x)


# ------------------------------------------------------------------ one row
@step("names of a row", CO + "move_variable_patterns")
def names(W):
    kinds = ["name", "int", "text", "variant"]
    W.count = 0

    def make():
        k = W.cx.choose("pattern", kinds)
        c = W.ex.Column(W.var("v"), W.pattern(k))
        c.seq, c.kind = cols, k
        return c

    class Cols(SymSeq):
        def loop_spec(self, key, names_):
            def where():
                return {"names": row.body.bindings, "columns": row.columns}

            def check(e, added):
                b, c = added["names"], added["columns"]
                if e.kind == "name":
                    W.prove("a name is bound to what its column tests", len(b) == 1 and not c and b[0][0] == "x" and b[0][1] is e.variable)
                else:
                    W.prove("another pattern is kept in its column", not b and len(c) == 1 and
                            c[0].variable is e.variable and c[0].pattern is e.pattern)
            return Grow(self, lambda e: e, key, names_, where, check)
    cols = Cols(W.cx, "columns", make)
    before = [("y", W.var("w"))]
    row = W.ex.Row(cols, None, W.ex.Body(list(before), W.block()))
    block = row.body.value
    W.run(W.compiler().move_variable_patterns, row)
    W.prove("the names follow those bound before", whole(row.body.bindings, cols, "names", row.body.bindings[:1])
            and row.body.bindings[0] == before[0])
    W.prove("the other columns stay, in order", whole(row.columns, cols, "columns"))
    W.prove("the arm stays", row.body.value is block and row.guard is None)


@step("column of a row", EX + "Row.remove_column", covers=["done", "found", "none"], infer=1)
def remove(W):
    v = W.var("v")

    class Cols(SymSeq):
        removed = None

        def pop(self, i=None):
            if i is None or not isinstance(i, type(self.cx.int("i", 0))):
                raise Unsupported("pop")
            e = self.current
            if e is None or self.cx.check(ti(i) != ti(self.index(e))).r != -1:
                raise Unsupported("pop of another one")
            self.removed = e
            return e

    def make():
        c = W.ex.Column(v if W.cx.flag("tests the variable") else W.var("w"), W.pattern("int"))
        c.seq = cols
        return c
    cols = Cols(W.cx, "columns", make, facts={"of another variable": lambda e: e.variable is not v})
    row = W.ex.Row(cols, None, W.ex.Body([], W.block()))
    r = W.run(row.remove_column, v)
    W.cx.cover("none" if r is None else "found")
    if r is None:
        W.prove("none only if no column tests the variable", cols.removed is None and
                ("of another variable" in cols.est or W.cx.inferring or W.cx.check(cols.n.t != 0).r == -1))
    else:
        W.prove("the column that tests the variable is taken from the row", r is cols.removed and r.variable is v and row.columns is cols)


@step("copy of a row", EX + "Row.copy")
def copy(W):
    c, b = [W.ex.Column(W.var("v"), W.pattern("int")), W.ex.Column(W.var("v"), W.pattern("text"))], [("y", W.var("w"))]
    row = W.ex.Row(list(c), None, W.ex.Body(list(b), W.block()))
    r = W.run(row.copy)
    W.prove("a copy means the same", W.frow(r) == W.frow(row))
    W.prove("what is done to a copy is not done to the row", r is not row and r.columns is not row.columns and
            r.body is not row.body and r.body.bindings is not row.body.bindings)
    W.prove("the row stays", [id(x) for x in row.columns] == [id(x) for x in c] and row.body.bindings == b)


# --------------------------------------------------------------------- rows
class Rows(SymSeq):
    """An arbitrary list of rows."""

    def __init__(self, W, make, spec=None, first=None):
        def mk_():
            r = make()
            r.seq = self
            return r
        super().__init__(W.cx, "rows", mk_)
        self.W, self.spec, self.first, self.popped = W, spec, None, False

    def loop_spec(self, key, names_):
        if self.popped or self.spec is None:
            raise Unsupported("loop over rows")
        return self.spec(self, key, names_)

    def __getitem__(self, i):
        if i != 0 or self.popped:
            raise Unsupported("a row by position")
        if not bool(self):
            raise IndexError
        if self.first is None:
            self.first = self.fresh()
        return self.first

    def pop(self, i=-1):
        r = self[i]
        self.popped = True
        return r


@step("rows of the arms", CO + "_into_rows " + CO + "compile", infer=1)
def into_rows(W):
    a = W.ast

    def make():
        p = W.pattern(W.cx.choose("pattern", ["name", "int", "text", "variant"]))
        arm = a.IgualaArm.__new__(a.IgualaArm)
        arm.__dict__.update(pattern=p, body=W.block(), seq=arms, token=W.tok("="), parent=None, lineno=50)
        return arm

    def good(e, r):
        return isinstance(r, W.ex.Row) and len(r.columns) == 1 and r.columns[0].variable is binding and \
            r.columns[0].pattern is e.pattern and r.guard is None and r.body.bindings == [] and r.body.value is e.body

    class Arms(SymSeq):
        def loop_spec(self, key, names_):
            def check(e, added):
                W.prove("each arm is a row that tests the target", bool(added) and len(added) == 1 and good(e, added[0]))
            return AccSpec(self, lambda e: e, key, names_, check)
    arms = Arms(W.cx, "arms", make)
    binding = W.var("target")
    n = a.Iguala.__new__(a.Iguala)
    n.__dict__.update(arms=arms, target_binding=binding, token=W.tok("iguala"), parent=None, lineno=50)
    got = []

    def compile_rows(self, rows):
        got.append(rows)
        W.prove("nothing is found before the rows are looked at", self.diagnostics.missing is False and self.diagnostics.reachable == [])
        self.diagnostics.missing = missing
        return Tok(rows)
    W.cx.patch(W.ex.IgualaCompiler, "_compile_rows", compile_rows)
    missing = W.cx.flag("a case is missing")
    m = W.run(W.compiler().compile, n)
    rows = got[0] if got else None
    if isinstance(rows, View):
        ok = rows.seq is arms and rows.base() is arms
        W.prove("the rows are the arms, in order", ok)
        if ok:
            e = arms.fresh()
            W.prove("each arm is a row that tests the target", good(e, rows.view(e)))
    else:
        from pvc.acc import is_all
        W.prove("the rows are the arms, in order", type(rows) is list and is_all(rows, arms))
    W.prove("the tree is that of the rows", len(got) == 1 and isinstance(m.tree, Tok) and m.tree.rows is rows)
    W.prove("the scope and what was found are handed on", m.scope is W.scope and m.diagnostics.missing == missing)


@step("a list of rows", CO + "_compile_rows", covers=["done", "failure", "success", "switch"], infer=2)
def compile_rows(W):
    C = W.ex.IgualaCompiler
    tracked = {}

    def make():
        r = W.ex.Row([], None, W.ex.Body([], W.block()))
        r.moved = 0
        r.kept = W.cx.flag("a pattern is left")
        r.col = W.ex.Column(v, W.pattern("int"))
        return r

    def move(self, row):
        row.moved += 1
        row.columns = [row.col] if row.kept else []
        row.body.bindings.append(("x", v))
    W.cx.patch(C, "move_variable_patterns", move)

    class MRows(Rows):
        def __getitem__(self, i):
            r = super().__getitem__(i)
            if not r.moved and "moved once" in self.est:
                move(None, r)
            return r

    def spec(seq, key, names_):
        return SeqSpec(seq, lambda e: e, key, names_)
    v = W.var("v")
    rows = MRows(W, make, spec)
    rows.facts = {"moved once": lambda e: e.moved == 1}
    kind = W.cx.choose("the variable has type", ["int", "text", "union", "bool"])
    v.type = {"int": W.B.Int, "text": W.B.Texto, "union": None, "bool": None}[kind] or T(W, kind)

    def branch(self, rs):
        W.prove("the variable is chosen among the rows, once their names are moved", rs is rows and rows[0].moved == 1 and bool(rows[0].columns))
        return v
    W.cx.patch(C, "branch_variable", branch)
    calls = []

    def constructor(self, rs, var, cases):
        calls.append(("finite", rs, var, cases))
        return "cases"

    def infinite(self, rs, var):
        calls.append(("infinite", rs, var))
        return "cases", "fallback"
    W.cx.patch(C, "compile_constructor_cases", constructor)
    W.cx.patch(C, "compile_infinite_cases", infinite)

    def new_variables(self, types):
        return ("variables", types)
    W.cx.patch(C, "new_variables", new_variables)
    comp = W.compiler()
    known = W.block()
    comp.diagnostics.reachable.append(known)
    was = comp.diagnostics.missing = W.cx.flag("a case was missing before")
    real, guarded = C._compile_rows, []

    def again(self, rs):
        if rs is rows and not calls and not guarded:
            guarded.append(1)
            return real(self, rs)
        raise Unsupported("rows compiled again")
    W.cx.patch(C, "_compile_rows", again)
    t = W.run(comp._compile_rows, rows)
    if type(t) is W.ex.DFailure:
        W.cx.cover("failure")
        W.prove("there is no tree only without rows", not bool(rows))
        W.prove("a missing case is reported", comp.diagnostics.missing is True)
        W.prove("no arm is reached", comp.diagnostics.reachable == [known])
        return
    W.prove("no missing case is reported", comp.diagnostics.missing == was)
    W.prove("without rows there is no tree", bool(rows))
    f = rows.first
    W.prove("names are moved from every row first", "moved once" in rows.est and f.moved == 1)
    if type(t) is W.ex.DSuccess:
        W.cx.cover("success")
        W.prove("an arm is taken only by a row without patterns", not f.kept)
        W.prove("the arm taken is that of the first row, with its names", t.body is f.body or
                (t.body.value is f.body.value and t.body.bindings == f.body.bindings))
        W.prove("the arm is reached", len(comp.diagnostics.reachable) == 2 and comp.diagnostics.reachable[0] is known
                and comp.diagnostics.reachable[1] is f.body.value)
        return
    W.cx.cover("switch")
    W.prove("a value is tested only while the first row has patterns", type(t) is W.ex.DSwitch and f.kept)
    W.prove("the variable chosen is tested", t.variable is v and len(calls) == 1 and calls[0][1] is rows and calls[0][2] is v and not rows.popped)
    W.prove("no arm is reached yet", comp.diagnostics.reachable == [known])
    W.prove("the cases are those of the rows", t.cases == "cases")
    if kind in ("int", "text"):
        W.prove("values without end: cases and a fallback", calls[0][0] == "infinite" and t.fallback == "fallback")
        return
    W.prove("finite values: one case for each constructor, no fallback", calls[0][0] == "finite" and t.fallback is None)
    cs = calls[0][3] if len(calls[0]) > 3 else None
    if not isinstance(cs, View) or cs.seq is not v.type.cons:
        raise Unsupported("the cases are built in another way")
    e = cs.seq.fresh()
    c1, c2 = cs.view(e), cs.view(e)
    W.prove("a case has its constructor, variables for its arguments and no rows yet",
            len(c1) == 3 and c1[0] is e and c1[1] == ("variables", e.types) and type(c1[2]) is list and not c1[2])
    W.prove("cases share no rows", c1[2] is not c2[2])


def T(W, kind):
    """A type with finitely many constructors, of unknown number."""
    t = W.uniao() if kind == "union" else W.ty.Primitive(W.module, W.ty.Types.TBOOL, True)

    class Con:
        def __init__(self):
            self.types = [object()]

        def args(self):
            return self.types

    def make():
        c = Con()
        c.seq = t.cons
        return c
    t.cons = SymSeq(W.cx, "constructors", make)
    t.get_constructors = lambda: t.cons
    t.has_finite_constructors = lambda: True
    return t


# --------------------------------------------------------------------- cases
def row_of(W, v, pattern):
    """A row by contract: what it tests besides v is unknown (one column stands for it)."""
    rest = W.ex.Column(W.var("other"), W.pattern("int"))
    r = W.ex.Row([rest], None, W.ex.Body([("y", W.var("w"))], W.block()))
    r.rest, r.pattern, r.copies, r.taken = rest, pattern, [], 0
    r.first = (W.frow(r), r.columns, r.body, r.body.bindings)
    return r


def row_contracts(W, v):
    Row = W.ex.Row

    def remove_column(self, var):
        if not hasattr(self, "pattern"):
            raise Unsupported("a column of another row")
        W.prove("rows are asked for the variable that is tested", var is v)
        if self.pattern is None or self.taken:
            return None
        self.taken += 1
        return W.ex.Column(v, self.pattern)
    W.cx.patch(Row, "remove_column", remove_column)
    real = Row.copy

    def copy_(self):
        c = real(self)
        if hasattr(self, "copies"):
            self.copies.append(c)
        c.copy_of = self
        return c
    W.cx.patch(Row, "copy", copy_)


def means(W, got, r, extra=()):
    """The row `got` tests what r tests besides v, then extra, and takes the same arm."""
    cols = [(id(c.variable), id(c.pattern)) for c in got.columns]
    want = [(id(r.rest.variable), id(r.rest.pattern))]
    ex = [(id(a), id(b)) for a, b in extra]
    return cols == want + ex and got.body.bindings == r.body.bindings and got.body.value is r.body.value and got.guard is r.guard


def apart(a, b):
    return a is not b and a.columns is not b.columns and a.body is not b.body and a.body.bindings is not b.body.bindings


@step("constructors", CO + "compile_constructor_cases", covers=["done", "mine", "of another", "any"], infer=1)
def constructors(W):
    """A tracked constructor among any number of others."""
    C = W.ex.IgualaCompiler
    v = W.var("v", W.uniao())
    row_contracts(W, v)
    u = v.type
    nargs = W.cx.choose("arguments", [0, 1, 2, 3])
    types = [object() for _ in range(nargs)]
    mine = (W.ty.VariantCons(3, u, "U::A", types), [W.var("arg") for _ in range(nargs)], [])
    index = W.cx.int("place of the constructor", 0)
    mine[0].tag = index
    mine[0].index = lambda: index

    class Other:
        """The rows of another constructor."""

        def __init__(self):
            self.rows = []

        def append(self, r):
            self.rows.append(r)

    def other():
        return (W.ty.VariantCons(4, u, "U::B", []), [], Other())

    class Cases(SymSeq):
        def __init__(self):
            super().__init__(W.cx, "cases", self.one)
            self.given = []

        def one(self):
            c = mine if W.cx.flag("the case is that of the constructor") else other()
            c = Triple(c)
            c.seq = self
            return c

        def __getitem__(self, i):
            if not bool(i == index):
                o = other()
                self.given.append(o)
                return o
            self.given.append(mine)
            return mine

        def loop_spec(self, key, names_):
            # the loop that hands a row to every case
            def check(e, added):
                r = rows.current
                new = mine[2][self.n_mine:] if e[2] is mine[2] else e[2].rows
                W.prove("every case gets a row that does not test the value", len(new) == 1 and means(W, new[0], r))
                if len(new) == 1:
                    W.prove("cases share no rows", apart(new[0], r))

            def begin():
                self.n_mine = len(mine[2])

            class Spec(SeqSpec):
                def entry(s, vals):
                    if rows.current is None:
                        raise Unsupported("a loop over the cases outside the one over the rows")

                def head(s, vals):
                    begin()
                    return {n: UNBOUND for n in s.names}

                def see_head(s, loc):
                    pass

                def see_back(s, loc):
                    check(s.e, None)

                def back(s, vals):
                    pass

                def done(s, vals):
                    r = rows.current
                    mine[2].append(Given(r))
                    return {n: UNBOUND for n in s.names}
            return Spec(self, lambda e: e, key, names_)

    class Triple(tuple):
        pass

    class Given:
        def __init__(self, r):
            self.r = r
    cases = Cases()

    def make():
        k = W.cx.choose("the row tests", ["the constructor", "another one", "nothing"])
        p = None
        if k != "nothing":
            p = W.pattern("variant")
            p.args = [W.pattern("int") for _ in range(nargs if k == "the constructor" else 1)]
            p.cons = mine[0] if k == "the constructor" else W.ty.VariantCons(0, u, "U::B", [object()])
            if k == "another one":
                j = W.cx.int("place of another", 0)
                W.cx.assume(mkb(W.cx, j.t != index.t))
                p.cons.tag = j
                p.cons.index = lambda: j
        r = row_of(W, v, p)
        r.kind = k
        return r

    def spec(seq, key, names_):
        def where():
            return {"rows": mine[2]}

        def check(e, added):
            new = added["rows"]
            if e.kind == "nothing":
                W.cx.cover("any")
                W.prove("a row that does not test the value is in every case", len(new) == 1 and isinstance(new[0], Given) and new[0].r is e)
            elif e.kind == "another one":
                W.cx.cover("of another")
                W.prove("a row for another constructor is not in the case", not new)
            else:
                W.cx.cover("mine")
                W.prove("a row for the constructor is in its case once, with the patterns of its arguments",
                        len(new) == 1 and isinstance(new[0], W.ex.Row) and means(W, new[0], e, list(zip(mine[1], e.pattern.args))))
                W.prove("a row for a constructor is in no other case", all(c is mine for c in cases.given))
            W.prove("the column that is tested is removed", e.kind == "nothing" or e.taken == 1)

        def begin():
            del cases.given[:]
        return Grow(seq, lambda e: e, key, names_, where, check, begin=begin)
    rows = Rows(W, make, spec)
    W.cx.patch(C, "_compile_rows", lambda self, rs: Tok(rs))
    out = W.run(W.compiler().compile_constructor_cases, rows, v, cases)
    W.prove("the rows of the case are all those that may match it, in order", whole(mine[2], rows, "rows"))
    if not isinstance(out, View) or out.seq is not cases:
        raise Unsupported("the cases are built in another way")
    e = Triple(mine)
    c = out.view(e)
    W.prove("the case has its constructor, variables and the tree of its rows", isinstance(c, W.ex.Case) and c.constructor is mine[0]
            and c.arguments is mine[1] and isinstance(c.body, Tok) and c.body.rows is mine[2])


@step("values without end", CO + "compile_infinite_cases", covers=["done", "new", "again", "of another", "any"], infer=1)
def infinite(W):
    """A tracked value K among any others (O stands for one that is tested already, N
    for one that is not)."""
    C = W.ex.IgualaCompiler
    text = W.cx.flag("texts")
    v = W.var("v", W.B.Texto if text else W.B.Int)
    row_contracts(W, v)
    # told apart only by all of their characters or digits
    k, o, n = W.cx.choose("values", [("k", "o", "n"), ("a", " a", "a "), ("é", "e", "É"), ("1", "01", ""), ("xx", "x", "xxx")] if text else
                          [("5", "7", "9"), ("0", "4294967296", "9223372036854775807"), ("9007199254740993", "9007199254740992", "1")])
    lex = {"K": [f"'{k}'", f'"{k}"'] if text else [k], "O": [f"'{o}'"] if text else [o], "N": [f"'{n}'"] if text else [n]}

    def pat(x, i=0):
        return W.ast.StrPattern(W.tok(lex[x][i])) if text else W.ast.IntPattern(W.tok(lex[x][i]))

    def key(x):
        return lex[x][0][1:-1] if text else int(lex[x][0])

    def of(cons):
        return cons.val[1:-1] if text else cons.val

    def make():
        k = W.cx.choose("the row tests", ["K", "O", "N", "nothing"])
        if k == "O" and not state["O"]:
            raise PathEnd()
        p = None if k == "nothing" else pat(k, W.cx.choose("written", [0, 1]) if text and k == "K" else 0)
        r = row_of(W, v, p)
        r.kind = k
        return r
    state = {"O": False}
    real_loc = {}

    def entry(cases, x):
        for c in cases:
            if isinstance(c, tuple) and len(c) == 3 and c[0] is not None and of(c[0]) == key(x):
                return c
        return None

    class Spec(SeqSpec):
        """State at the head: O and K may have been tested, in either order.  The rows so
        far that do not test the value are in `fallback`; those that may match K are in
        its case, or, while K has none, are the ones in `fallback`."""

        def entry(s, vals):
            pass

        def head(s, vals):
            return {n: UNBOUND for n in s.names}

        def locs(s, loc):
            ls = {n: x for n, x in loc.items() if type(x) in (list, dict) and not n.startswith("__pvc") and n not in s.names}
            need = {"cases": [n for n in ls if n == "raw_cases"], "fallback": [n for n in ls if n == "fallback_rows"],
                    "tested": [n for n in ls if n == "tested"]}
            if any(len(x) != 1 for x in need.values()) or len(ls) != 3:
                raise Unsupported("the rows are kept in another way")
            return tuple(ls[need[n][0]] for n in ("cases", "fallback", "tested"))

        def see_head(s, loc):
            cases, fb, tested = s.locs(loc)
            if cases or fb or tested:
                raise Unsupported("the loop does not start empty")
            order = W.cx.choose("tested so far", ["", "K", "O", "KO", "OK"])
            state["O"] = "O" in order
            # the keys are made by the code itself
            for x in order:
                seed = row_of(W, v, pat(x))
                seed.kind = x
                s.seed.append((x, seed))
            s.pf, s.pk, s.po = Part(rows, False), Part(rows, False), Part(rows, False)
            for x in order:
                kx = (key(x), key(x)) if not text else key(x)
                cons = W.ty.StrCons(lex[x][0]) if text else W.ty.IntCons(key(x))
                tested[kx] = len(cases)
                cases.append((cons, [], [s.pk if x == "K" else s.po]))
            fb.append(s.pf)
            s.hask = "K" in order
            s.old = (list(cases), list(fb), dict(tested))
            real_loc.update(cases=cases, fb=fb, tested=tested)

        seed = []

        def rows_of(s, xs):
            """The rows of a list: the parts, then new ones."""
            return [x for x in xs if isinstance(x, Part)], [x for x in xs if not isinstance(x, Part)]

        def see_back(s, loc):
            cases, fb, tested = s.locs(loc)
            e = s.e
            K = entry(cases, "K")
            n = len(s.old[0])
            W.prove("cases keep their places", len(cases) >= n and all(a is b for a, b in zip(cases, s.old[0])))
            # fallback
            if e.kind == "nothing":
                W.cx.cover("any")
                W.prove("a row that does not test the value is in the fallback", len(fb) == 2 and fb[0] is s.pf and fb[1] is e and
                        means(W, e, e))
                for c in cases:
                    new = c[2][1:]
                    W.prove("a row that does not test the value is in every case", len(new) == 1 and means(W, new[0], e))
                    W.prove("cases share no rows", len(new) != 1 or (apart(new[0], e) and all(new[0] is not x for d in cases if d is not c for x in d[2])))
                W.prove("no case is made for it", len(cases) == n)
                return
            W.prove("a row that tests the value is not in the fallback", len(fb) == 1 and fb[0] is s.pf)
            for x in ("K", "O"):
                c = entry(cases, x)
                if c is None or e.kind == x:
                    continue
                W.prove("a row for another value is not in the case", len(c[2]) == 1 and c[2][0] in (s.pk, s.po))
            c = entry(cases, e.kind)
            W.prove("there is one case for each value", c is not None and sum(1 for d in cases if of(d[0]) == of(c[0])) == 1)
            if c is None:
                return
            W.prove("the value is looked for where its case is", any(cases[i] is c for k_, i in tested.items()) and len(tested) == len(cases)
                    and all(0 <= i < len(cases) for i in tested.values()) and len(set(tested.values())) == len(cases))
            if any(c is d for d in s.old[0]):
                W.cx.cover("again")
                W.prove("a row for a value that has a case comes last in it", len(c[2]) == 2 and c[2][0] in (s.pk, s.po) and c[2][1] is e or
                        len(c[2]) == 2 and c[2][0] in (s.pk, s.po) and means(W, c[2][1], e))
            else:
                W.cx.cover("new")
                if e.kind != "K":
                    W.cx.cover("of another")
                W.prove("a new case starts with the rows that do not test the value, in order", len(c[2]) == 2 and isinstance(c[2][0], CopyOf)
                        and c[2][0].part is s.pf)
                W.prove("the row that asks for a case comes next in it", len(c[2]) == 2 and isinstance(c[2][1], W.ex.Row) and means(W, c[2][1], e))
                W.prove("the case tests the value written", of(c[0]) == (key(e.kind)) and c[1] == [])

        def back(s, vals):
            pass

        def see_exit(s, loc):
            cases, fb, tested = s.locs(loc)
            if W.cx.flag("K was tested"):
                cons = W.ty.StrCons(lex["K"][0]) if text else W.ty.IntCons(key("K"))
                state["K"] = (cons, [], [Part(rows, True)])
                cases.append(state["K"])
            fb.append(Part(rows, True))
            state["fb"] = fb

        def done(s, vals):
            return {n: UNBOUND for n in s.names}

    class CopyOf:
        def __init__(self, part):
            self.part = part
    # a part that is copied row by row is the copy of the part
    def part_copy(self, *a):
        if isinstance(self, Part):
            return CopyOf(self)
        return copied(self, *a)
    copied = W.ex.Row.copy
    W.cx.patch(W.ex.Row, "copy", part_copy)
    rows = Rows(W, make, lambda seq, key_, names_: Spec(seq, lambda e: e, key_, names_))
    trees = []

    def compile_rows(self, rs):
        trees.append(rs)
        return Tok(rs)
    W.cx.patch(C, "_compile_rows", compile_rows)
    out = W.run(W.compiler().compile_infinite_cases, rows, v)
    W.prove("cases and a fallback", type(out) is tuple and len(out) == 2 and type(out[0]) is list)
    cases, fb = out
    W.prove("the fallback is the tree of the rows that do not test the value", isinstance(fb, Tok) and fb.rows is state["fb"])
    k = state.get("K")
    W.prove("a case for each value", len(cases) == (1 if k else 0))
    if k and len(cases) == 1:
        c = cases[0]
        W.prove("the case has its value and the tree of its rows", isinstance(c, W.ex.Case) and c.constructor is k[0] and c.arguments == []
                and isinstance(c.body, Tok) and c.body.rows is k[2])


# ------------------------------------------------------------ small functions
@step("the variable to test", CO + "branch_variable")
def branch(W):
    k = W.cx.choose("rows", [1, 2, 3])
    vs = [W.var("v") for _ in range(3)]
    rows = []
    for i in range(k):
        sel = W.cx.choose(f"columns of row {i}", [[0], [1], [0, 1], [1, 0], [0, 1, 2], [2, 1]] + ([[]] if i else []))
        rows.append(W.ex.Row([W.ex.Column(vs[j], W.pattern("int")) for j in sel], None, W.ex.Body([], W.block())))
    r = W.run(W.compiler().branch_variable, rows)
    W.prove("the variable that is tested is one of the first row", any(c.variable is r for c in rows[0].columns))
    W.cx.bounded.add("up to 3 rows of up to 3 columns")


@step("new variables", CO + "new_variables " + CO + "new_variable", props="C07 C10", infer=1)
def variables(W):
    made = {}

    def new_unique_var(self, ty, mod):
        W.prove("new variables: in the scope of the iguala", self is W.scope and mod is W.module)
        made[id(ty)] = W.var("new", W.B.Int)
        made[id(ty)].ty = ty
        return made[id(ty)]
    W.cx.patch(W.sym.Scope, "new_unique_var", new_unique_var)

    class Ty:
        pass

    def make():
        t = Ty()
        t.seq = types
        return t

    class Types(SymSeq):
        def loop_spec(self, key, names_):
            def check(e, added):
                W.prove("new variables: one of each type, in order", bool(added) and len(added) == 1 and added[0].ty is e)
            return AccSpec(self, lambda e: e, key, names_, check)
    types = Types(W.cx, "types", make)
    r = W.run(W.compiler().new_variables, types)
    if isinstance(r, View):
        W.prove("new variables: one of each type, in order", r.seq is types)
        e = types.fresh()
        W.prove("new variables: one of each type, in order", r.view(e).ty is e)
    else:
        from pvc.acc import is_all
        W.prove("new variables: one of each type, in order", type(r) is list and is_all(r, types))


@step("constructors of a union", "amanda.compiler.types.core.Uniao.get_constructors amanda.compiler.types.core.Uniao.has_finite_constructors "
      "amanda.compiler.types.core.VariantCons.index amanda.compiler.types.core.VariantCons.args", infer=1)
def union_constructors(W):
    u = W.uniao()

    def make():
        x = W.ty.Variant(0, u, "A", [object()])
        x.tag, x.seq = W.cx.int("tag", 0), vs
        return x

    def good(c, e):
        return isinstance(c, W.ty.VariantCons) and bool(c.tag == e.tag) and bool(c.index() == e.tag) and c.uniao is u and c.args() is e.params and c.name == "U::A"

    class Variants(SymSeq):
        def loop_spec(self, key, names_):
            def check(e, added):
                W.prove("union: a constructor for each variant, in order", bool(added) and len(added) == 1 and good(added[0], e))
            return AccSpec(self, lambda e: e, key, names_, check)
    vs = Variants(W.cx, "variants", make)
    u.variants = vs
    W.prove("union: has finitely many constructors", W.run(u.has_finite_constructors) is True)
    r = W.run(u.get_constructors)
    if isinstance(r, View):
        W.prove("union: a constructor for each variant, in order", r.seq is vs)
        e = vs.fresh()
        W.prove("union: the constructor is the variant", good(r.view(e), e))
    else:
        from pvc.acc import is_all
        W.prove("union: a constructor for each variant, in order", type(r) is list and is_all(r, vs))


@step("places of variants", "amanda.compiler.types.core.Uniao.add_variant")
def add_variant(W):
    u = W.uniao()
    n = W.cx.int("variants", 0)

    class D(dict):
        def sym_len(self):
            return n + len(self) if len(self) else n
    u.variants = D()
    ps = [object()]
    W.run(u.add_variant, "A", ps)
    x = dict.get(u.variants, "A")
    W.prove("variant: its tag is its place", x is not None and not W.cx.inferring and W.cx.check(ti(x.tag) != ti(n)).r == -1)
    W.prove("variant: as declared", x is not None and x.name == "A" and x.params is ps and x.uniao is u and len(u.variants) == 1)


@step("names of missing patterns", EX + "Match.add_missing_patterns", covers=["done"], infer=1)
def missing(W):
    """A missing pattern is what was tested on the way to it."""
    M = W.ex.Match
    real = M.add_missing_patterns
    m = M(W.scope, None, None)
    start = W.ex.Term(W.var("v"), "U::X", [])
    terms = [start]
    found = set()
    calls = []

    def sub(self, node, terms_, missing_):
        if isinstance(node, Tok):
            calls.append((node, list(terms_), missing_ is found))
            return None
        return real(self, node, terms_, missing_)
    W.cx.patch(M, "add_missing_patterns", sub)
    kind = W.cx.choose("tree", ["success", "failure", "switch"])
    v = W.var("v")
    if kind == "success":
        node = W.ex.DSuccess(W.ex.Body([], W.block()))
    elif kind == "failure":
        # tested on the way: nothing, a variant alone, or a variant and then one of its parts
        path = W.cx.choose("tested", ["nothing", "one", "part", "two parts", "second part"])
        x, y = W.var("x"), W.var("y")
        if path == "nothing":
            del terms[:]
            want = {"_"}
        elif path == "one":
            want = {"U::X"}
        else:
            start.arguments = [x, y]
            tx, ty_ = W.ex.Term(x, "U::P", []), W.ex.Term(y, "U::Q", [])
            if path != "second part":
                terms.append(tx)
            if path == "second part":
                terms.append(ty_)
            if path == "two parts":
                terms.insert(W.cx.choose("in order", [1, 2]), ty_)
            want = {{"part": "U::X(U::P, _)", "two parts": "U::X(U::P, U::Q)", "second part": "U::X(_, U::Q)"}[path]}
        before = list(terms)
        node = W.ex.DFailure()
    else:
        def make():
            k = W.cx.choose("constructor", ["int", "text", "variant"])
            args = []
            if k == "variant":
                args = [W.var("a")]
            cons = {"int": lambda: W.ty.IntCons(5), "text": lambda: W.ty.StrCons("'t'"),
                    "variant": lambda: W.ty.VariantCons(0, W.uniao(), "U::A", [object()])}[k]()
            c = W.ex.Case(cons, args, Tok("case"))
            c.seq, c.kind = cases, k
            del calls[:]
            return c

        class Cases(SymSeq):
            def loop_spec(self, key, names_):
                class S(SeqSpec):
                    def entry(s, vals):
                        pass

                    def see_head(s, loc):
                        pass

                    def see_back(s, loc):
                        e = s.e
                        name = {"int": "5", "text": "'t'", "variant": "U::A"}[e.kind]
                        ok = len(calls) == 1 and calls[0][0] is e.body and calls[0][2]
                        W.prove("missing: what each case misses is named", ok)
                        t = calls[0][1] if ok else []
                        W.prove("missing: below the constructor of the case", len(t) == 2 and t[0] is start and t[1].name == name and
                                t[1].variable is v and list(t[1].arguments) == list(e.arguments))
                        W.prove("missing: a case leaves nothing behind", len(terms) == 1 and terms[0] is start)

                    def back(s, vals):
                        pass

                    def done(s, vals):
                        del calls[:]
                        return {n: UNBOUND for n in s.names}
                return S(self, lambda e: e, key, names_)
        cases = Cases(W.cx, "cases", make)
        fb = Tok("fallback") if W.cx.flag("fallback") else None
        node = W.ex.DSwitch(v, cases, fb)
    W.run(m.add_missing_patterns, node, terms, found)
    if kind == "success":
        W.prove("missing: nothing where an arm is taken", not found)
    elif kind == "failure":
        W.prove("missing: what was tested first, with what was tested in it", found == want, lambda: found)
        W.prove("missing: the path is left as it was", len(terms) == len(before) and all(a is b for a, b in zip(terms, before)))
    else:
        W.prove("missing: what the fallback misses is named", [c[0] for c in calls] == ([fb] if fb else []) and all(len(c[1]) == 1 and c[2] for c in calls))


@step("name of a missing pattern", EX + "Term.pattern_name", infer=1)
def pattern_name(W):
    k = W.cx.choose("arguments", [0, 1, 2, 3])
    vs = [W.var("a") for _ in range(k)]
    sub = [W.cx.choose(f"argument {i} was", ["tested", "not tested"]) for i in range(k)]
    t = W.ex.Term(W.var("v"), "U::A", vs)
    terms = [t] + [W.ex.Term(x, f"n{i}", []) for i, x in enumerate(vs) if sub[i] == "tested"]
    if W.cx.flag("in another order"):
        terms = [t] + terms[:0:-1]
    mapping = {id(x.variable): i for i, x in enumerate(terms)}
    r = W.run(t.pattern_name, terms, mapping)
    want = "U::A" + ("(" + ", ".join(f"n{i}" if s == "tested" else "_" for i, s in enumerate(sub)) + ")" if k else "")
    W.prove("missing: named as it is written", r == want, lambda: r)
    W.cx.bounded.add("up to 3 arguments")


@step("all missing patterns", EX + "Match.missing_patterns")
def all_missing(W):
    M = W.ex.Match
    tree = Tok("tree")
    names = W.cx.choose("missing", [(), ("A",), ("A", "B")])

    def add(self, node, terms, found):
        W.prove("missing: the whole tree is looked at", node is tree and list(terms) == [] and len(found) == 0)
        for n in names:
            found.add(n)
    W.cx.patch(M, "add_missing_patterns", add)
    r = W.run(M(scope=W.scope, tree=tree, diagnostics=None).missing_patterns)
    W.prove("missing: every one, once", sorted(r) == sorted(names))
