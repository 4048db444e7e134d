"""Abstract inputs of the code generator and the machine that reads its output.

The generator starts in an arbitrary state (tables of unknown size, any offset, any
scope).  A child is generated by contract: it appends code of unknown size that
evaluates the child, and may add entries to the tables.  What a construct emits is
then executed by an abstract machine; what it does must be what the specification of
the construct does, on every branch.
"""
import z3
from pvc.engine import PathEnd, Unsupported, SymInt, mk, mkb, ti
from pvc.seq import SymSeq, SeqSpec, View
from pvc.hooks import UNBOUND, AnyNode
from .world import no_value, stub_tok


class AbsTable:
    """A table name -> index of unknown size: a bijection onto 0..n-1."""

    def __init__(self, W, label, known=None):
        self.W, self.cx, self.label = W, W.cx, label
        self.n = self.cx.int("len(" + label + ")", 0) if known is None else len(known)
        self.known, self.absent = [], []
        self.added = []
        self.initial = dict(known or {})
        if known is not None:
            self.known = list(known.items())

    def sym_len(self):
        return self.n

    def same(self, a, b):
        if a is b:
            return True
        if isinstance(a, SymInt) or isinstance(b, SymInt):
            if isinstance(a, (int, SymInt)) and isinstance(b, (int, SymInt)):
                return bool(a == b)
            return False
        return type(a) is type(b) and a == b

    def find(self, k):
        for q, i in self.known:
            if self.same(q, k):
                return i
        return None

    def __contains__(self, k):
        if self.find(k) is not None:
            return True
        if any(self.same(q, k) for q in self.absent):
            return False
        if self.cx.flag(f"{self.label} has {getattr(k, 't', k)}"):
            i = self.cx.int("index", 0)
            self.cx.assume(mkb(self.cx, i.t < ti(self.n)))
            for _, j in self.known:
                self.cx.assume(mkb(self.cx, i.t != ti(j)))
            self.known.append((k, i))
            return True
        self.absent.append(k)
        return False

    def __getitem__(self, k):
        if k not in self:
            raise KeyError(k)
        return self.find(k)

    def get(self, k, d=None):
        return self.find(k) if k in self else d

    def __setitem__(self, k, v):
        W = self.W
        new = k not in self
        W.prove("*", f"{self.label}: an entry is never moved", new or W.valid(self.find(k), v))
        if new:
            W.prove("*", f"{self.label}: a new entry gets the next free index", W.valid(v, self.n))
            self.absent = [q for q in self.absent if not self.same(q, k)]
            self.known.append((k, v))
            self.added.append(k)
            self.n = self.n + 1

    def setdefault(self, k, v=None):
        if k not in self:
            self[k] = v
        return self.find(k)

    def grow(self):
        """A child may have added entries."""
        m = self.cx.int("len(" + self.label + ")", 0)
        self.cx.assume(mkb(self.cx, m.t >= ti(self.n)))
        self.n = m
        self.absent = []

    def key_of(self, i):
        for k, j in self.known:
            if self.W.valid(i, j):
                return k
        return None

    def state(self):
        return (len(self.known), str(self.n))

    def keys(self):
        return Keys(self)

    def __iter__(self):
        raise Unsupported("iteration over " + self.label)

    def __len__(self):
        raise Unsupported("len")


class Keys:
    """The keys of a table, in the order of their indices."""

    def __init__(self, tab):
        self.tab = tab
    is_sym_seq = True

    def sym_list(self):
        return self

    def acc_items(self):
        return None


class PSpec(SeqSpec):
    """Parameters get consecutive places, from the first free one on."""

    def table(self):
        g = self.seq.W.g
        if type(g.func_locals) is dict:
            g.func_locals = AbsTable(self.seq.W, "locals of the function", g.func_locals)
        return g.func_locals

    def entry(self, vals):
        t = self.table()
        if not isinstance(t, AbsTable) or len(t.known) != len(t.initial):
            raise Unsupported("the places of parameters")
        self.t, self.base = t, t.n

    def head(self, vals):
        self.i = self.cx.int("place of the parameter", 0)
        self.t.n = self.base + self.i
        return {n: UNBOUND for n in self.names}

    def element(self):
        self.e = self.seq.fresh()
        self.t.absent.append(self.e.out_id)     # parameters have different names
        return self.e

    def see_head(self, loc): ...
    def see_back(self, loc): ...

    def back(self, vals):
        W, t = self.seq.W, self.t
        W.prove("C10", "every parameter has the next place", W.g.func_locals is t and t.find(self.e.out_id) is not None and
                W.valid(t.find(self.e.out_id), self.base + self.i) and W.valid(t.n, self.base + self.i + 1), lambda: repr(t.known))

    def done(self, vals):
        self.t.n = self.base + self.seq.n
        self.t.absent = []
        self.seq.placed, self.seq.base = self.t, dict(self.t.initial)
        return {n: UNBOUND for n in self.names}


class Labels:
    """label -> offset.  The number of labels only ever grows; children may make some."""

    def __init__(self, W):
        self.W, self.n, self.at, self.writes = W, 1000, {}, {}

    def sym_len(self):
        return self.n

    def __setitem__(self, k, v):
        self.at[k] = v
        self.writes[k] = self.writes.get(k, 0) + 1
        if k >= self.n:
            self.n = k + 1

    def __getitem__(self, k):
        if k not in self.at and k < 1000:
            self.at[k] = self.W.cx.int("offset of an outer label", 0)
        return self.at[k]

    def __contains__(self, k):
        return k in self.at or k < 1000

    def gap(self):
        self.n += 100


class Ins:
    def __init__(self, kind, ip, line, **kw):
        self.kind, self.ip, self.line = kind, ip, line
        self.__dict__.update(kw)

    def __repr__(self):
        return f"{self.kind} {getattr(self, 'op', None) and self.op.name} {getattr(self, 'args', '')} {getattr(self, 'node', '')}"


class GW:
    def __init__(self, cx, prop):
        self.cx, self.prop = cx, prop
        ns = self.ns = cx.ns
        self.ast = ns["amanda.compiler.ast"]
        self.cg = ns["amanda.compiler.codegen"]
        self.sym = ns["amanda.compiler.symbols.core"]
        self.base = ns["amanda.compiler.symbols.base"]
        self.ty = ns["amanda.compiler.types.core"]
        self.bi = ns["amanda.compiler.types.builtins"]
        self.B = self.bi.Builtins
        self.ex = ns["amanda.compiler.check.exhaustiveness"]
        self.tok_mod = ns["amanda.compiler.tokens"]
        self.TT = self.tok_mod.TokenType
        self.Op = self.cg.OpCode
        M = ns["amanda.compiler.module"].Module
        self.module, self.other = M("/m/este.ama"), M("/m/outro.ama")
        self.scopes, self.truths, self.seg, self.decls = {}, {}, {}, []
        self.code = []
        self.limit = False
        self.temps = set()
        self.pure = set()
        self.nscope = 0
        if not hasattr(self.bi.SrcBuiltins, "Opcao"):
            # the analyser loads the builtin module
            hooks, cx.hooks.cx = cx.hooks.cx, None
            try:
                ns["amanda.compiler.check.core"].Analyzer("este.ama", [], self.module)
            finally:
                cx.hooks.cx = hooks
        self.start()

    def prove(self, prop, clause, cond, info=None):
        # what is written where, and in which order, is also what makes the output
        # the same in every run
        if prop in (self.prop, "*") or (self.prop, prop) in (("C14", "C11"), ("C14", "C09")):
            self.cx.prove(clause, cond, info)

    def valid(self, a, b):
        """Are the two integers always equal here?"""
        if isinstance(a, bool) or isinstance(b, bool):
            return False
        if not isinstance(a, (int, SymInt)) or not isinstance(b, (int, SymInt)):
            return False
        c = mkb(self.cx, ti(a) == ti(b))
        if isinstance(c, bool):
            return c
        return self.cx.check(ti(a) != ti(b)) == z3.unsat

    # ------------------------------------------------------------ generator
    def start(self):
        cx, B = self.cx, self.cg.ByteGen
        g = self.g = B(self.module)
        self.here = self.scope("here")
        self.ip0 = cx.int("ip", 0)
        cx.assume(self.ip0 < 2 ** 63)
        self.LINE = 50
        self.set(ops=[], ip=self.ip0, labels=Labels(self), const_table=AbsTable(self, "constants"),
                 names=AbsTable(self, "names"), func_locals=AbsTable(self, "locals"),
                 uniao_variants=AbsTable(self, "variants"), scope_symtab=self.here, program_symtab=self.here,
                 outer_scopes=[self.scope("outer")], depth=4, lineno=41, ctx_loop_start=7, ctx_loop_exit=8,
                 src_map=[], funcs=[], registos=[],
                 modules={"/m/um.ama": 0, self.other.fpath: 1, self.bi.builtin_module.fpath: 2})
        W = self
        real_gen = B.gen

        def gen(self, node, args=None):
            if getattr(node, "is_stub", False):
                return W.eval(self, node)
            return real_gen(self, node, args)
        cx.patch(B, "gen", gen)

        real_block = B.compile_block

        def compile_block(self, node):
            if getattr(node, "is_stub", False):
                return W.eval(self, node)
            return real_block(self, node)
        cx.patch(B, "compile_block", compile_block)
        self.real_append = B.append_op
        cx.patch(B, "append_op", self.append_op_contract())
        if "gen_iguala_from_ir" in B.__dict__:
            real_ir = B.gen_iguala_from_ir

            def from_ir(self, node, decision):
                if getattr(decision, "is_stub", False):
                    return W.eval(self, decision)
                return real_ir(self, node, decision)
            cx.patch(B, "gen_iguala_from_ir", from_ir)

    def append_op_contract(W):
        """What append_op is proved to do (see the step of that name)."""
        def append_op(self, op, *args):
            size = W.size(op)
            if size in (2, 3):
                lim = 2 ** (8 * (size - 1))
                if args[0] >= lim:
                    W.limit = True
                    self.error("contract: too large")
            W.code.append(Ins("OP", self.ip, self.lineno, op=op, args=args))
            self.ip = self.ip + size
            self.ops.append((op, args))
        return append_op

    U8 = ("CALL_FUNCTION", "CAST", "BUILD_STR", "BUILD_VEC", "BUILD_OBJ", "OP_UNWRAP", "BUILD_VARIANT", "BIND_MATCH_ARGS")
    U16 = ("LOAD_CONST", "LOAD_NAME", "SET_LOCAL", "GET_LOCAL", "GET_GLOBAL", "SET_GLOBAL", "LOAD_REGISTO")
    U64 = ("JUMP", "JUMP_IF_FALSE", "MATCH_VARIANT")

    @classmethod
    def size(cls, op):
        n = op.name
        return 2 if n in cls.U8 else 3 if n in cls.U16 else 9 if n in cls.U64 else 17 if n == "LOAD_MODULE_DEF" else 1

    def set(self, **kw):
        for k, v in kw.items():
            if k not in self.g.__dict__:
                raise Unsupported(f"the generator has no field {k}")
            self.g.__dict__[k] = v

    def scope(self, name):
        s = self.sym.Scope()
        self.scopes[id(s)] = (name, s)
        return s

    def env(self, g):
        return (self.scopes.get(id(g.scope_symtab), ("?",))[0], g.ctx_loop_start, g.ctx_loop_exit)

    def eval(self, g, node):
        """The contract of generating a child."""
        if not isinstance(g.func_locals, AbsTable):
            g.func_locals = AbsTable(self, "locals of the function", g.func_locals)
        env = self.env(g)
        self.code.append(Ins("EVAL", g.ip, g.lineno, node=node, env=env, locals=g.func_locals, depth=g.depth))
        self.havoc(g, 1 if node.kind == "expr" else 0)
        g.ops.append(("child", node))
        return None

    def havoc(self, g, lo=0):
        k = self.cx.int("size", lo)
        g.ip = g.ip + k
        self.cx.assume(mkb(self.cx, ti(g.ip) < 2 ** 63))     # no program is that long
        if isinstance(g.labels, Labels):
            g.labels.gap()
        for t in (g.func_locals, g.const_table, g.names, g.uniao_variants):
            if isinstance(t, AbsTable):
                t.grow()

    def frame(self, g):
        return {"scope_symtab": id(g.scope_symtab), "depth": g.depth, "outer_scopes": tuple(map(id, g.outer_scopes)),
                "ctx_loop_start": g.ctx_loop_start, "ctx_loop_exit": g.ctx_loop_exit, "func_locals": id(g.func_locals),
                "lineno": g.lineno, "program_symtab": id(g.program_symtab), "ctx_module": id(g.ctx_module)}

    # ---------------------------------------------------------------- nodes
    def tok(self, tt, lexeme="tok", line=50):
        if isinstance(tt, str):
            tt = getattr(self.TT, tt)
        return self.tok_mod.Token(tt, lexeme, line, 1)

    def stub(self, label, base, kind, **kw):
        cache = self.ns.__dict__.setdefault("_pvc_gstubs", {})
        if base not in cache:
            class Stub(AnyNode, base):
                is_stub = True
                stub_of = base

                def __init__(self):
                    pass

                def for_each_child(self, f):
                    pass

                def __eq__(self, o):
                    return self is o

                def __hash__(self):
                    return id(self)

                def __repr__(self):
                    return f"<{self.label}>"
            Stub.__name__ = base.__name__
            cache[base] = Stub
        n = cache[base].__new__(cache[base])
        n.__dict__.update(label=label, is_stub=True, kind=kind, lineno=60, parent=None, seq=None, kinds=no_value(self.ast),
                          token=stub_tok(self, label, 60), symbols=None)
        n.__dict__.update(kw)
        return n

    def expr(self, label, base=None, **kw):
        kw.setdefault("eval_type", self.B.Texto)
        kw.setdefault("prom_type", None)
        return self.stub(label, base or self.ast.Expr, "expr", **kw)

    def stmt(self, label, base=None, **kw):
        return self.stub(label, base or self.ast.ASTNode, "stmt", **kw)

    def block(self, label, **kw):
        """A block known by contract."""
        s = self.scope(label + " scope")
        b = self.stub(label, self.ast.Block, "block", symbols=s, **kw)
        b.children = None
        return b

    def openblock(self, label, cls=None):
        """A block whose statements are an arbitrary sequence of children."""
        b = (cls or self.ast.Block).__new__(cls or self.ast.Block)
        b.__dict__.update(token=self.tok("FACA"), lineno=55, parent=None, symbols=self.scope(label + " scope"))
        b.children = self.seq(label, lambda: self.stmt("statement of " + label))
        return b

    def seq(self, label, make, **kw):
        return GSeq(self, label, make, **kw)

    def var(self, label, kinds=("local", "global", "external"), ty=None):
        """A variable that is declared already."""
        k = self.cx.choose(label + " is", list(kinds))
        v = self.sym.VariableSymbol(label, ty or self.B.Texto, self.other if k == "external" else self.module)
        v.is_global = k != "local"
        v.out_id = label if v.is_global else "_id_" + label
        if k == "local":
            self.declared(v)
        return v

    def declared(self, v):
        t = self.g.func_locals
        i = self.cx.int("slot", 0)
        self.cx.assume(mkb(self.cx, i.t < ti(t.n)))
        for _, j in t.known:
            self.cx.assume(mkb(self.cx, i.t != ti(j)))
        t.known.append((v.out_id, i))

    def temp(self, v):
        """Only the construct itself ever writes it."""
        self.temps.add(("g", v.name) if v.is_global else ("l", v.out_id))
        return v

    def fresh(self, label):
        """A variable that may not have a place yet."""
        k = self.cx.choose(label + " is", ["local", "global"])
        v = self.sym.VariableSymbol(label, self.B.Texto, self.module)
        v.is_global = k == "global"
        v.out_id = label if v.is_global else "_id_" + label
        return v

    # ---------------------------------------------------------------- running
    def gen(self, node):
        node.lineno = self.LINE
        return self.run(self.g.gen, node)

    def run(self, fn, *a):
        g = self.g
        self.before = self.frame(g)
        self.base = len(self.code)
        out = self.out = self.cx.call(fn, *a)
        if out.crashed:
            self.prove("*", "no crash", False, lambda: out.tb)
            raise PathEnd()
        if out.rejected:
            self.cx.cover("refused")
            e = out.value
            for p in ("C08", "C09", "C11"):
                self.prove(p, "refused only when an operand does not fit", self.limit or self.full())
            self.prove("C13", "errors name the file being compiled", e.fpath == self.module.fpath)
            self.prove("C13", "errors name the line being compiled", e.line == self.LINE)
            raise PathEnd()
        self.cx.cover("compiled")
        after = self.frame(g)
        if len([i for i in self.code if i.kind in ("OP", "EVAL", "SEG")]) != len(g.ops):
            raise Unsupported("instructions that were not appended with append_op")
        for k in self.before:
            for p in ("C08", "C10" if k == "func_locals" else "C13" if k == "lineno" else "C08"):
                self.prove(p, f"{k} is restored", self.before[k] == after[k])
        for i in self.code[self.base:]:
            if i.kind == "OP":
                self.prove("C13", "an instruction carries the line of its construct", i.line == self.LINE, lambda: repr(i))
                if i.op.name in ("JUMP", "JUMP_IF_FALSE"):
                    self.prove("C09", "a jump lands on an instruction", self.pos(i.args[0]) is not None, lambda: repr(i))
        return out

    def full(self):
        tabs = [self.g.const_table, self.g.names]
        c = [ti(i) >= 65535 for t in tabs for _, i in t.known]
        return mkb(self.cx, z3.Or(*c)) if c else False

    def pos(self, label):
        """The index of the instruction the label marks; ("label", l) outside; None."""
        at = self.g.labels
        if label < 1000:
            return ("label", label)
        if label not in at.at:
            return None
        v = at.at[label]
        for k in range(self.base, len(self.code)):
            if self.valid(self.code[k].ip, v):
                return k
        if self.valid(self.g.ip, v):
            return len(self.code)
        return None

    def truth(self, t):
        if t == ("const", "verdadeiro"):
            return True
        if t == ("const", "falso"):
            return False
        if isinstance(t, tuple) and t[0] == "not":
            return not self.truth(t[1])
        if t not in self.truths:
            self.truths[t] = self.cx.flag(f"{_s(t)}")
        return self.truths[t]

    def mach(self):
        return Mach(self)

    def spec(self):
        m = Mach(self)
        m.env = self.env_at
        return m

    @property
    def env_at(self):
        return ("here", 7, 8)

    def same(self, prop, clause, M, S, stack=True):
        self.prove(prop, clause + ": happens in this order", M.trace == S.trace,
                   lambda: {"got": _t(M.trace), "want": _t(S.trace), "code": [repr(i) for i in self.code]})
        if stack:
            self.prove(prop, clause + ": leaves this", M.stack == S.stack,
                       lambda: {"got": _t(M.stack), "want": _t(S.stack), "code": [repr(i) for i in self.code]})

    def straight(self, prop, clause, spec):
        """The emitted code, run from its start to its end, does what spec does."""
        M, S = self.mach(), self.spec()
        end = M.run(self.base, len(self.code))
        spec(S)
        self.prove(prop, clause + ": ends at its end", end == "end", lambda: {"end": end, "code": [repr(i) for i in self.code]})
        self.same(prop, clause, M, S)


class Many(tuple):
    """The values of an arbitrary sequence, on the stack."""
    def __new__(cls, seq, per):
        t = tuple.__new__(cls, ("many", seq.label, per))
        t.seq, t.per = seq, per
        return t


class Mach:
    """The virtual machine (amanda/vm/src/vm.rs), on terms."""

    def __init__(self, W):
        self.W, self.trace, self.stack, self.mem, self.nev = W, [], [], {}, 0
        self.env = W.env_at
        self.done = set()

    # -- shared by code and specification
    def event(self, *e):
        self.trace.append(e)
        self.nev += 1

    def eval(self, node, env=None):
        """A child is evaluated; the value of an expression is returned and not pushed."""
        env = env or self.env
        if node.kind == "expr":
            # names in an expression are resolved already; an arm may leave the loop
            arm = issubclass(type(node), self.W.ast.YieldBlock)
            self.event("eval", node.label, *(env[1:] if arm else ()))
            return ("v", node.label, self.nev)
        if node.symbols is not None:
            env = (self.W.scopes[id(node.symbols)][0],) + tuple(env[1:])
        self.event("eval", node.label, *env)
        return None

    def child(self, node, env=None):
        """A child is evaluated and leaves its values."""
        v = self.eval(node, env)
        if node.kind == "expr":
            if issubclass(type(node), self.W.ast.NamedArg):
                self.push(("name of", node.label))
            self.push(v)

    def push(self, v):
        self.stack.append(v)

    def op(self, *t):
        """An operation that may fail or has effects."""
        self.event(*t)
        return ("r",) + t + (self.nev,)

    def load(self, sym):
        W = self.W
        if sym.module.fpath != W.module.fpath:
            return self.read(("ext", sym.module.fpath, sym.name))
        return self.read(("g", sym.name) if sym.is_global else ("l", sym.out_id))

    def read(self, place):
        if place in self.W.temps or place in self.W.pure:
            return self.mem.get(place, ("mem",) + place)
        return self.mem.get((place, self.nev), ("mem",) + place + (self.nev,))

    def store(self, sym, v):
        self.write(("g", sym.name) if sym.is_global else ("l", sym.out_id), v)

    def write(self, place, v):
        if place in self.W.temps:
            self.mem[place] = v
            return
        self.event("store", place, v)
        self.mem[(place, self.nev)] = v

    def each(self, seq, env=None):
        """An arbitrary sequence of children, in order, until one of them leaves."""
        W, env = self.W, env or self.env
        if W.valid(seq.n, 0):
            return None
        if seq.can_exit:
            if seq.label not in W.seg:
                W.seg[seq.label] = None
                if W.cx.choose(f"leaves from {seq.label}", ["none", "one"]) == "one":
                    W.seg[seq.label] = seq.fresh()
            e = W.seg[seq.label]
            if e is not None:
                self.event("until", seq.label)
                tok = seq.meaning(self, e)
                if tok is None:
                    raise PathEnd()
                return tok
        self.event("each", seq.label, *(env if seq.stmts else ()))
        if seq.pushes:
            self.push(Many(seq, seq.pushes))
        return None

    # -- code only
    def pop(self):
        if not self.stack:
            self.trace.append(("BAD", "stack underflow"))
            return ("bad",)
        return self.stack.pop()

    def popn(self, n, per=1):
        """n groups of values, as a tuple."""
        W = self.W
        if W.valid(n, 0):
            return ()
        if self.stack and isinstance(self.stack[-1], Many):
            m = self.stack[-1]
            if m.per == per and W.valid(n, m.seq.n):
                self.stack.pop()
                return (m,)
        if isinstance(n, int):
            got = []
            for _ in range(n * per):
                v = self.pop()
                if isinstance(v, Many):
                    self.trace.append(("BAD", "a number of values that is not this one"))
                got.append(v)
            return tuple(reversed(got))
        # nothing was pushed, and the count says so
        if W.cx.decide(ti(n) == 0):
            return ()
        self.trace.append(("BAD", f"{n} values are taken, which are not there"))
        return ()

    def run(self, i, end, cuts=(), seg=None):
        """Executes code[i:end].  Returns "end", ("label", l) or ("cut", index)."""
        W, g = self.W, self.W.g
        first = True
        steps = 0
        while True:
            if i in cuts and not first:
                return ("cut", i)
            if i == end:
                return "end"
            first = False
            steps += 1
            if steps > 400 or not isinstance(i, int) or not 0 <= i < end:
                return ("lost", repr(i))
            ins = W.code[i]
            i += 1
            if ins.kind == "EVAL":
                self.child(ins.node, ins.env)
                continue
            if ins.kind == "SEG":
                tok = self.each(ins.seq, ins.env)
                if tok is not None:
                    l = W.cx.persist.get(("exit", ins.seq.label) + ins.key, {}).get(tok)
                    if l is None:
                        self.trace.append(("BAD", "no such exit"))
                        return ("lost",)
                    t = self.target(l, seg)
                    if not isinstance(t, int):
                        return t
                    i = t
                continue
            n, a = ins.op.name, ins.args
            if n in ("JUMP", "JUMP_IF_FALSE"):
                if n == "JUMP_IF_FALSE" and W.truth(self.pop()):
                    continue
                t = self.target(a[0], seg)
                if not isinstance(t, int):
                    return t
                i = t
                continue
            r = self.step(n, a, g)
            if r is not None:
                return r

    def target(self, l, seg):
        W = self.W
        if seg is not None and l < seg.head_labels and W.g.labels.writes.get(l, 0) == seg.head_writes.get(l, 0):
            return ("label", l)
        t = W.pos(l)
        if t is None:
            self.trace.append(("BAD", "a jump into an instruction"))
            return ("lost",)
        return t

    BIN = {"OP_ADD", "OP_MINUS", "OP_MUL", "OP_DIV", "OP_FLOORDIV", "OP_MODULO", "OP_AND", "OP_OR", "OP_EQ", "OP_NOTEQ",
           "OP_GREATER", "OP_GREATEREQ", "OP_LESS", "OP_LESSEQ"}

    def step(self, n, a, g):
        W, push, pop = self.W, self.push, self.pop
        if n == "MOSTRA":
            self.op("print", pop())
        elif n == "LOAD_CONST":
            push(self.const(g.const_table.key_of(a[0])))
        elif n == "LOAD_NAME":
            push(("name", g.names.key_of(a[0])))
        elif n in self.BIN:
            r = pop()
            l = pop()
            push(self.bin(n, l, r))
        elif n == "OP_INVERT":
            push(self.op("neg", pop()))
        elif n == "OP_NOT":
            push(self.neg(pop()))
        elif n == "OP_ISNULL":
            push(("isnull", pop()))
        elif n == "OP_INDEX_GET":
            i, t = pop(), pop()
            push(self.op("index", t, i))
        elif n == "OP_INDEX_SET":
            v, i, t = pop(), pop(), pop()
            self.op("setindex", t, i, v)
        elif n == "GET_GLOBAL":
            push(self.read(("g", g.names.key_of(a[0]))))
        elif n == "SET_GLOBAL":
            self.write(("g", g.names.key_of(a[0])), pop())
        elif n == "GET_LOCAL":
            push(self.read(("l", g.func_locals.key_of(a[0]))))
        elif n == "SET_LOCAL":
            self.write(("l", g.func_locals.key_of(a[0])), pop())
        elif n == "LOAD_MODULE_DEF":
            m = [f for f, k in g.modules.items() if W.valid(k, a[0])]
            push(self.read(("ext", m[0] if m else None, g.names.key_of(a[1]))))
        elif n == "CALL_FUNCTION":
            f = pop()
            push(self.op("call", f, self.popn(a[0])))
        elif n == "RETURN":
            self.op("return", pop())
            return "returned"
        elif n == "CAST":
            t = pop()
            push(self.op("cast", pop(), t, a[0]))
        elif n == "BUILD_STR":
            push(self.op("str", self.popn(a[0])))
        elif n == "BUILD_VEC":
            push(self.op("vec", self.popn(a[0])))
        elif n == "BUILD_OBJ":
            r = pop()
            push(self.op("obj", r, self.popn(a[0], 2)))
        elif n == "BUILD_VARIANT":
            t = pop()
            push(self.op("variant", t, self.popn(a[0])))
        elif n == "LOAD_REGISTO":
            push(("record", a[0] if isinstance(a[0], int) else str(a[0])))
        elif n == "GET_PROP":
            f, t = pop(), pop()
            push(self.op("getprop", t, f))
        elif n == "SET_PROP":
            v, f, t = pop(), pop(), pop()
            self.op("setprop", t, f, v)
        elif n == "OP_UNWRAP":
            if a[0] == 1:
                d = pop()
                push(self.op("unwrap or", pop(), d))
            else:
                push(self.op("unwrap", pop()))
        elif n == "MATCH_VARIANT":
            push(("is variant", pop(), g.uniao_variants.key_of(a[0])))
        elif n == "BIND_MATCH_ARGS":
            slots = self.popn(a[0])
            self.op("bind", pop(), slots)
        elif n == "HALT":
            return "halt"
        else:
            raise Unsupported("instruction " + n)
        return None

    def neg(self, v):
        return v[1] if isinstance(v, tuple) and v[0] == "not" else ("not", v)

    def bin(self, n, l, r):
        if n in ("OP_EQ", "OP_NOTEQ"):
            t = ("eq",) + tuple(sorted((l, r), key=repr))
            return t if n == "OP_EQ" else self.neg(t)
        if n in ("OP_LESS", "OP_GREATER", "OP_LESSEQ", "OP_GREATEREQ"):
            if n in ("OP_GREATER", "OP_LESSEQ"):
                l, r = r, l
            t = ("less", l, r)
            return t if n in ("OP_LESS", "OP_GREATER") else ("not less", l, r)
        return self.op(n, l, r)

    def const(self, k):
        if isinstance(k, SymInt):
            # the number of a slot
            s = self.W.g.func_locals.key_of(k)
            s = s if s is not None else None
            if s is not None:
                return ("slot", s)
            s = self.W.g.uniao_variants.key_of(k)
            return ("tag", s) if s is not None else ("const", str(k))
        return ("const", k if k is None else str(k))


class GSeq(SymSeq):
    """An arbitrary sequence whose elements are generated one by one."""

    def __init__(self, W, label, make, meaning=None, pushes=None, can_exit=False, view=None, n=None, base=None):
        def mk_():
            e = make()
            e.seq = self
            return e
        super().__init__(W.cx, label, mk_, n=n)
        self.W = W

        def plain(M, e):
            M.child(e)
        self.meaning = meaning or plain
        one = make() if meaning is None else None
        self.stmts = one is not None and one.kind != "expr"
        self.pushes = pushes if pushes is not None else 0 if one is None or self.stmts else 2 if issubclass(type(one), W.ast.NamedArg) else 1
        self.can_exit, self.see = can_exit, view or (lambda e: e)

    def loop_spec(self, key, names):
        return GSpec(self, self.see, key, names)

    def sym_enumerate(self, start=0):
        raise Unsupported("enumerate in the generator")

    def fresh(self):
        self.cx.assume(mkb(self.cx, ti(self.n) >= 1))
        return self.make()


class GSpec(SeqSpec):
    def entry(self, vals):
        W = self.W = self.seq.W
        self.at = ("exit", self.seq.label) + tuple(self.key)
        self.cx.persist.setdefault(self.at, {})

    def segment(self):
        W, g = self.W, self.W.g
        if not isinstance(g.func_locals, AbsTable):
            g.func_locals = AbsTable(W, "locals of the function", g.func_locals)
        W.code.append(Ins("SEG", g.ip, g.lineno, seq=self.seq, key=tuple(self.key), env=W.env(g), locals=g.func_locals))
        g.ops.append(("children", self.seq))
        W.havoc(g)

    def head(self, vals):
        W, g = self.W, self.W.g
        self.segment()
        self.first = len(W.code)
        self.frame = W.frame(g)
        self.head_labels = g.labels.n
        self.head_writes = dict(g.labels.writes)
        self.lims = (len(g.funcs), len(g.registos), len(g.modules))
        return {n: UNBOUND for n in self.names}

    def element(self):
        self.e = self.seq.fresh()
        return self.view(self.e)

    def back(self, vals):
        W, g = self.W, self.W.g
        if (len(g.funcs), len(g.registos), len(g.modules)) != self.lims:
            raise Unsupported(f"the loop in {self.key[0]} carries state between iterations")
        after = W.frame(g)
        for k in after:
            W.prove("C08", f"{k} is the same after every iteration", after[k] == self.frame[k])
        for i in W.code[self.first:]:
            if i.kind == "OP":
                W.prove("C13", "an instruction carries the line of its construct", i.line == W.LINE, lambda: repr(i))
        base, W.base = W.base, self.first
        M, S = W.mach(), W.spec()
        M.env = S.env = W.env(g)
        end = M.run(self.first, len(W.code), seg=self)
        tok = self.seq.meaning(S, self.e)
        W.base = base
        cand = self.cx.persist[self.at]
        if tok is not None and isinstance(end, tuple) and end[0] == "label" and tok not in cand:
            cand[tok] = end[1]
        want = "end" if tok is None else ("label", cand.get(tok))
        lab = f"each of {self.seq.label}"
        W.prove("C08", lab + ": goes where it should", end == want, lambda: {"got": end, "want": want, "code": [repr(i) for i in W.code]})
        W.same("C08", lab, M, S)

    def done(self, vals):
        self.segment()
        return {n: UNBOUND for n in self.names}


def _s(t):
    return "(" + " ".join(_s(x) for x in t) + ")" if isinstance(t, tuple) else str(t)


def _t(xs):
    return [_s(x) for x in xs]
