"""C02  Expressions and statements parse to the tree the grammar prescribes.

Contract of every method of the parser: on a stream of tokens of arbitrary
kinds, the method consumes exactly what its nonterminal's production derives
and builds the tree the grammar prescribes, or refuses exactly where the
grammar refuses the next token, with that token's line.  Callees are replaced
by their contracts (they consume a phrase of their nonterminal, or refuse), so
by induction on the text every accepted text has the grammar's tree.
"""
from pvc.engine import Unsupported
from pvc.parsing import World, PRE
from standin import parsing
from standin.grammar import GRAMMAR

SKIP = ("annotation_body",)


def args_for(w, nt):
    cx = w.cx
    if nt in ("function_decl", "method_decl", "registo_decl", "uniao_decl"):
        return ([w.rest("annotations")],)
    if nt == "capture_or_adt_pattern":
        from pvc.parsing import Ph
        ph = Ph("primary", (), None)
        ph.node = w.node(cx.choose("class", ["Variable", "Path"]), ph)
        return (ph.node,), (ph,)
    if nt in ("type_path", "simple_decl", "multi_decl", "get_decl_assign", "range_expression", "named_arg",
              "se_iguala_stmt"):
        t = w.token()
        return (t,)
    return ()


def make(nt):
    def vc(cx):
        w = World(cx)
        w.nt = nt
        P = w.P.Parser
        real = getattr(P, nt, None)
        if real is None:
            raise Unsupported(f"the parser has no method {nt}")
        cx.patch(w.P, "Lexer", w.AbsLexer)
        for other in GRAMMAR:
            if hasattr(P, other):
                cx.patch(P, other, w.stub(other))
        cx.patch(P, "parse_format_str", w.stub("parse_format_str"))
        cx.patch(P, "skip_newlines", w.skip_stub())
        a = args_for(w, nt)
        if len(a) == 2 and isinstance(a[0], tuple):
            args, w.args = a
        else:
            args = w.args = a
        w.parser = p = P("prog.ama", None)
        if nt in PRE:
            p.lookahead.token.cands = frozenset(w.kind(k) for k in PRE[nt])
        cx.while_policy = w.policy
        out = cx.call(real, p, *args)
        cx.while_policy = None
        w.run(nt, w.args, out)
    return {"name": "Parser." + nt, "fn": vc, "infer": 3, "budget": 120, "covers": ["accepts"],
            "functions": [f"amanda/compiler/parse.py Parser.{nt}"]}


VCS = [make(nt) for nt in GRAMMAR if nt not in SKIP]
STANDINS = [
    {"name": "trees of enumerated and generated programs", "fn": parsing.standin, "budget": 110, "thorough": 900,
     "bound": "all token sequences of length 2 (one spelling per kind), of length 2 in 25 contexts over 29 kinds, all "
              "triples of 18 operators, the repository's programs, random derivations and random edits of both, "
              "against an independent grammar"},
]
TRUSTED = ["the grammar in standin/grammar.py"]
ASSUMPTIONS = []
