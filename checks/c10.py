"""C10: variables never share or overrun storage while both are live."""
from contracts import checker, gen, matching as trees
from standin import matching, progs

SCOPES = {"stmts": ["decl", "decl", "assign", "show", "se", "enquanto", "para", "escolha", "iguala", "igualaexp", "seiguala", "compound"],
          "depth": 6, "types": ["int", "texto"]}
VCS = checker.vcs("C10") + gen.vcs("C10") + trees.vcs("C10")
STANDINS = [
    dict(name="slots of nested scopes", fn=progs.positive(SCOPES, lint=("local",)), budget=35, thorough=500,
         bound="random programs of nested blocks that reuse few names: outputs against an independent evaluator, slots "
               "against the frame sizes"),
    dict(name="variables of nested patterns", fn=matching.bindings, budget=12, thorough=200,
         bound="random iguala of up to 8 arms over unions nested to depth 3, run: the values of the variables of the chosen arm"),
]
TRUSTED = ["the independent evaluator of standin/lang.py and the other oracles in standin/"]
ASSUMPTIONS = []
