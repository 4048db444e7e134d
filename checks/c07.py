"""C07: pattern matching is exhaustive, ordered and binds what it matched."""
from contracts import checker, gen, matching as trees
from standin import matching, progs

VCS = gen.vcs("C07") + trees.vcs("C07") + checker.vcs("C07")
STANDINS = [
    dict(name="iguala over random unions", fn=matching.standin, budget=35, thorough=600,
         bound="random iguala of up to 8 arms over unions nested to depth 3, run on every kind of value, against direct "
               "matching of values"),
    dict(name="ill-formed patterns are refused", fn=progs.negative("C07"), budget=10, thorough=200,
         bound="random programs with one planted ill-formed pattern"),
]
TRUSTED = ["the independent evaluator of standin/lang.py and the other oracles in standin/"]
ASSUMPTIONS = []
