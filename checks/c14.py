"""C14: generic types bind their arguments in order, and compilation is deterministic."""
from contracts import bson, checker, gen, generic
from standin import generics

VCS = generic.vcs("C14") + checker.vcs("C14") + gen.vcs("C14") + bson.vcs("C14")
STANDINS = [
    dict(name="generic records and methods", fn=generics.standin, budget=25, thorough=400,
         bound="random generic records of up to 3 parameters, nested, with methods under renamed parameters"),
    dict(name="same sources, other processes", fn=generics.determinism, budget=25, thorough=400,
         bound="random programs, each compiled in four processes with different hash seeds"),
]
TRUSTED = ["the independent evaluator of standin/lang.py and the other oracles in standin/"]
ASSUMPTIONS = []
