"""C13: errors point at the right line."""
from contracts import checker, gen
from standin import progs, spread

VCS = checker.vcs("C13") + gen.vcs("C13")
STANDINS = [
    dict(name="lines of compile-time errors", fn=progs.negative(["C04", "C05", "C06", "C07", "C12"], modules=3, check_refusal=False),
         budget=25, thorough=400, bound="random programs with one planted error, of 72 kinds, anywhere in them"),
    dict(name="constructs spread over several lines", fn=spread.standin, budget=15, thorough=200,
         bound="random nested calls, methods, lists and record initialisers with ends of lines between their parts; one operation fails"),
    dict(name="lines of run-time errors", fn=progs.positive(lint=("map",), modules=True), budget=30, thorough=500,
         bound="random programs, about a third of which fail at run time, against an independent evaluator that keeps lines; "
               "the line table of each against the instructions"),
]
TRUSTED = ["the independent evaluator of standin/lang.py and the other oracles in standin/"]
ASSUMPTIONS = []
