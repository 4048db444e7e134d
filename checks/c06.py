"""C06: every value-returning function returns on every path; jumps are well placed."""
from contracts import checker
from standin import progs, returns

VCS = checker.vcs("C06")
STANDINS = [
    dict(name="shapes of bodies, kinds of results, places of jumps", fn=returns.kinds, budget=30,
         bound="22 bodies x 13 result types x functions and methods; 4 jumps x 22 places"),
    dict(name="bodies that return, or not", fn=returns.standin, budget=30, thorough=500,
         bound="random function bodies of nested blocks of depth 3; accepted ones are run on 12 choices of their conditions"),
    dict(name="misplaced jumps are refused", fn=progs.negative("C06"), budget=15, thorough=300,
         bound="random programs with one planted misplaced jump or missing return"),
    dict(name="returns inside loops", fn=returns.known, budget=10, bound="two programs"),
]
TRUSTED = ["the independent evaluator of standin/lang.py and the other oracles in standin/"]
ASSUMPTIONS = []
