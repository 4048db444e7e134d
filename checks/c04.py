"""C04: accepted programs are well typed, and well-typed programs are accepted."""
from contracts import checker
from standin import progs, sites

VCS = checker.vcs("C04")
STANDINS = [
    dict(name="every place that wants a value", fn=sites.standin, budget=45, thorough=120,
         bound="16 kinds of place x 13 wanted types x 33 expressions of 17 types, and 9 places with a fixed type; accepted cases are run"),
    dict(name="values side by side", fn=sites.side_by_side, budget=20, thorough=300,
         bound="random: 2 to 9 values in one list, call, method call, record, variant, function or sequence; one of them refused in every other program"),
    dict(name="ill-typed programs are refused", fn=progs.negative("C04"), budget=30, thorough=500,
         bound="random programs with one planted violation of one of 31 typing rules"),
    dict(name="well-typed programs are accepted", fn=progs.positive(modules=True), budget=20, thorough=400,
         bound="random well-typed programs of up to 14 top-level statements and 3 modules, compiled and run against "
               "an independent evaluator"),
]
TRUSTED = ["the independent evaluator of standin/lang.py and the other oracles in standin/"]
ASSUMPTIONS = []
