"""C08: compiled code computes what the source says."""
from contracts import gen
from standin import progs, shapes

VCS = gen.vcs("C08")
STANDINS = [
    dict(name="operators and conversions with special operands", fn=shapes.standin("operands"), budget=20, thorough=120,
         bound="every operator and conversion with every pair of 9 to 16 special operands (literals, variables, elements, fields, "
               "calls with effects), each used in one of 9 ways and in one of 4 places"),
    dict(name="statements with special bodies and bounds", fn=shapes.standin("shapes"), budget=20, thorough=400,
         bound="random statements nested up to 3 deep, with literal conditions, empty blocks, reversed or constant bounds and jumps"),
    dict(name="programs print what they say", fn=progs.positive(lint=("stack", "jump"), modules=True), budget=45, thorough=800,
         bound="random programs of up to 14 top-level statements, with functions, methods, records, unions and modules, "
               "run against an independent evaluator"),
]
TRUSTED = ["the independent evaluator of standin/lang.py and the other oracles in standin/"]
ASSUMPTIONS = []
