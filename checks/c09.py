"""C09: bytecode encodes every operand and jump faithfully, or compilation is refused."""
from contracts import gen
from standin import limits, progs

VCS = gen.vcs("C09")
STANDINS = [
    dict(name="sizes at every operand's limit", fn=limits.standin, budget=60, thorough=300,
         bound="programs at, below and above each operand width"),
    dict(name="instructions of random programs", fn=progs.positive(lint=("decode", "operand", "jump", "stack"), run=False), budget=25, thorough=400,
         bound="random programs; every instruction decoded, every operand and jump checked against the tables"),
]
TRUSTED = ["the independent evaluator of standin/lang.py and the other oracles in standin/"]
ASSUMPTIONS = []
