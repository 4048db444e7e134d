"""C11: the compiled module reaches the virtual machine unchanged."""
from contracts import bson, gen
from standin import docs

VCS = bson.vcs("C11") + gen.vcs("C11")
STANDINS = [
    dict(name="documents", fn=docs.documents, budget=20, thorough=200,
         bound="20000 random documents, read back by an independent reader"),
    dict(name="constants", fn=docs.constants, budget=35, thorough=500,
         bound="random constants, through the compiler, the encoding and the virtual machine"),
]
TRUSTED = ["the independent evaluator of standin/lang.py and the other oracles in standin/"]
ASSUMPTIONS = []
