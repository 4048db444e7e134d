"""C05: names resolve lexically and are declared at most once per scope."""
from contracts import checker
from standin import imports, progs

SCOPES = {"stmts": ["decl", "assign", "show", "se", "enquanto", "para", "escolha", "iguala", "seiguala", "compound", "loopctl"], "depth": 5,
          "types": ["int", "texto"]}
VCS = checker.vcs("C05")
STANDINS = [
    dict(name="what one import makes visible", fn=imports.standin, budget=30,
         bound="every combination of one name in two modules, 4 ways the second imports the first, 5 states of the importer and "
               "7 forms of import; 18 spellings of a path with and without the files they may mean"),
    dict(name="misuses of names are refused", fn=progs.negative("C05", modules=3), budget=30, thorough=500,
         bound="random programs with one planted misuse of a name, of 26 kinds"),
    dict(name="names reach their innermost declaration", fn=progs.positive(SCOPES), budget=20, thorough=400,
         bound="random programs of nested blocks that reuse few names, run against an independent evaluator"),
]
TRUSTED = ["the independent evaluator of standin/lang.py and the other oracles in standin/"]
ASSUMPTIONS = []
