"""C12: modules are loaded once, never cyclically, and linked by consistent indices."""
from contracts import checker, gen
from standin import graphs, imports, progs

VCS = checker.vcs("C12") + gen.vcs("C12")
STANDINS = [
    dict(name="what one import makes visible", fn=imports.standin, budget=30,
         bound="every combination of one name in two modules, 4 ways the second imports the first, 5 states of the importer and "
               "7 forms of import; 18 spellings of a path with and without the files they may mean; 20 spellings of a name in every mode; 6 lists of import paths with every set of directories that have the file"),
    dict(name="random import graphs", fn=graphs.standin, budget=35, thorough=600,
         bound="import graphs of up to 9 modules, with every mode of import and spelling of paths, run"),
    dict(name="misuses of modules are refused", fn=progs.negative("C12", modules=1), budget=10, thorough=200,
         bound="random programs with one planted misuse of a module"),
]
TRUSTED = ["the independent evaluator of standin/lang.py and the other oracles in standin/"]
ASSUMPTIONS = []
