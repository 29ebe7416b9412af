from . import mvcc
LEVEL = "model_checking"
RULE = ("how versions are chained, stamped, rolled back and collected is model-checked for every interleaving of three transactions on two rows against the version lists of the "
        "specification (every reader at every level finds exactly the specified version); histories generated from the specification and random ones, at all five isolation levels, "
        "run on the real transaction manager and heap, and every read and scan must return the specified version")
ASSUME = ["concurrent histories: up to three threads, validated by searching for one moment per call (commit and abort: one per row) that explains all results"]


def run(r):
    r.mc("MvccMC", consts=dict(NT=3, NR=2, MaxW=3 if r.thorough else 2))
    r.check("mvcc", "MvccTrace", mvcc.generated(r, 4, None) if r.thorough else mvcc.generated(r, 3, None), label="all short histories")
    r.check("mvcc", "MvccTrace", mvcc.generated(r, 10, 1500 if r.thorough else 150), label="generated")
    g = r.rng("m01")
    r.check("mvcc", "MvccTrace", mvcc.cases(g, 2500 if r.thorough else 250), label="random")
    r.check("mvcc", "MvccTrace", mvcc.cases(g, 800 if r.thorough else 60, pools=(6, 8), long=True, w=dict(churn=2)), label="with eviction and changing lengths")
    r.check("mvcc", "MvccTrace", mvcc.cases(g, 800 if r.thorough else 60, w=dict(upd=14, commit=4, begin=5), lengths=(150,), maxlive=6), label="long chains")
    mvcc.conc_check(r, mvcc.concurrent(g, 2000 if r.thorough else 150, repeat=4))
