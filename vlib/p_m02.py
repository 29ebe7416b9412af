from . import mvcc
LEVEL = "model_checking"
RULE = ("rollback and commit, row by row and interleaved with every other step of three transactions, are model-checked on the version-chain design (after them every row is the specified "
        "list of versions, and nobody who begins later sees half a commit); histories full of aborts, repeated writes to one row, deletes, inserts, doomed transactions and "
        "changing row lengths run on the real code, and every later read, scan and lock query must match the specification")
ASSUME = ["a transaction is used by one thread at a time"]
W = dict(abort=6, commit=3, upd=12, ins=4, doom=1.5, **{"del": 3}, locks=1)


def run(r):
    r.mc("MvccMC", consts=dict(NT=2, NR=3, MaxW=4 if r.thorough else 3))
    r.check("mvcc", "MvccTrace", mvcc.generated(r, 10, 1500 if r.thorough else 150), label="generated")
    g = r.rng("m02")
    r.check("mvcc", "MvccTrace", mvcc.cases(g, 2500 if r.thorough else 250, w=W), label="random")
    r.check("mvcc", "MvccTrace", mvcc.cases(g, 1200 if r.thorough else 120, w=W, long=True, pools=(8, 64)), label="changing lengths")
    r.check("mvcc", "MvccTrace", mvcc.cases(g, 1200 if r.thorough else 120, w={**W, "begin": 2}, maxlive=1, lengths=(60,)), label="one transaction at a time")
    mvcc.conc_check(r, mvcc.concurrent(g, 2000 if r.thorough else 120, repeat=4, abort=0.6))
