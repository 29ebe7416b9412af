from . import mvcc
LEVEL = "model_checking"
RULE = ("in the model-checked version-chain design a row has at most one uncommitted version, owned by a running transaction; histories with several writers on few rows, "
        "and with writes and commits attempted by committed, aborted and doomed transactions, run on the real code, one call at a time and from several threads: "
        "each write must be accepted or refused as specified and refused ones must change nothing")
ASSUME = ["a transaction is used by one thread at a time"]
W = dict(upd=14, **{"del": 2}, late=4, doom=1, read=4, commit=3, abort=2)


def run(r):
    r.mc("MvccMC", consts=dict(NT=4 if r.thorough else 3, NR=1, MaxW=3))
    r.check("mvcc", "MvccTrace", mvcc.generated(r, 10, 1500 if r.thorough else 150), label="generated")
    g = r.rng("m03")
    r.check("mvcc", "MvccTrace", mvcc.cases(g, 2500 if r.thorough else 250, w=W, maxlive=5), label="random")
    r.check("mvcc", "MvccTrace", mvcc.cases(g, 1200 if r.thorough else 120, w={**W, "late": 10, "doom": 2}), label="finished transactions")
    r.check("mvcc", "MvccTrace", mvcc.cases(g, 800 if r.thorough else 80, w=W, long=True, pools=(8,)), label="changing lengths")
    mvcc.conc_check(r, mvcc.concurrent(g, 2000 if r.thorough else 200, repeat=4, isos=["RU", "RC", "RR"]))
