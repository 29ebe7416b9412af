from . import locks
LEVEL = "model_checking"
RULE = ("every isolation level is driven through every transaction state and lock mode, and random histories of requests by transactions of mixed isolation "
        "levels (including arbitrary, protocol-breaking ones) are run on the lock manager; each verdict, reason, and resulting transaction state and lock must be the specified one")
ASSUME = ["calls of different clients take effect one at a time (each call runs under the table's mutex)"]
STATES = ["RUNNING", "GROWING", "SHRINKING", "COMMITTED", "ABORTED", "TAINTED"]


def table():
    """every isolation level x state x mode, on the table and on a row, and every unlock"""
    out = []
    for iso in locks.ISOS:
        for s in STATES:
            for m in locks.MODES:
                out.append([iso, [dict(op="state", t=1, to=s), dict(op="lockT", t=1, tb=1, m=m), dict(op="lockR", t=1, tb=1, m="S", row=11)]])
                out.append([iso, [dict(op="lockT", t=1, tb=1, m="IX"), dict(op="state", t=1, to=s), dict(op="lockR", t=1, tb=1, m=m, row=11),
                                  dict(op="lockT", t=1, tb=1, m="X")]])
                for um in locks.MODES:
                    out.append([iso, [dict(op="lockT", t=1, tb=1, m=m), dict(op="state", t=1, to=s), dict(op="unlockT", t=1, tb=1, m=um),
                                      dict(op="lockT", t=1, tb=1, m=m), dict(op="lockT", t=2, tb=1, m="X")]])
            for m in ("S", "X"):
                for tm in locks.MODES:
                    out.append([iso, [dict(op="lockT", t=1, tb=1, m=tm), dict(op="lockR", t=1, tb=1, m=m, row=11), dict(op="state", t=1, to=s),
                                      dict(op="unlockT", t=1, tb=1, m=tm), dict(op="state", t=1, to=s), dict(op="unlockR", t=1, tb=1, m=m, row=11),
                                      dict(op="unlockT", t=1, tb=1, m=tm), dict(op="lockT", t=1, tb=1, m="IX")]])
    return [dict(cfg=dict(iso=[i, "SER"], nt=1, nr=1), cmds=c) for i, c in out]


def run(r):
    r.mc("LockTableMC", consts=dict(NT=2, MaxQ=4), note="two transactions")
    r.check("locks", "LockTableTrace", table(), label="levels x states x modes")
    g = r.rng("iso")
    r.check("locks", "LockTableTrace", locks.cases(g, 4000 if r.thorough else 400, locks.ISOS, 0.25, 0.06, 30), label="mixed")
