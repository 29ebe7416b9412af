from . import locks
LEVEL = "model_checking"
RULE = ("the lock table specification is checked exhaustively for three transactions on one resource; all short histories of it are executed on the real "
        "lock table, and random histories of lock, upgrade, unlock and release by 2..4 transactions on up to two tables and their rows on the lock manager; "
        "after every call the granted table locks, the per-transaction lock sets and the transaction states must be the specified ones")
ASSUME = ["calls of different clients take effect one at a time (each call runs under the table's mutex)"]


def run(r):
    r.mc("LockTableMC", consts=dict(NT=3, MaxQ=4 if r.thorough else 3), note="three transactions")
    r.mc("LockTableMC", consts=dict(NT=2, MaxQ=6), note="two transactions")
    r.check("locks", "LockTableTrace", r.gen("LockTableGen", 3), label="all short histories")
    r.check("locks", "LockTableTrace", r.gen("LockTableGen", 8, num=1500 if r.thorough else 150), label="generated")
    g = r.rng("locks")
    r.check("locks", "LockTableTrace", locks.bare_cases(g, 3000 if r.thorough else 300, 40), label="lock table")
    r.check("locks", "LockTableTrace", locks.cases(g, 3000 if r.thorough else 300, ["SER", "SER", "RR", "RC"], 0.1, 0.03, 40), label="lock manager")
