"""Lock manager histories shared by C01 and C02."""
MODES = ["IS", "IX", "S", "SIX", "X"]
ISOS = ["RU", "RC", "RR", "SER", "SNAP"]


def history(g, nx, nt, nr, length, wild, states):
    """Mostly well-formed two-level locking; `wild` is the share of arbitrary requests."""
    cmds, held, rows = [], {}, {}

    def lock_t(t, tb, m):
        cmds.append(dict(op="lockT", t=t, tb=tb, m=m))
        held.setdefault((t, tb), []).append(m)

    for _ in range(length):
        t, tb = g.randint(1, nx), g.randint(1, nt)
        x = g.random()
        mine = held.get((t, tb), [])
        if x < wild:
            op = g.choice(["lockT", "lockR", "unlockT", "unlockR"])
            m = g.choice(MODES)
            cmds.append(dict(op=op, t=t, tb=tb, m=m, row=10 * tb + g.randint(1, nr)))
            if op == "lockT":
                held.setdefault((t, tb), []).append(m)
        elif x < 0.45:
            lock_t(t, tb, g.choice(MODES))
        elif x < 0.68 and nr:
            if not mine:
                lock_t(t, tb, g.choice(["IS", "IX", "IX", "SIX"]))
            m = g.choice(["S", "X"])
            row = 10 * tb + g.randint(1, nr)
            cmds.append(dict(op="lockR", t=t, tb=tb, m=m, row=row))
            rows.setdefault((t, tb), {})[row] = m
        elif x < 0.80 and rows.get((t, tb)):
            row, m = g.choice(sorted(rows[(t, tb)].items()))
            del rows[(t, tb)][row]
            cmds.append(dict(op="unlockR", t=t, tb=tb, m=m, row=row))
        elif x < 0.90 and mine:
            for row, m in sorted(rows.pop((t, tb), {}).items()):
                cmds.append(dict(op="unlockR", t=t, tb=tb, m=m, row=row))
            cmds.append(dict(op="unlockT", t=t, tb=tb, m=g.choice(mine)))
            held.pop((t, tb))
        elif x < 0.90 + states:
            cmds.append(dict(op="state", t=t, to=g.choice(["GROWING", "RUNNING", "GROWING", "RUNNING", "SHRINKING", "COMMITTED", "ABORTED", "TAINTED"])))
        else:
            cmds.append(dict(op="force", t=t))
            if g.random() < 0.8:
                cmds.append(dict(op="state", t=t, to="RUNNING"))
            for k in list(held):
                if k[0] == t:
                    held.pop(k)
                    rows.pop(k, None)
    if g.random() < 0.1:
        cmds.append(dict(op="all"))
        cmds += [dict(op="lockT", t=t, tb=1, m=g.choice(MODES)) for t in range(1, nx + 1)]
    return cmds


def bare(g, nx, nt, nr, length):
    cmds = [c for c in history(g, nx, nt, nr, length, 0.35, 0.0) if c["op"] in ("lockT", "lockR", "unlockT", "unlockR", "force")]
    return cmds


def cases(g, n, isos, wild, states, length):
    out = []
    for _ in range(n):
        nx, nt, nr = g.choice([2, 3, 3, 4]), g.choice([1, 1, 2]), g.choice([1, 2])
        out.append(dict(cfg=dict(iso=[g.choice(isos) for _ in range(nx)], nt=nt, nr=nr), cmds=history(g, nx, nt, nr, length, wild, states)))
    return out


def bare_cases(g, n, length):
    out = []
    for _ in range(n):
        nx, nt, nr = g.choice([2, 3, 4]), g.choice([1, 1, 2]), g.choice([1, 2])
        out.append(dict(cfg=dict(iso=["NONE"] * nx, nt=nt, nr=nr), cmds=bare(g, nx, nt, nr, length)))
    return out
