from .p_e02 import *

LEVEL = "model_checking"
RULE = ("the specification of readers next to a writer (a reader sees exactly a committed database: at Read Committed the latest, at the higher levels the latest when it began) is model-checked; "
        "random histories of one client's statements and transactions, with other clients' transactions of every level open over them, are run by the real executors, and every query of every client - "
        "scans, index scans, joins, aggregates, sorts - must have a result the specification allows on the tables that client sees")
ASSUME = ["plans are built directly: the SQL front end does not compile without network in this sandbox",
          "one client writes at a time (concurrent writers are M01-M04); steps of different clients alternate, they do not overlap"]


def seq(x):
    """TableScan is documented to know no transactions, and no SQL statement is planned with it"""
    if isinstance(x, dict):
        return {a: seq(b) for a, b in x.items()}
    if isinstance(x, list):
        return ["scan", x[1], "seq"] if x and x[0] == "scan" else [seq(y) for y in x]
    return x


def reading(g, n, tabs=None, readers=3, small=False):
    if tabs is None:
        tabs = [[g.choice(["Integer", "Integer", "BigInt", "VarChar", "Boolean"]) for _ in range(g.randint(1, 3))] for _ in range(g.randint(1, 2))]
    cmds, index, held, inx = [], [], {}, False
    for t, ts in enumerate(tabs):
        cmds.append(dict(op="load", t=t + 1, rows=table(g, ts, g.choice([1, 2, 4] if small else [0, 2, 4, 7])), gone=[]))
    for t, ts in enumerate(tabs):
        if g.random() < 0.5:
            index.append((t + 1, g.randrange(len(ts))))
            cmds.append(dict(op="index", t=index[-1][0], c=index[-1][1]))

    def query(t):
        if g.random() < 0.35 and not small:
            return Gen(g, tabs, index=index).query(g.choice([1, 2]))
        own = [c for u, c in index if u == t]
        if own and g.random() < 0.6:
            c = g.choice(own)
            return ["iscan", t, c, [Gen(g, tabs).bound(tabs[t - 1], c)] if g.random() < 0.5 else []]
        return ["scan", t, "seq"]

    for _ in range(n):
        x = g.random()
        t = g.randrange(len(tabs)) + 1
        ts = tabs[t - 1]
        if x < 0.13 and len(held) < readers:
            i = min(set(range(1, readers + 1)) - set(held))
            held[i] = g.choice(["RC", "RR", "RR", "SER", "SNAP", "SNAP"])
            cmds.append(dict(op="hold", k=i, iso=held[i]))
        elif x < 0.17 and held:
            i = g.choice(sorted(held))
            del held[i]
            cmds.append(dict(op="drop", k=i, end=g.choice(["commit", "abort"])))
        elif x < (0.25 if small else 0.2) and len(index) < 3:
            ix = (t, g.randrange(len(ts)))
            if ix not in index:
                index.append(ix)
                cmds.append(dict(op="index", t=ix[0], c=ix[1]))
        elif x < 0.36:
            cmds.append(dict(op=g.choice(["commit", "commit", "abort"])) if inx else dict(op="begin", iso=g.choice(["RC", "RR", "SER", "SNAP"])))
            inx = not inx
        elif small:
            c = g.randrange(len(ts))
            p = ["filter", Gen(g, tabs).bound(ts, c), ["scan", t, "seq"]] if g.random() < 0.4 else ["scan", t, "seq"]
            cmds.append(g.choice([dict(op="upd", t=t, how=g.choice(["assign", "pairs"]), p=p, sets=[[c, k(value(g, ts[c], 0.1), ts[c])]])] * 6
                                 + [dict(op="ins", t=t, how="values", rows=table(g, ts, 1)), dict(op="del", t=t, p=p)]))
        else:
            cmds.append(statement(g, tabs, index, t))
        for i in sorted(held):
            if g.random() < 0.6:
                cmds.append(dict(op="rq", k=i, p=query(t)))
        if g.random() < 0.2:
            cmds.append(dict(op="q", p=query(t)))
    if inx:
        cmds.append(dict(op=g.choice(["commit", "abort"])))
    for i in sorted(held):
        cmds += [dict(op="rq", k=i, p=query(u + 1)) for u in range(len(tabs)) for _ in range(2)]
        cmds.append(dict(op="drop", k=i, end="commit"))
    for u in range(len(tabs)):
        cmds += looks(g, tabs, index, u + 1)
    return dict(cfg=tables_cfg(tabs), cmds=[seq(c) for c in cmds])


def run(r):
    g = r.rng("readers")
    kw = dict(case_timeout_ms=60000)
    r.mc("SqlReadMC", consts=dict(MaxCommits=4, MaxRows=4) if r.thorough else {}, note="two readers and a writer", timeout=1800)
    n = 300 if not r.thorough else 6000
    r.check("sql", "SqlTrace", [reading(g, 14) for _ in range(n)], "readers next to a writer", drive_kw=kw)
    r.check("sql", "SqlTrace", [reading(g, 18, small=True) for _ in range(n * 3 // 2)], "few rows, changed again and again", drive_kw=kw)
    r.check("sql", "SqlTrace", [reading(g, 40) for _ in range(n // 15)], "long histories", drive_kw=kw)
