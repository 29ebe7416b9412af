from .p_e02 import *

LEVEL = "model_checking"
RULE = ("the specification of constraints (NOT NULL, UNIQUE, PRIMARY KEY over one or more columns, FOREIGN KEY for the rows a statement stores, DEFAULT) is model-checked: they hold in every reachable "
        "database of tiny tables and a statement that would break one changes nothing; enumerated and random histories on tables with random constraints are run by the real executors: exactly the "
        "statements that violate nothing may succeed, and the tables must stay as specified")
ASSUME = ["plans are built directly: the SQL front end, and with it the parsing of CHECK conditions, does not compile without network in this sandbox",
          "one client; a NULL or a missing value for a primary key column is replaced by a generated one and is not generated here"]
KEYED = ["Integer", "Integer", "BigInt", "SmallInt", "VarChar", "Boolean"]


def constrained(g):
    """tables with random constraints: (config, columns)"""
    tabs = []
    for t in range(g.randint(1, 3)):
        cols = [column("c%d" % j, g.choice(KEYED)) for j in range(g.randint(1, 4))]
        x = g.random()
        if x < 0.3:
            g.choice(cols)["pk"] = 1
        elif x < 0.5 and len(cols) > 1:
            for c in g.sample(cols, 2):
                c["pk"] = 1
        for c in cols:
            if g.random() < 0.2:
                c["uq"] = 1
            if g.random() < 0.2:
                c["nn"] = 1
            if not c["pk"] and g.random() < 0.25:
                c["df"] = [value(g, c["t"], 0)]
        if t:
            u = g.randrange(t)
            for c in cols:
                same = [j for j, d in enumerate(tabs[u]) if d["t"] == c["t"]]
                if same and g.random() < 0.5:
                    c["fk"] = [u + 1, g.choice(same)]
        tabs.append(cols)
    return tabs


def fits(cols, rows):
    """no NULL and no missing value in a primary key; nothing missing without a default in a NOT NULL column"""
    for r in rows:
        for c, v in zip(cols, r):
            if c["pk"] and v == NULL:
                return False
        if any(c["pk"] for c in cols[len(r):]):
            return False
    return True


def values_rows(g, cols, ts, n):
    """rows that mostly fit: keys from a small range, NULLs seldom where they are refused"""
    out = []
    for _ in range(n):
        row = [value(g, t, 0 if c["pk"] else 0.03 if c["nn"] else 0.15, 6) for c, t in zip(cols, ts)]
        if g.random() < 0.25:
            m = g.randint(1, len(ts))
            if not any(c["pk"] for c in cols[m:]):
                row = row[:m]
        out.append(row)
    return out


def constrained_history(g, n, big=False):
    cols = constrained(g)
    tabs = [[c["t"] for c in cs] for cs in cols]
    cfg = dict(pool=64, tables=[dict(n="t%d" % (i + 1), cols=cs) for i, cs in enumerate(cols)])
    cmds, index, inx = [], [], False
    for _ in range(n):
        x = g.random()
        t = g.randrange(len(tabs)) + 1
        cs, ts = cols[t - 1], tabs[t - 1]
        if x < 0.06 and len(index) < 2:
            ix = (t, g.randrange(len(ts)))
            if ix not in index:
                index.append(ix)
                cmds.append(dict(op="index", t=ix[0], c=ix[1]))
        elif x < 0.18:
            cmds.append(dict(op=g.choice(["commit", "abort"])) if inx else dict(op="begin", iso=g.choice(["RC", "RR", "SER", "SNAP"])))
            inx = not inx
            if inx:
                continue
            for u in range(len(tabs)):
                cmds += looks(g, tabs, index, u + 1)
        elif x < 0.55:
            m = g.choice([1, 1, 1, 2, 3]) if not big else g.choice([1, 20, 60, 100, 120])
            if g.random() < 0.75 or big:
                rows = values_rows(g, cs, ts, m)
                if big and m > 1 and g.random() < 0.8:      # mostly distinct keys
                    base = g.randint(0, 500)
                    rows = [[I((base + i) % 32000) if t2 in INTT and (c["pk"] or c["uq"]) else v for c, t2, v in zip(cs, ts, r)] + r[len(ts):] for i, r in enumerate(rows)]
                cmds.append(dict(op="ins", t=t, how="values", rows=rows))
            else:
                src = [u + 1 for u in range(len(tabs)) if tabs[u] == ts]
                rows = [r for r in values_rows(g, cs, ts, m) if len(r) == len(ts)] or None
                if g.random() < 0.5 and not any(c["pk"] for c in cs):
                    cmds.append(dict(op="ins", t=t, how="child", p=source(g, tabs, index, g.choice(src))))
                elif rows:
                    cmds.append(dict(op="ins", t=t, how="child", p=["values", [[k(v, u) for v, u in zip(r, ts)] for r in rows], ts]))
                else:
                    continue
            cmds += looks(g, tabs, index, t)
        elif x < 0.85:
            cmds.append(dict(op="upd", t=t, how=g.choice(["assign", "pairs"]), p=source(g, tabs, index, t), sets=sets(g, ts)))
            cmds += looks(g, tabs, index, t)
        else:
            cmds.append(dict(op="del", t=t, p=source(g, tabs, index, t)))
            cmds += looks(g, tabs, index, t)
    if inx:
        cmds.append(dict(op=g.choice(["commit", "abort"])))
        for u in range(len(tabs)):
            cmds += looks(g, tabs, index, u + 1)
    return dict(cfg=cfg, cmds=cmds)


def run(r):
    g = r.rng("constraints")
    kw = dict(case_timeout_ms=60000)
    r.mc("SqlDbMC", consts=dict(Declared="TRUE"), note="every database of tiny tables with constraints")
    if r.thorough:
        r.mc("SqlDbMC", consts=dict(Declared="TRUE", MaxRows=3), note="three rows", timeout=1800)
    r.check("sql", "SqlTrace", enumerated(r, 2, True), "all short histories", drive_kw=kw)
    r.check("sql", "SqlTrace", enumerated(r, 12, True, num=150 if not r.thorough else 3000), "generated histories", drive_kw=kw)
    n = 400 if not r.thorough else 6000
    r.check("sql", "SqlTrace", [constrained_history(g, 14) for _ in range(n)], "statement histories", drive_kw=kw)
    r.check("sql", "SqlTrace", [constrained_history(g, 6, big=True) for _ in range(n // 20)], "larger tables", drive_kw=kw)
