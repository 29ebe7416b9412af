from .sqlgen import *
from .p_e01 import table, tables_cfg

LEVEL = "model_checking"
RULE = ("the specification of statements (the rows a condition selects, as they stood when the statement began, are replaced, removed or added; a transaction that is rolled back leaves no trace) "
        "is model-checked on tiny tables; random and enumerated histories of INSERT, UPDATE, DELETE, BEGIN, COMMIT and ROLLBACK are run by the real executors on tables with and without indexes, and "
        "every reported count, full scan and index scan must be what the specification says")
ASSUME = ["plans are built directly: the SQL front end does not compile without network in this sandbox",
          "composite indexes are not maintained by the code and not covered; one client (concurrent transactions are M01-M04)"]


def source(g, tabs, index, t):
    """a plan that selects rows of table t"""
    ts = tabs[t - 1]
    G = Gen(g, tabs, index=index)
    own = [ix for ix in index if ix[0] == t]
    if own and g.random() < 0.4:
        c = g.choice(own)[1]
        p = ["iscan", t, c, [G.bound(ts, c) for _ in range(g.choice([0, 1, 1, 2]))]]
    else:
        p = ["scan", t, g.choice(["seq", "table"])]
    x = g.random()
    if x < 0.7:
        p = ["filter", G.boolean(ts, g.choice([0, 1, 1, 2])), p]
    elif x < 0.8:
        p = ["limit", g.randint(0, 4), ["sort", G.keys(ts, True), p]]
    return p


def new_value(g, ts, j, spread=4, nulls=0.1):
    t = ts[j]
    x = g.random()
    same = [i for i, u in enumerate(ts) if u == t]
    if x < 0.35:
        return k(value(g, t, nulls, spread), t)
    if x < 0.5:
        return col(g.choice(same))
    if t in INTT:
        if x < 0.85:
            return ["ar", g.choice("+-"), col(g.choice(same)), k(I(g.randint(0, 3)), t)]
        return ["neg", col(g.choice(same))]
    if x < 0.7:
        return ["coal", [col(g.choice(same)), k(value(g, t, 0, spread), t)]]
    return ["case", [], [[["is", "null", 0, col(g.randrange(len(ts)))], k(value(g, t, nulls, spread), t)]], col(g.choice(same))]


def sets(g, ts, **kw):
    cols = g.sample(range(len(ts)), g.randint(1, min(2, len(ts))))
    return [[j, new_value(g, ts, j, **kw)] for j in cols]


def statement(g, tabs, index, t, rows=None):
    ts = tabs[t - 1]
    x = g.random()
    if x < 0.38:
        if g.random() < 0.7:
            n = rows if rows is not None else g.choice([1, 1, 2, 3, 4])
            rs = table(g, ts, n)
            if g.random() < 0.15:
                rs = [r[:g.randint(1, len(ts))] for r in rs]
            return dict(op="ins", t=t, how="values", rows=rs)
        src = g.randrange(len(tabs)) + 1
        if tabs[src - 1] != ts:
            p = ["values", [[k(v, u) for v, u in zip(r, ts)] for r in table(g, ts, g.randint(1, 3))], ts]
        else:
            p = source(g, tabs, index, src)
        return dict(op="ins", t=t, how="child", p=p)
    if x < 0.75:
        return dict(op="upd", t=t, how=g.choice(["assign", "assign", "pairs"]), p=source(g, tabs, index, t), sets=sets(g, ts))
    return dict(op="del", t=t, p=source(g, tabs, index, t))


def looks(g, tabs, index, t):
    """a full scan and index scans of table t"""
    out = [dict(op="q", p=["scan", t, g.choice(["seq", "table"])])]
    for u, c in index:
        if u == t:
            out.append(dict(op="q", p=["iscan", t, c, [Gen(g, tabs).bound(tabs[t - 1], c)] if g.random() < 0.7 else []]))
    return out


def history(g, n, big=False, tabs=None):
    if tabs is None:
        tabs = [[g.choice(["Integer", "Integer", "BigInt", "SmallInt", "VarChar", "VarChar", "Boolean", "Decimal"]) for _ in range(g.randint(1, 4))] for _ in range(g.randint(1, 2))]
        if g.random() < 0.3:
            tabs.append(list(tabs[0]))
    cmds, index = [], []
    for t, ts in enumerate(tabs):
        m = g.choice([0, 1, 3, 6]) if not big else g.randint(20, 50)
        cmds.append(dict(op="load", t=t + 1, rows=table(g, ts, m), gone=[]))
    inx = False
    for _ in range(n):
        x = g.random()
        t = g.randrange(len(tabs)) + 1
        if x < 0.12 and len(index) < 3:
            ix = (t, g.randrange(len(tabs[t - 1])))
            if ix not in index:
                index.append(ix)
                cmds.append(dict(op="index", t=ix[0], c=ix[1]))
            cmds += looks(g, tabs, index, t)
        elif x < 0.3:
            if inx:
                cmds.append(dict(op=g.choice(["commit", "abort"])))
            else:
                cmds.append(dict(op="begin", iso=g.choice(["RC", "RC", "RR", "SER", "SNAP"])))
            inx = not inx
            if not inx:
                for u in range(len(tabs)):
                    cmds += looks(g, tabs, index, u + 1)
        else:
            cmds.append(statement(g, tabs, index, t, rows=g.choice([None, None, 99, 100, 101, 130]) if big and g.random() < 0.2 else None))
            cmds += looks(g, tabs, index, t)
    if inx:
        cmds.append(dict(op=g.choice(["commit", "abort"])))
        for u in range(len(tabs)):
            cmds += looks(g, tabs, index, u + 1)
    return dict(cfg=tables_cfg(tabs), cmds=cmds)


def churn(g, n):
    """few rows, changed again and again; an index that comes in the middle of a transaction"""
    ts = [g.choice(["Integer", "Integer", "BigInt", "VarChar"]) for _ in range(g.randint(1, 2))]
    at = g.randint(1, n - 2)
    c = g.randrange(len(ts))
    cmds, index = [dict(op="load", t=1, rows=table(g, ts, g.randint(1, 3)), gone=[])], []
    inx = False
    for i in range(n):
        if not inx and g.random() < 0.5:
            cmds.append(dict(op="begin", iso=g.choice(["RC", "RR", "SER", "SNAP"])))
            inx = True
        elif inx and g.random() < 0.2:
            cmds.append(dict(op=g.choice(["commit", "abort", "abort"])))
            inx = False
        if i == at:
            index = [(1, c)]
            cmds.append(dict(op="index", t=1, c=c))
        x = g.random()
        p = ["filter", Gen(g, [ts]).bound(ts, c), ["scan", 1, "seq"]] if g.random() < 0.5 else ["scan", 1, "table"]
        if x < 0.75:
            cmds.append(dict(op="upd", t=1, how=g.choice(["assign", "pairs"]), p=p, sets=[[c, k(value(g, ts[c], 0.1), ts[c])]]))
        elif x < 0.88:
            cmds.append(dict(op="ins", t=1, how="values", rows=table(g, ts, 1)))
        else:
            cmds.append(dict(op="del", t=1, p=p))
        cmds += [dict(op="q", p=["iscan", 1, c, []])] if index else []
    if inx:
        cmds.append(dict(op=g.choice(["commit", "abort", "abort"])))
    cmds += looks(g, [ts], index, 1) + [dict(op="q", p=["iscan", 1, c, []])]
    return dict(cfg=tables_cfg([ts]), cmds=cmds)


def tuples(x):
    """TLC writes an empty sequence as {} or []"""
    if isinstance(x, dict):
        return {a: tuples(b) for a, b in x.items()} if x else []
    return [tuples(y) for y in x] if isinstance(x, list) else x


START = [[[I(1), I(1)], [I(2), I(2)]], [[I(2)]]]       # Rows0 of SqlCmds


def enumerated(r, depth, declared, num=None, index=()):
    """the histories of SqlCmds, with a look at every table after each statement"""
    out = []
    for c in r.gen("SqlDbGen", depth, num=num, env=dict(CONSTRAINED=str(int(declared)))):
        c = tuples(c)
        cmds = [dict(op="load", t=i + 1, rows=rows, gone=[]) for i, rows in enumerate(START)] + [dict(op="index", t=t, c=j) for t, j in index]
        for e in c["cmds"]:
            cmds.append(e)
            cmds += [dict(op="q", p=["scan", t, "seq"]) for t in ((1, 2) if e["op"] in ("abort", "commit") else (e["t"],) if "t" in e else ())]
            cmds += [dict(op="q", p=["iscan", t, j, []]) for t, j in index if e.get("t", t) == t]
        out.append(dict(cfg=c["cfg"], cmds=cmds))
    return out


def run(r):
    g = r.rng("dml")
    kw = dict(case_timeout_ms=60000)
    r.mc("SqlDbMC", note="every database of tiny tables")
    if r.thorough:
        r.mc("SqlDbMC", consts=dict(MaxRows=3), note="three rows", timeout=1800)
    r.check("sql", "SqlTrace", enumerated(r, 2, False), "all short histories", drive_kw=kw)
    r.check("sql", "SqlTrace", enumerated(r, 12, False, num=100 if not r.thorough else 2000, index=((1, 0), (2, 0))), "generated histories, indexed", drive_kw=kw)
    n = 360 if not r.thorough else 6000
    r.check("sql", "SqlTrace", [history(g, 14) for _ in range(n)], "statement histories", drive_kw=kw)
    r.check("sql", "SqlTrace", [churn(g, 8) for _ in range(n // 2)], "rows changed repeatedly", drive_kw=kw)
    r.check("sql", "SqlTrace", [history(g, 8, big=True) for _ in range(n // 20)], "larger tables", drive_kw=kw)
