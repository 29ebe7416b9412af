from .p_e02 import *

LEVEL = "model_checking"
RULE = ("the specification of queries says what a plan means; the rewriting rules an optimizer may use are model-checked against it on every pair of tiny tables; random plans over tables with and without keys and indexes "
        "are optimized and converted to executable plans by the real code, with every combination of its options, and executed: the result must be one the specification allows for the plan as written")
ASSUME = ["logical plans are built directly: the SQL front end does not compile without network in this sandbox",
          "join conditions are equalities of columns joined by AND: others are documented to be refused"]


class OptGen(Gen):
    def values(self):
        return self.scan()

    def join(self, d):
        g = self.g
        L, lt = self.plan(d - 1, False)
        R, rt = self.plan(d - 1, False)
        pairs = [(i, j) for i in range(len(lt)) for j in range(len(rt)) if KIND[lt[i]] == KIND[rt[j]]]
        if not pairs:
            return L, lt
        on = None
        for i, j in g.sample(pairs, min(len(pairs), g.choice([1, 1, 2]))):
            e = ["cmp", "=", col(i), col(len(lt) + j)]
            x = g.random()
            if x < 0.3:
                e[2:] = [e[3], e[2]]
            elif x < 0.35:       # refused
                e = g.choice([["cmp", g.choice(["<", ">=", "<>"]), e[2], e[3]], ["is", "null", 0, e[2]], ["cmp", "=", e[2], k(value(g, lt[i]), lt[i])], ["or", e, e], ["cmp", "=", e[2], e[2]]])
            on = e if on is None else ["and", on, e]
        return ["join", g.choice(["nl", "nl", "hash"]), g.choice(["inner", "inner", "left", "right", "full"]), on, L, R, len(lt), len(rt), [], []], lt + rt

    def scan(self):
        t = self.g.randrange(len(self.tables)) + 1
        return ["scan", t, "seq"], list(self.tables[t - 1])

    def boolean(self, ts, d):
        return k(B(True), "Boolean") if self.g.random() < 0.03 else super().boolean(ts, d)

    def query(self, d):
        while True:
            p, ts = self.agg(d, True) if self.g.random() < 0.2 else self.plan(d, True)
            x = self.g.random()
            if x < 0.5:
                p = ["sort", self.keys(ts), p]
            if x < 0.3:
                p = ["limit", self.g.randint(0, 6), p]
            if "topn" not in str(p) and "topg" not in str(p):
                return p


def keyed(g):
    """tables with keys, and rows that respect them"""
    cfg, tabs, rows = [], [], []
    for t in range(g.randint(1, 3)):
        cols = [column("c%d" % j, g.choice(["Integer", "Integer", "BigInt", "SmallInt", "VarChar", "Boolean"])) for j in range(g.randint(1, 4))]
        x, key = g.random(), []
        if x < 0.3:
            key = [g.randrange(len(cols))]
        elif x < 0.55 and len(cols) > 1:
            key = g.sample(range(len(cols)), 2)
        for j in key:
            cols[j]["pk"] = 1
        uq = [j for j in range(len(cols)) if j not in key and g.random() < 0.15]
        for j in uq:
            cols[j]["uq"] = 1
        got = []
        for r in table(g, [c["t"] for c in cols], g.choice([0, 1, 3, 6])):
            if any(r[j] == NULL for j in key) or (key and any([r[j] for j in key] == [q[j] for j in key] for q in got)):
                continue
            if any(r[j] != NULL and r[j] == q[j] for j in uq for q in got):
                continue
            got.append(r)
        cfg.append(dict(n="t%d" % (t + 1), cols=cols))
        tabs.append([c["t"] for c in cols])
        rows.append(got)
    return cfg, tabs, rows


def changing(g, tabs, cfg, t):
    """a statement that changes a table, planned as a query is"""
    ts, how = tabs[t - 1], dict(t=t, opt=1, nlj=1, top=g.choice([0, 1]))
    if g.random() < 0.4:
        rows = [r for r in table(g, ts, g.randint(1, 3)) if not any(v == NULL and c["pk"] for v, c in zip(r, cfg[t - 1]["cols"]))]
        p = ["values", [[k(v, u) for v, u in zip(r, ts)] for r in rows], ts]
        if g.random() < 0.5 or not rows:
            u = g.randrange(len(tabs)) + 1
            p = ["project", [new_value(g, tabs[u - 1], g.choice([j for j, w in enumerate(tabs[u - 1]) if w == x])) if x in tabs[u - 1] and not c["pk"] else k(value(g, x, 0), x) for x, c in zip(ts, cfg[t - 1]["cols"])],
                 ["filter", OptGen(g, tabs).boolean(tabs[u - 1], 1), ["scan", u, "seq"]]]
        return dict(op="ins", how="child", p=p, **how)
    p = ["scan", t, "seq"]
    for _ in range(g.choice([0, 1, 1, 2])):
        p = ["filter", OptGen(g, tabs).boolean(ts, 1), p]
    if g.random() < 0.2:
        p = ["limit", g.randint(0, 3), ["sort", Gen(g, tabs).keys(ts, True), p]]
    return dict(op="upd", how=g.choice(["assign", "pairs"]), p=p, sets=sets(g, ts), **how) if g.random() < 0.6 else dict(op="del", p=p, **how)


def optimized(g, n, depth):
    cfg, tabs, rows = keyed(g)
    cmds = [dict(op="load", t=i + 1, rows=r, gone=[]) for i, r in enumerate(rows)]
    index = []
    for _ in range(n):
        x = g.random()
        t = g.randrange(len(tabs)) + 1
        if x < 0.12 and len(index) < 3:
            ix = (t, g.randrange(len(tabs[t - 1])))
            if ix not in index:
                index.append(ix)
                cmds.append(dict(op="index", t=ix[0], c=ix[1]))
        elif x < 0.2:
            cmds.append(changing(g, tabs, cfg, t))
        elif x < 0.3:
            cmds.append(dict(op="ins", t=t, how="values", rows=[r for r in table(g, tabs[t - 1], g.randint(1, 2)) if not any(v == NULL and c["pk"] for v, c in zip(r, cfg[t - 1]["cols"]))]))
            if not cmds[-1]["rows"]:
                cmds.pop()
        elif x < 0.4:
            cmds.append(g.choice([dict(op="upd", t=t, how="assign", p=source(g, tabs, [], t), sets=sets(g, tabs[t - 1])), dict(op="del", t=t, p=source(g, tabs, [], t))]))
        else:
            cmds.append(dict(op="oq", nlj=g.choice([0, 1, 1]), top=g.choice([0, 0, 1]), p=OptGen(g, tabs).query(g.choice([1] + [depth] * 2))))
    return dict(cfg=dict(pool=64, tables=cfg), cmds=cmds)


def run(r):
    g = r.rng("optimizer")
    r.mc("SqlOptMC", note="the rewriting rules, anywhere in a plan")
    if r.thorough:
        r.mc("SqlOptMC", consts=dict(MaxSteps=5), note="more rewriting steps", timeout=1800)
    kw = dict(case_timeout_ms=60000)
    n = 300 if not r.thorough else 6000
    r.check("sql", "SqlTrace", [optimized(g, 10, 2) for _ in range(n)], "optimized plans", drive_kw=kw)
    r.check("sql", "SqlTrace", [optimized(g, 8, 3) for _ in range(n // 3)], "deeper plans", drive_kw=kw)
