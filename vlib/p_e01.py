from .sqlgen import *

LEVEL = "model_checking"
RULE = ("the query specification (three-valued logic, expressions, relational operators, what is known of the order) is model-checked for the laws of relational algebra on all tiny tables; "
        "plans over the operator grammar, truth tables of every expression and random tables with NULLs, duplicates and empty inputs are run by the real executors, and each result must be one "
        "the specification allows")
ASSUME = ["plans are built directly: the SQL front end does not compile without network in this sandbox",
          "whether NULLs sort first or last is left open, per query"]


def table(g, ts, n, nulls=0.2):
    return [[value(g, t, nulls) for t in ts] for _ in range(n)]


def tables_cfg(tabs):
    return dict(pool=64, tables=[dict(n="t%d" % (i + 1), cols=[column("c%d" % j, t) for j, t in enumerate(ts)]) for i, ts in enumerate(tabs)])


def random_case(g, nq, depth, big=False):
    nt = g.randint(1, 3)
    tabs = [[g.choice(["Integer", "Integer", "BigInt", "SmallInt", "TinyInt", "VarChar", "VarChar", "Boolean", "Decimal"]) for _ in range(g.randint(1, 4))] for _ in range(nt)]
    cmds = []
    for i, ts in enumerate(tabs):
        n = g.choice([0, 1, 2, 3, 5, 8]) if not big else g.randint(10, 16)
        rows = table(g, ts, n, g.choice([0, 0.2, 0.5]))
        if rows and g.random() < 0.3:
            rows += [list(g.choice(rows)) for _ in range(2)]
        gone = g.sample(range(len(rows)), len(rows) // 4) if g.random() < 0.4 else []
        cmds.append(dict(op="load", t=i + 1, rows=rows, gone=gone))
    index = []
    while g.random() < 0.6:
        t = g.randrange(nt)
        ix = (t + 1, g.randrange(len(tabs[t])))
        if ix not in index:
            index.append(ix)
            cmds.append(dict(op="index", t=ix[0], c=ix[1]))
    for _ in range(nq):
        G = Gen(g, tabs, div=g.random() < 0.12, index=index)
        cmds.append(dict(op="q", p=G.query(g.randint(1, depth))))
    return dict(cfg=tables_cfg(tabs), cmds=cmds)


DOM = dict(n=[NULL, I(-1), I(0), I(1), I(2)], d=[NULL, D(-1000), D(0), D(500), D(1000)], s=[NULL, T(""), T("a"), T("ab"), T("A"), T("é")], b=[NULL, B(True), B(False)])


def dom(t):
    return DOM["d" if t == "Decimal" else KIND[t]]


def truth_cases():
    """every operator on every combination of a few values of its operand types, as a projection, a filter and a join condition"""
    pairs = [(a, b) for a in NUMT for b in NUMT] + [("VarChar", "VarChar"), ("Char", "VarChar"), ("VarChar", "Char"), ("Char", "Char"), ("Boolean", "Boolean")]
    out = []
    for a, b in pairs:
        x, y = col(0), col(1)
        bs = [["cmp", o, x, y] for o in ("=", "<>", "<", "<=", ">", ">=")]
        bs += [["dist", 0, x, y], ["dist", 1, x, y], ["in", 0, x, [k(v, b) for v in dom(b)[1:3]]], ["in", 1, x, [k(v, b) for v in (dom(b)[1], NULL)]],
               ["in", 0, x, [k(NULL, b)]], ["btw", 0, x, y, k(dom(b)[-1], b)], ["btw", 1, x, y, k(dom(b)[-1], b)], ["btw", 0, x, k(dom(b)[1], b), y],
               ["btw", 1, x, k(dom(b)[1], b), y], ["is", "null", 0, x], ["is", "null", 1, y]]
        es = [["coal", [x, y]], ["case", x, [[y, k(I(1), "Integer")]], k(I(2), "Integer")], ["case", x, [[y, k(I(1), "Integer")], [k(dom(b)[2], b), k(I(3), "Integer")]], []]]
        if KIND[a] == "n":
            es += [["ar", o, x, y] for o in "+-"] + ([["ar", "*", x, y]] if "Decimal" not in (a, b) else []) + [["neg", x]]
        if KIND[a] == "s":
            for pat in ("%", "_", "a%", "%b", "%a%", "\\_", "a_", "", "A%", "é"):
                for neg in (0, 1):
                    for ci in (0, 1):
                        bs.append(["like", neg, ci, x, k(T(pat), b), 92])
            bs += [["like", 0, 0, x, y, 0], ["like", 1, 0, x, y, 0], ["like", 0, 1, x, y, 0]]
        if KIND[a] == "b":
            lg = [["and", x, y], ["or", x, y], ["not", x, 0], ["not", x, 1]]
            lg += [["is", q, n, l] for q in ("true", "false", "unknown") for n in (0, 1) for l in (x, ["and", x, y], ["or", x, y])]
            lg += [["case", [], [[x, k(I(1), "Integer")], [y, k(I(2), "Integer")]], k(I(3), "Integer")]]
            bs += lg[:-1]
            es += lg[-1:]
        rows = [[u, v] for u in dom(a) for v in dom(b)]
        cmds = [dict(op="load", t=1, rows=rows, gone=[]), dict(op="load", t=2, rows=[[u] for u in dom(a)], gone=[]), dict(op="load", t=3, rows=[[v] for v in dom(b)], gone=[])]
        scan = ["scan", 1, "seq"]
        for q in range(0, len(bs), 12):
            cmds.append(dict(op="q", p=["project", [x, y] + bs[q:q + 12], scan]))
        cmds.append(dict(op="q", p=["project", [x, y] + es, scan]))
        for e in bs:
            cmds.append(dict(op="q", p=["filter", e, scan]))
            cmds.append(dict(op="q", p=["join", "nl", ("inner", "left", "right", "full")[len(cmds) % 4], e, ["scan", 2, "seq"], ["scan", 3, "table"], 1, 1, [], []]))
        out.append(dict(cfg=tables_cfg([[a, b], [a], [b]]), cmds=cmds))
    return out


def big_case(g, nq):
    """more rows, two pages and more, and indexes of several levels"""
    ts = [g.choice(["Integer", "BigInt", "SmallInt", "VarChar"]), g.choice(["Integer", "VarChar"]), "Integer"]
    tabs = [ts, ["Integer", "Integer"]]
    def val(t): return value(g, t, 0.1, 30) if KIND[t] == "n" else T(g.choice("abcdefghij") + g.choice("klmnopqrst") * g.randint(0, 60))
    rows = [[val(t) for t in ts] for _ in range(g.randint(40, 90))]
    rows2 = [[val("Integer") for _ in range(2)] for _ in range(g.randint(0, 6))]
    cmds = [dict(op="load", t=1, rows=rows, gone=sorted(g.sample(range(len(rows)), g.choice([0, 0, len(rows) // 5])))), dict(op="load", t=2, rows=rows2, gone=[])]
    index = [(1, 0), (1, 2)][:g.randint(0, 2)]
    cmds += [dict(op="index", t=t, c=c) for t, c in index]
    if g.random() < 0.4:
        cmds.append(dict(op="churn", n=80))
    def reads(p):
        return 1 if p[0] in ("scan", "iscan") and p[1] == 1 else reads(p[4]) + reads(p[5]) if p[0] == "join" else reads(p[-1]) if p[0] not in ("scan", "iscan", "values") else 0
    while len(cmds) < nq:
        p = Gen(g, tabs, index=index).query(g.choice([1, 1, 2]))
        if reads(p) == 1:      # the product of two larger tables takes the specification too long
            cmds.append(dict(op="q", p=p))
    return dict(cfg=tables_cfg(tabs), cmds=cmds)


def run(r):
    g = r.rng("sql")
    r.mc("SqlMC", note="every pair of tables of at most two rows")
    if r.thorough:
        r.mc("SqlMC", consts=dict(MaxA=3, MaxB=1), note="three rows", timeout=1200)
    r.check("sql", "SqlTrace", truth_cases(), "truth tables", drive_kw=dict(case_timeout_ms=60000))
    n = 600 if not r.thorough else 12000
    for d in (1, 2, 3):
        r.check("sql", "SqlTrace", [random_case(g, 12, d) for _ in range(n // 3)], "queries of depth %d" % d, drive_kw=dict(case_timeout_ms=60000))
    r.check("sql", "SqlTrace", [big_case(g, 16) for _ in range(24 if not r.thorough else 300)], "larger tables", drive_kw=dict(case_timeout_ms=60000))
    if r.thorough:
        r.check("sql", "SqlTrace", [random_case(g, 8, 5) for _ in range(600)], "deep queries", drive_kw=dict(case_timeout_ms=60000))
