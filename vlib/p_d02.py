LEVEL = "model_checking"
RULE = "operation histories generated from the specification (sampled with TLC -simulate) plus seeded random histories, for each policy and capacity"
ASSUME = ["accesses are separated by at least one microsecond, so LRU-K timestamps order them"]
KINDS = ["fifo", "lru", "clru", "lfu", "heaplfu", "lruk"]


def ops_of(kind):
    o = ["insert"] * 4 + ["get"] * 3 + ["len", "contains", "pop", "peek", "clear"]
    if kind != "fifo":
        o += ["remove", "touch", "touch"]
    if kind in ("lfu", "heaplfu"):
        o += ["reset", "info"]
    if kind == "lruk":
        o += ["info", "older"]
    if kind in ("fifo", "lru"):
        o += ["rank"]
    return o


def rand_cases(r, n, length):
    g = r.rng("caches")
    out = []
    for m in range(n):
        kind = KINDS[m % len(KINDS)]
        cap = g.choice([1, 2, 3, 4, 6, 10])
        if kind == "heaplfu":
            cap = max(cap, 1)
        nk = cap + g.randint(1, 4)
        ops = ops_of(kind)
        cmds = []
        for _ in range(length):
            op = g.choice(ops)
            if op == "clear" and g.random() < 0.8:
                op = "insert"
            c = dict(op=op, k=g.randint(1, nk))
            if op == "insert":
                c["v"] = g.randint(0, 99)
            cmds.append(c)
        cmds += [dict(op="pop", k=0)] * (cap + 1) + [dict(op="len", k=0)]
        out.append(dict(cfg=dict(kind=kind, cap=cap, k=g.choice([1, 2, 2, 3])), cmds=cmds))
    return out


def run(r):
    r.mc("CachesMC", consts={"K": "{1, 2, 3, 4}", "MaxCap": 3, "MaxClk": 9 if r.thorough else 7}, note="every policy, capacities 0 to 3", timeout=1200)
    cases = r.gen("CachesGen", 12, num=4000 if r.thorough else 800)
    if r.thorough:
        cases += r.gen("CachesGen", 3)
    r.check("caches", "CachesTrace", cases, label="generated")
    r.check("caches", "CachesTrace", rand_cases(r, 3000 if r.thorough else 360, 50), label="random")
