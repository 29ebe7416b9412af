LEVEL = "model_checking"
RULE = ("the B+ tree algorithm (split, merge, redistribute) is model-checked exhaustively for small trees; histories of insert, overwrite, delete, "
        "lookup and range scan over orders 3..8 are drawn at random; after every operation the whole tree is dumped and must be "
        "a sound tree standing for exactly the specified map")
ASSUME = ["one client thread", "the order is at least 3", "the pool is large enough to keep the tree resident (index pages are memory-only)"]


def history(g, order, nk, length, off):
    cmds, have = [], set()
    style = g.choice(["mixed", "grow-shrink", "asc", "desc", "churn"])
    v = 0
    seq = list(range(nk))
    if style == "desc":
        seq.reverse()
    if style not in ("asc", "desc"):
        g.shuffle(seq)
    plan = []
    if style in ("asc", "desc", "grow-shrink"):
        dele = list(range(nk))
        m = g.choice(["asc", "desc", "rand"])
        if m == "desc":
            dele.reverse()
        if m == "rand":
            g.shuffle(dele)
        plan = [("ins", k) for k in seq] + [("del", k) for k in dele]
    else:
        for _ in range(length):
            up = g.random() < (0.62 if style == "mixed" else 0.5)
            if up or not have:
                k = g.randrange(nk)
                have.add(k)
                plan.append(("ins", k))
            else:
                k = g.choice(sorted(have)) if g.random() < 0.9 else g.randrange(nk)
                have.discard(k)
                plan.append(("del", k))
    for op, k in plan:
        v += 1
        lat = "l" if g.random() < 0.3 else ""
        cmds.append(dict(op=lat + op, k=k + off, v=v))
        x = g.random()
        if x < 0.10:
            a, b = sorted((g.randint(-1, nk), g.randint(-1, nk)))
            if g.random() < 0.1:
                a, b = b, a
            cmds.append(dict(op="range", k=a + off, k2=b + off))
        elif x < 0.16:
            cmds.append(dict(op="get", k=g.randrange(nk) + off))
        elif x < 0.20:
            cmds.append(dict(op=g.choice(["scan", "valid", "order"]), k=off))
    return cmds + [dict(op="scan", k=off), dict(op="valid", k=off), dict(op="order", k=off)]


def rand_cases(r, n):
    g = r.rng("btree")
    out = []
    for j in range(n):
        order = g.choice([3, 3, 4, 4, 4, 5, 5, 6, 7, 8])
        nk = g.choice([6, 10, 18, 30, 40])
        off = g.choice([0, 0, -nk // 2, 1000000])
        out.append(dict(cfg=dict(order=order, pool=400, lo=off - 2, hi=off + nk + 2), cmds=history(g, order, nk, g.choice([30, 60, 90]), off)))
    return out


def run(r):
    r.mc("BTreeMC", note="order 3")
    r.mc("BTreeMC", consts=dict(Order=3, NK=14 if r.thorough else 11), note="order 3, three levels", timeout=1500)
    r.mc("BTreeMC", consts=dict(Order=4, NK=15 if r.thorough else 12), note="order 4", timeout=1500)
    r.check("btree", "BTreeTrace", rand_cases(r, 1500 if r.thorough else 160), label="random")
