LEVEL = "model_checking"
RULE = ("the B+ tree algorithm is model-checked exhaustively for small trees (BTreeMC); all short histories and random ones of inserting and deleting "
        "(key, record id) pairs with many duplicate keys over orders 3..8 run on the real tree, with scans, point, range and double-ended iterators; after every operation the "
        "recorded tree must be sound and hold exactly the specified pairs, and every listing must be the specified one")
ASSUME = ["one client thread", "no NULL keys (comparison with NULL is unknown, so they have no place in an ordered index)"]


def history(g, nk, nd, length):
    cmds, have = [], set()
    up = g.choice([0.75, 0.6, 0.5])
    phase = g.random() < 0.5
    for j in range(length):
        lim = up if not phase else (0.95 if (j // 30) % 2 == 0 else 0.1)
        if g.random() < lim or not have:
            p = g.randrange(nk) * 10 + g.randrange(nd)
            have.add(p)
            cmds.append(dict(op="ins", p=p, t=g.randint(0, 1)))
        else:
            p = g.choice(sorted(have)) if g.random() < 0.9 else g.randrange(nk) * 10 + g.randrange(nd)
            have.discard(p)
            cmds.append(dict(op="del", p=p, t=g.randint(0, 1)))
        if g.random() < 0.2:
            a, b = sorted((g.randint(0, nk), g.randint(0, nk)))
            if g.random() < 0.05:
                a, b = b, a
            op = g.choice(["full", "range", "range", "key", "point", "iter", "iter", "all", "seek", "ends", "ends"])
            c = dict(op=op, a=a, b=b)
            if op == "range":
                c["incl"] = g.randint(0, 1)
            if op == "seek":
                if a > b:
                    continue
                c.update(k=g.randint(a, b), skip=g.choice([0, 0, 2, 100]))
            if op == "ends":
                c["pat"] = [g.randint(0, 1) for _ in range(g.choice([0, 3, 6, 60]))]
            cmds.append(c)
    return cmds + [dict(op="full"), dict(op="all")]


def run(r):
    r.mc("BTreeMC", consts=dict(Order=3, NK=14 if r.thorough else 11), note="order 3", timeout=1500)
    r.mc("BTreeMC", consts=dict(Order=5, NK=15 if r.thorough else 13), note="order 5", timeout=1500)
    g = r.rng("membtree")
    out = []
    for _ in range(2500 if r.thorough else 260):
        nk, nd = g.choice([(3, 9), (6, 4), (8, 2), (15, 1), (30, 2), (40, 1), (1, 9)])
        out.append(dict(cfg=dict(order=g.choice([3, 4, 4, 4, 5, 6, 8]), strs=int(g.random() < 0.2)), cmds=history(g, nk, nd, g.choice([30, 70, 110]))))
    r.check("membtree", "MemBTreeTrace", out, label="random")
