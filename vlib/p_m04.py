from . import mvcc
LEVEL = "model_checking"
RULE = ("garbage collection and pruning are model-checked against the version lists for every interleaving of three transactions (no reader loses a version, the watermark never goes back); "
        "all short histories of the timestamp source and random ones run on the real one; histories with frequent collection, long-running readers and long version chains run on "
        "the real transaction manager and every timestamp, watermark and read must be the specified one")
ASSUME = ["a transaction is used by one thread at a time"]
W = dict(gc=6, wm=5, upd=12, commit=5, begin=5, abort=1.5)


def wm_history(g, n):
    out, act, nxt = [], [], 1
    for _ in range(n):
        x = g.choice(["next", "reg", "reg", "rem", "unreg", "com", "comget", "get", "get", "clone"])
        c = dict(op=x)
        if x in ("next", "reg"):
            if x == "reg":
                act.append(nxt)
            nxt += 1
        elif x in ("rem", "unreg"):
            c["ts"] = act.pop(g.randrange(len(act))) if act and g.random() < 0.9 else nxt + 5
        elif x in ("com", "comget"):
            c["ts"] = max(0, nxt + g.choice([-3, -1, -1, 0, 2, 40]))
            nxt = max(nxt, c["ts"] + 1)
        out.append(c)
        if g.random() < 0.5:
            out.append(dict(op="get"))
    return out


def run(r):
    r.mc("MvccMC", consts=dict(NT=4 if r.thorough else 3, NR=1, MaxW=2))
    cases = r.gen("WatermarkGen", 4)
    for c in cases:
        c["cmds"] = [x for e in c["cmds"] for x in ({k: v for k, v in e.items() if k != "r"}, dict(op="get"))] + [dict(op="clone")]
    r.check("watermark", "WatermarkTrace", cases, label="all short histories")
    g = r.rng("m04")
    r.check("watermark", "WatermarkTrace", [dict(cfg={}, cmds=wm_history(g, g.choice([20, 60]))) for _ in range(2000 if r.thorough else 200)], label="timestamp source")
    r.check("mvcc", "MvccTrace", mvcc.generated(r, 10, 1000 if r.thorough else 100), label="generated")
    r.check("mvcc", "MvccTrace", mvcc.cases(g, 2500 if r.thorough else 250, w=W), label="random")
    r.check("mvcc", "MvccTrace", mvcc.cases(g, 1000 if r.thorough else 100, w={**W, "begin": 8}, lengths=(150,), maxlive=7), label="long-running readers")
    mvcc.conc_check(r, mvcc.concurrent(g, 1500 if r.thorough else 100, repeat=4))
