LEVEL = "model_checking"
RULE = ("a slotted page with write-back is model-checked exhaustively (slots never overlap, what was once stored can always be restored, eviction changes nothing); histories of inserts, "
        "updates, metadata changes and deletes with short and long values run on the real heap over pools of 3 to 64 frames with pages evicted in between; every read, scan and count must be the specified one")
ASSUME = ["one client thread (concurrent readers are covered by the MVCC checks)",
          "growing a row may be refused when its page has no room (nothing changes then)"]
LENS = [0, 1, 10, 40, 100, 300, 700, 1200, 2000, 3000]


def history(g, length):
    cmds, n = [], 0
    big = g.choice([3, 5, 8, 10])
    for j in range(length):
        m = dict(c=g.randrange(8), ts=g.choice([-1, -1] + list(range(6))), **{"del": 0}, ul=g.choice([0, 0, 1, 200, 9]))
        v = dict(n=g.randrange(1000), l=g.choice(LENS[:big]))
        x = g.random()
        if n == 0 or x < 0.4:
            if g.random() < 0.02:
                v["l"] = 3900
            cmds.append(dict(op="ins", how=g.choice([0, 0, 1, 2]), **m, **v))
            n += v["l"] != 3900
        else:
            k = g.randrange(n)
            if x < 0.6:
                cmds.append(dict(op="upd", how=g.choice([0, 1]), k=k, **m, **v))
            elif x < 0.72:
                if g.random() < 0.6:
                    m["del"] = 1
                cmds.append(dict(op="meta", k=k, **m))
            elif x < 0.9:
                cmds.append(dict(op=g.choice(["get", "getany", "getmeta"]), k=k))
            elif x < 0.93:
                cmds.append(dict(op="scan", reset=g.choice([0, 0, 1])))
            elif x < 0.97:
                cmds.append(dict(op="churn", n=g.choice([1, 3, 8])))
            else:
                cmds.append(dict(op=g.choice(["count", "reopen", "bad"]), last=g.randint(0, 1), which=g.randint(0, 1)))
    tail = [dict(op="churn", n=8)] + [dict(op="getany", k=k) for k in range(n)]
    return cmds + tail + [dict(op="scan", reset=0), dict(op="count")]


def own(g, length):
    """Histories in which one transaction per row owns it, so that most requests are accepted."""
    cmds, own_ = [], []
    for j in range(length):
        v = dict(n=g.randrange(1000), l=g.choice(LENS))
        if not own_ or g.random() < 0.3:
            c = g.randrange(8)
            own_.append(c)
            cmds.append(dict(op="ins", how=0, c=c, ts=-1, **{"del": 0}, ul=0, **v))
        else:
            k = g.randrange(len(own_))
            m = dict(c=own_[k], ts=g.choice([-1, 0, 4, 5]), **{"del": 0}, ul=g.choice([0, 9]))
            if g.random() < 0.7:
                cmds.append(dict(op="upd", how=g.randint(0, 1), k=k, **m, **v))
            else:
                m["del"] = int(g.random() < 0.2)
                cmds.append(dict(op="meta", k=k, **m))
        if g.random() < 0.1:
            cmds.append(g.choice([dict(op="churn", n=4), dict(op="scan", reset=0), dict(op="count")]))
    return cmds + [dict(op="churn", n=8)] + [dict(op="getany", k=k) for k in range(len(own_))] + [dict(op="scan", reset=0)]


def run(r):
    r.mc("HeapPageMC", consts=dict(PS=14, MaxRows=4) if r.thorough else dict(PS=12, MaxRows=3))
    cases = r.gen("HeapGen", 3, num=None)
    for c in cases:
        c["cmds"] += [dict(op="churn", n=4), dict(op="scan", reset=0), dict(op="count")]
        for e in c["cmds"]:
            e.pop("r", None)
            e.pop("rid", None)
    if not r.thorough:
        g = r.rng("pick")
        cases = g.sample(cases, min(len(cases), 400))
    r.check("heap", "HeapTrace", cases, label="generated")
    g = r.rng("heap")
    out = []
    for _ in range(1500 if r.thorough else 160):
        f = g.choice([history, own])
        out.append(dict(cfg=dict(pool=g.choice([3, 3, 4, 8, 64])), cmds=f(g, g.choice([30, 80, 150]))))
    r.check("heap", "HeapTrace", out, label="random")
