from . import mvcc
LEVEL = "model_checking"
RULE = ("the way of a row from a page in memory through the buffer pool, the disk manager's buffer and the file to the disk is model-checked with transactions on several pages, evictions and flushes at any moment and a crash "
        "anywhere: whatever a commit acknowledged is found again, by its id and by a scan; on the real code random histories of transactions run on small and large pools, under every sync policy, and again and again, "
        "always after a commit, the files are read as a process started after a crash would: each row must be there as committed or as written since")
ASSUME = ["the first page of a table is known (the catalog's part)", "under the sync policies that leave syncing to the system only the death of the process is considered, not a power loss"]


def looks(g, cmds, power):
    out = []
    for c in cmds:
        out.append(c)
        if c["op"] == "commit" or g.random() < 0.05:
            out += [dict(op="look", power=p) for p in power]
    return out


W = dict(ins=10, churn=1, commit=4, read=2, **{"del": 2})


def cases(g, n, lengths=(30, 60), pools=(3, 4, 6, 64), w=W, **kw):
    out = []
    for _ in range(n):
        fsync = g.choice([1, 1, 1, 2, 0, 3])
        cfg = dict(pool=g.choice(pools), fsync=fsync, threshold=g.choice([1, 2, 128]), cache=g.choice([1, 8]))
        out.append(dict(cfg=cfg, cmds=looks(g, mvcc.history(g, g.choice(lengths), w=w, **kw), [0, 1] if fsync in (1, 2) else [0])))
    return out


def large(g):
    """one commit of many rows on many pages"""
    n = g.choice([10, 30, 60])
    ins = [dict(op="ins", t=2, tb=g.randint(0, 1), how=j % 2, n=j, l=g.choice([900, 1100, 1500])) for j in range(n)]
    cmds = mvcc.prefix() + [dict(op="begin", iso="RR")] + ins + [dict(op="commit", t=2), dict(op="look", power=0)]
    cmds += [dict(op="begin", iso="SNAP")] + [dict(op="upd", t=3, k=3 + k, n=500 + k, l=800) for k in range(0, n, 2)] + [dict(op=g.choice(["commit", "abort"]), t=3), dict(op="look", power=0)]
    return dict(cfg=dict(pool=g.choice([3, 4, 8]), fsync=1, threshold=g.choice([1, 2, 128])), cmds=cmds)


def run(r):
    r.mc("DurableMC", note="two transactions on two pages")
    if r.thorough:
        r.mc("DurableMC", consts=dict(NP=3, Pool=2), note="three pages", timeout=3000)
        r.mc("DurableMC", consts=dict(NT=3), note="three transactions", timeout=3000)
    g = r.rng("r04")
    n = 1500 if r.thorough else 100
    r.check("durable", "DurableTrace", cases(g, n), label="random")
    r.check("durable", "DurableTrace", cases(g, n, long=True, maxrows=30), label="many pages")
    r.check("durable", "DurableTrace", cases(g, n, long="big", maxrows=30, w=dict(ins=20, churn=1, commit=3, upd=3, read=1)), label="large rows")
    r.check("durable", "DurableTrace", cases(g, n // 2, long=True, maxlive=1, maxrows=30), label="one transaction at a time")
    r.check("durable", "DurableTrace", [large(g) for _ in range(n // 5)], label="large commits")
