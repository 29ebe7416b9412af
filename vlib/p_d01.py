LEVEL = "model_checking"
RULE = ("TLC checks that the cached, staged design refines the page registers; histories are enumerated and sampled from the register "
        "specification under 72 configurations, and drawn at random under random configurations with up to 400 pages")
ASSUME = ["operations of one client at a time", "a crash of the process is emulated by abandoning the manager, a power loss by "
          "restoring the file as of its last fsync (recorded by interposing on fsync/fdatasync)"]


def rand_cases(r, n, length, big=False):
    g = r.rng("disk%d" % big)
    out = []
    for _ in range(n):
        pages = g.choice([300, 400]) if big else g.choice([2, 3, 5, 8, 16, 40])
        hot = g.choice([0, 10, 34, 50])
        cfg = dict(pages=pages, cache=g.choice([0, 1, 3, 6, 10, 20, 64]), hot=hot, warm=g.choice([0, 30, 34, 50]),
                   buffer=1 if big else g.choice([0, 1, 1]), threshold=1000 if big else g.choice([1, 2, 3, 7, 50]),
                   batch=1000 if big else g.choice([1, 2, 5, 64]), interval=1000000 if big else g.choice([0, 1, 1000000, 1000000]),
                   fsync=g.randint(0, 3), level=g.randint(0, 3), wal=g.randint(0, 1), steal=g.randint(0, 1), threads=g.randint(1, 4),
                   direct=1 if g.random() < 0.15 else 0, compress=g.randint(0, 1), dedup=g.randint(0, 1))
        cmds, v = [], 0
        hotset = [g.randrange(pages) for _ in range(2)]

        def page():
            return g.choice(hotset) if g.random() < 0.5 else g.randrange(pages)
        if big:   # more distinct dirty pages than the staging buffer holds
            for p in g.sample(range(pages), pages - g.randint(0, 20)):
                v += 1
                cmds.append(dict(op="write", p=p, v=v))
        for _ in range(length):
            x = g.random()
            if x < 0.32:
                v += 1
                cmds.append(dict(op="write", p=page(), v=v, pr=g.randint(0, 3)))
            elif x < 0.40:
                k = g.randint(1, 6)
                cmds.append(dict(op="wbatch", ps=[page() for _ in range(k)], vs=list(range(v + 1, v + k + 1))))
                v += k
            elif x < 0.66:
                p = page()
                cmds += [dict(op="read", p=p, pr=g.randint(0, 3))] * (g.randint(6, 12) if g.random() < 0.1 else 1)
            elif x < 0.74:
                cmds.append(dict(op="rbatch", ps=[page() for _ in range(g.randint(1, 6))]))
            elif x < 0.84:
                cmds.append(dict(op=g.choice(["file", "synced"]), p=page()))
            elif x < 0.97:
                cmds.append(dict(op=g.choice(["flush", "flush", "force", "sync"])))
            else:
                cmds.append(dict(op=g.choice(["reopen", "crash", "powerloss"])))
        cmds.append(dict(op=g.choice(["reopen", "flush", "force"])))
        cmds += [dict(op="file", p=p) for p in range(pages)]
        if cmds[-pages - 1]["op"] != "flush":
            cmds += [dict(op="synced", p=p) for p in range(pages)]
        cmds += [dict(op="read", p=p) for p in range(pages)]
        out.append(dict(cfg=cfg, cmds=cmds))
    return out


def run(r):
    for sync in ("TRUE", "FALSE"):
        r.mc("DiskMC", consts=dict(Syncs=sync, MaxV=4 if r.thorough else 3, Cap=1), note="Syncs=%s" % sync)
    if r.thorough:
        r.mc("DiskMC", consts=dict(Syncs="TRUE", MaxV=4, Cap=2, Pages="{1, 2, 3}"), note="three pages", timeout=800)
    short = r.gen("DiskGen", 2)
    cases = (short if r.thorough else r.rng("cut").sample(short, 1500)) + r.gen("DiskGen", 14, num=6000 if r.thorough else 900)
    r.check("disk", "DiskTrace", cases, label="generated")
    r.check("disk", "DiskTrace", rand_cases(r, 1200 if r.thorough else 200, 60), label="random")
    r.check("disk", "DiskTrace", rand_cases(r, 40 if r.thorough else 6, 30, big=True), label="staging buffer overflow")
