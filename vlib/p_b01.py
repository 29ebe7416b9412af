LEVEL = "model_checking"
RULE = ("TLC checks the pool specification exhaustively for two frames and three pages; histories are sampled from it and drawn at random "
        "for pools of 1 to 8 frames over several disk configurations; after every operation the set of resident pages is compared too")
ASSUME = ["one client thread", "pages are of the basic page type"]


def rand_cases(r, n, length):
    g = r.rng("pool")
    out = []
    for _ in range(n):
        pool = g.choice([1, 2, 2, 3, 4, 8])
        nh = pool + 2
        cfg = dict(pool=pool, k=g.randint(1, 3), handles=nh + 4, cache=g.choice([0, 1, 4, 10, 64]), hot=g.choice([10, 34]), warm=g.choice([30, 34]),
                   buffer=g.choice([0, 1]), threshold=g.choice([1, 3, 100]), batch=g.choice([1, 2, 64]), fsync=g.randint(0, 2), level=g.randint(1, 3),
                   interval=g.choice([0, 1000000]), steal=g.randint(0, 1), threads=g.randint(1, 3))
        cmds, v, np = [], 0, 0
        maxp = g.choice([pool + 1, pool * 2 + 2, 20])
        # the generator only guesses which handles are held: using a free handle is a no-op the specification knows
        held = {}
        hot = g.choice([0, 1])   # favour many pins or few
        for _ in range(length):
            free = [h for h in range(nh) if h not in held]
            x = g.random()
            if np == 0 or (x < 0.10 and np < min(maxp, 28)):
                if not free:
                    continue
                h = g.choice(free)
                cmds.append(dict(op="new", h=h))
                if len(set(held.values())) < pool:
                    held[h] = np
                    np += 1
                if g.random() < 0.8 and h in held:
                    v += 1
                    cmds.append(dict(op="write", h=h, v=v))
            elif x < 0.34:
                if free:
                    h = g.choice(free)
                    p = g.randrange(np)
                    cmds.append(dict(op="fetch", p=p, h=h))
                    if p in held.values() or len(set(held.values())) < pool:
                        held[h] = p
            elif x < 0.50:
                v += 1
                cmds.append(dict(op="write", h=g.choice(list(held) or [0]), v=v))
            elif x < 0.58:
                cmds.append(dict(op="read", h=g.choice(list(held) or [0])))
            elif x < (0.76 if hot else 0.84):
                h = g.choice(list(held) or [0])
                cmds.append(dict(op="drop", h=h))
                held.pop(h, None)
            elif x < 0.88:
                cmds.append(dict(op=g.choice(["flush", "delete", "disk", "fetchbad", "flush"]), p=g.randrange(np)))
            elif x < 0.91:
                v += 1
                cmds.append(dict(op="wpage", p=g.randrange(np), v=v))
            elif x < 0.94:
                cmds.append(dict(op=g.choice(["free", "flushall"])))
                if cmds[-1]["op"] == "flushall":
                    cmds += [dict(op="file", p=p) for p in range(np)]
            elif x < 0.96:
                cmds.append(dict(op="flushdirty", n=99))
            else:
                k = g.randint(1, 4)
                if len(held) <= nh - 1:
                    ps = [g.randrange(np) for _ in range(k)]
                    cmds.append(dict(op="batch", ps=ps, h=nh))
                    cmds += [dict(op=g.choice(["read", "read", "drop"]), h=nh + j) for j in range(k)]
                    cmds += [dict(op="drop", h=nh + j) for j in range(k)]
        cmds += [dict(op="drop", h=h) for h in range(nh)]
        for p in range(np):
            cmds += [dict(op="fetch", p=p, h=0), dict(op="drop", h=0)]
        cmds += [dict(op="flushall")] + [dict(op="file", p=p) for p in range(np)] + [dict(op="free")]
        out.append(dict(cfg=cfg, cmds=cmds))
    return out


def run(r):
    r.mc("BufferPoolMC", note="2 frames, 3 pages, 2 handles")
    r.mc("BufferPoolMC", consts=dict(Pool=1, NPages=2, NH=3), note="1 frame")
    if r.thorough:
        r.mc("BufferPoolMC", consts=dict(Pool=2, NPages=4, NH=3, NV=2), note="2 frames, 4 pages, 3 handles", timeout=1500)
        r.mc("BufferPoolMC", consts=dict(Pool=3, NPages=4, NH=3, NV=1), note="3 frames, 4 pages, 3 handles", timeout=1500)
    cases = r.gen("BufferPoolGen", 18, num=6000 if r.thorough else 800)
    if r.thorough:
        cases += r.gen("BufferPoolGen", 4)
    for c in cases:   # every write gets its own content
        for k, e in enumerate(c["cmds"]):
            if "v" in e:
                e["v"] = k + 1
    r.check("pool", "BufferPoolTrace", cases, label="generated")
    r.check("pool", "BufferPoolTrace", rand_cases(r, 2000 if r.thorough else 250, 70), label="random")
