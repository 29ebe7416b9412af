LEVEL = "model_checking"
RULE = "every operation history up to a bound from the specification (TLC breadth-first), sampled longer ones, and seeded random histories on larger pools"
ASSUME = ["accesses are separated by at least one microsecond of wall-clock time, so that timestamps order them"]


def rand_cases(r, n, length):
    g = r.rng("lruk")
    out = []
    for _ in range(n):
        size = g.choice([1, 2, 3, 5, 8, 12])
        k = g.choice([1, 2, 2, 3, 4])
        cmds = []
        burst = g.random() < 0.5
        for _ in range(length):
            f = g.randint(0, size - 1)
            x = g.random()
            if x < 0.45:
                cmds.append(dict(op="access", f=f, t=g.randint(0, 3)))
            elif x < 0.70:
                cmds.append(dict(op="set", f=f, b=1 if g.random() < 0.7 else 0))
            elif x < 0.85:
                cmds.append(dict(op="evict"))
            elif x < 0.90:
                cmds.append(dict(op="remove", f=f))
            else:
                cmds.append(dict(op=g.choice(["frames", "evictable"])))
        if burst:   # drain: the complete eviction order is observable
            cmds += [dict(op="evict")] * (size + 1) + [dict(op="evictable")]
        out.append(dict(cfg=dict(size=size, k=k), cmds=cmds))
    return out


def run(r):
    for k in (1, 2, 3):
        r.mc("LruKMC", consts=dict(K=k, MaxClk=9 if r.thorough else 7), note="K=%d" % k, timeout=900)
    r.mc("LruKMC", consts=dict(F="{1, 2, 3, 4}", MaxClk=8 if r.thorough else 7), note="four frames", timeout=900)
    cases = r.gen("LruKGen", 4 if r.thorough else 3) + r.gen("LruKGen", 14, num=4000 if r.thorough else 500)
    r.check("lruk", "LruKTrace", cases, label="generated")
    r.check("lruk", "LruKTrace", rand_cases(r, 1500 if r.thorough else 250, 60), label="random")
