from . import locks
LEVEL = "model_checking"
RULE = ("the detector's depth-first search is model-checked over all graphs of three (thorough: four) transactions; all edge histories up to length 4 over three "
        "transactions and random ones over up to nine run on the real detector, its background thread included; deadlocks are also produced through real lock requests, "
        "and a transaction must be named a victim exactly when it is the youngest of a cycle of the lock table's waits")
ASSUME = ["the background thread gets to run within a second (it polls every 50 ms)"]


def edges(g, n, length):
    out = []
    for _ in range(n):
        nv = g.choice([2, 3, 4, 5, 7, 9])
        ids = g.sample(range(1, 40), nv)
        cmds = []
        dense = g.choice([0.5, 0.7, 0.85])
        acyclic = g.random() < 0.4
        for _ in range(length):
            x = g.random()
            a, b = g.choice(ids), g.choice(ids)
            if x < dense:
                if acyclic and g.random() < 0.93:
                    a, b = sorted((a, b))
                    if a == b:
                        continue
                cmds.append(dict(op="add", a=a, b=b))
            elif x < dense + 0.08:
                cmds.append(dict(op="rem", a=a))
            else:
                cmds.append(dict(op="cycle"))
        out.append(dict(cfg=dict(n=nv), cmds=cmds + [dict(op="cycle")]))
    return out


def watched(g, n):
    out = []
    for k in range(n):
        ids = g.sample(range(1, 30), g.choice([3, 4, 5]))
        cmds = [dict(op="watch")] if k % 2 else []
        for _ in range(2):
            for _ in range(g.choice([2, 3, 4, 6])):
                a, b = g.choice(ids), g.choice(ids)
                if a != b:
                    cmds.append(dict(op="add", a=a, b=b))
            if not k % 2 and g.random() < 0.5:
                cmds.append(dict(op="watch"))
            cmds.append(dict(op="poll", ms=1500 if any(c["op"] == "watch" for c in cmds) else 150))
            cmds.append(dict(op="rem", a=g.choice(ids)))
        out.append(dict(cfg=dict(n=3), cmds=cmds))
    return out


def ring(g, nx):
    """lock requests that make a ring of waits among some of the transactions, with by-standers"""
    order = list(range(1, nx + 1))
    g.shuffle(order)
    k = g.randint(2, nx)
    rg = order[:k]
    rows = g.random() < 0.5
    cmds = []
    if rows:
        cmds += [dict(op="lockT", t=t, tb=1, m="IX") for t in order]
        lock = lambda t, x: dict(op="lockR", t=t, tb=1, m="X", row=10 + x)
    else:
        lock = lambda t, x: dict(op="lockT", t=t, tb=x, m="X")
    cmds += [lock(t, j + 1) for j, t in enumerate(rg)]
    close = g.random() < 0.7
    w = [lock(t, (j + 1) % k + 1) for j, t in enumerate(rg)][:k if close else k - 1]
    g.shuffle(w)
    cmds += w
    for t in order[k:]:
        cmds.append(lock(t, g.randint(1, k)))
    if g.random() < 0.4:   # somebody gives up: the ring may open
        cmds.append(dict(op="force", t=g.choice(order)))
    for t in g.sample(order, min(nx, 2)):
        cmds.append(dict(op="dead", t=t, ms=1500))
    return dict(cfg=dict(iso=["SER"] * nx, nt=nx, nr=nx), cmds=cmds)


def mixed(g, n):
    out = []
    for _ in range(n):
        c = locks.cases(g, 1, ["SER"], 0.1, 0.0, 16)[0]
        c["cmds"] = [x for x in c["cmds"] if x["op"] != "all"] + [dict(op="dead", t=g.randint(1, len(c["cfg"]["iso"])), ms=1500)]
        out.append(c)
    return out


def run(r):
    r.mc("DeadlockMC", consts=dict(N=4 if r.thorough else 3), timeout=850)
    r.check("deadlock", "DeadlockTrace", r.gen("DeadlockGen", 5 if r.thorough else 4), label="all short edge histories")
    g = r.rng("dead")
    r.check("deadlock", "DeadlockTrace", edges(g, 6000 if r.thorough else 600, 25), label="random edges")
    kw = dict(drive_kw=dict(threads=16))
    r.check("deadlock", "DeadlockTrace", watched(g, 400 if r.thorough else 48), label="background detection", **kw)
    r.check("locks", "LockTableTrace", [ring(g, g.choice([2, 3, 4])) for _ in range(600 if r.thorough else 80)] + mixed(g, 600 if r.thorough else 60),
            label="deadlocks through lock requests", **kw)
