LEVEL = "model_checking"
RULE = ("TLC checks the redo/undo algorithm against the committed-effect function of the log, with pages flushed at any moment and a crash "
        "anywhere; histories are sampled from the specification and drawn at random with up to six rows, four transactions and five crashes")
ASSUME = ["the driver plays the transaction layer: two-phase locking per row, each change logged after it is applied, pages written only after "
          "the log records of their changes (the SQL layer of this code base logs no row changes)",
          "a crash keeps a prefix of the log that contains everything known durable, followed by remains of the next record"]


def rand_cases(r, n, length, salt):
    g = r.rng("recovery" + salt)
    out = []
    for _ in range(n):
        np_, nt, nk = g.randint(1, 4), g.randint(1, 4), g.randint(1, 6)
        cfg = dict(pool=16, init=[g.randint(0, 1) for _ in range(np_)])
        act, cmds, room = {}, [], [3000] * np_   # act: t -> rows it wrote
        com, v = {}, 0                           # com: what committed transactions left of each row

        def one():
            nonlocal v
            t = g.randint(1, nt)
            if t not in act:
                act[t] = {}
                return dict(op="begin", t=t)
            x = g.random()
            if x < 0.15:
                for k, w in act.pop(t).items():
                    com[k] = "gone" if w == "mark" else w
                return dict(op="commit", t=t)
            if x < 0.22:
                act.pop(t)
                return dict(op="abort", t=t)
            if x < 0.27:
                return dict(op="newpage", t=t, p=g.randrange(np_))
            k = g.randint(1, nk)
            if any(k in w for s, w in act.items() if s != t):
                return None
            mine = act[t]
            cur = mine.get(k, com.get(k))
            v += 1
            l = g.choice([0, 1, 5, 30, 60, 60, 90])
            p = g.randrange(np_)
            if cur is None or cur == "gone":
                if room[p] < 200:
                    return None
                room[p] -= 150
                free = [j for j in range(1, nk + 1) if j != k and com.get(j, "gone") == "gone" and not any(j in w for w in act.values())]
                others = [s for s in act if s != t]
                if free and others and room[p] >= 400 and g.random() < 0.5:
                    t2, k2 = g.choice(others), g.choice(free)
                    room[p] -= 150
                    mine[k] = act[t2][k2] = 1
                    return dict(op="ins2", t=t, k=k, t2=t2, k2=k2, p=p, n=v, l=l)
                mine[k] = 1
                return dict(op="ins", t=t, k=k, p=p, n=v, l=l)
            if cur == "mark":
                if g.random() < 0.5:
                    mine[k] = "gone"
                    return dict(op="apply", t=t, k=k)
                mine[k] = 1
                return dict(op="unmark", t=t, k=k)
            if g.random() < 0.3:
                mine[k] = "mark"
                return dict(op="mark", t=t, k=k)
            mine[k] = 1
            return dict(op="upd", t=t, k=k, n=v, l=l)

        # commits are forced, so `com` is exact across crashes
        for _ in range(length):
            x = g.random()
            c = None
            if x < 0.05:
                cmds.append(dict(op="crash", d=g.choice([0, 0, 1, 2, 3, 10, 100]), torn=g.randint(0, 6)))
                act = {}
                c = dict(op="recover", again=0)
                cmds.append(c)
                for _ in range(g.choice([0, 0, 0, 1, 2])):
                    y = g.random()
                    if y < 0.4:
                        cmds.append(dict(op="flush", p=g.randrange(np_)))
                    elif y < 0.7:
                        cmds.append(dict(op="recover", again=1))
                    else:
                        cmds += [dict(op="crash", d=g.choice([0, 1, 2]), torn=g.randint(0, 6)), dict(op="recover", again=0)]
                cmds += [dict(op="read", k=k) for k in range(1, nk + 1)] + [dict(op="scan")]
                continue
            if x < 0.12:
                c = dict(op="flush", p=g.randrange(np_))
            elif x < 0.25:
                c = dict(op="read", k=g.randint(1, nk))
            else:
                c = one()
            if c:
                cmds.append(c)
        cmds += [dict(op="crash", d=g.choice([0, 1, 3, 100]), torn=g.randint(0, 6)), dict(op="recover", again=0)]
        cmds += [dict(op="read", k=k) for k in range(1, nk + 1)]
        cmds += [dict(op="scan"), dict(op="recover", again=1)] + [dict(op="read", k=k) for k in range(1, nk + 1)] + [dict(op="scan")]
        out.append(dict(cfg=cfg, cmds=cmds))
    return out


def run(r):
    r.mc("RecoveryMC", timeout=300)
    if r.thorough:
        r.mc("RecoveryMC", consts=dict(MaxLog=7, K="{1}"), note="one row, longer log", timeout=800)
    gen = r.gen("RecoveryGen", 14, num=6000 if r.thorough else 800)
    for c in gen:
        if c["cmds"] and c["cmds"][-1]["op"] == "crash":
            c["cmds"].append(dict(op="recover", again=0))
        c["cmds"] += [dict(op="read", k=1), dict(op="read", k=2), dict(op="crash", d=2, torn=len(c["cmds"]) % 7), dict(op="recover", again=0),
                      dict(op="read", k=1), dict(op="read", k=2), dict(op="scan")]
    kw = dict(threads=48, case_timeout_ms=200000)   # each log read waits for a polling I/O worker: mostly idle time
    r.check("recovery", "RecoveryTrace", gen, label="generated", drive_kw=kw)
    r.check("recovery", "RecoveryTrace", rand_cases(r, 2500 if r.thorough else 250, 60, "a"), label="random", drive_kw=kw)
    r.check("recovery", "RecoveryTrace", rand_cases(r, 200 if r.thorough else 12, 160, "b"), label="long random", drive_kw=kw)
