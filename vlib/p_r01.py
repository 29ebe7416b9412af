LEVEL = "model_checking"
RULE = ("TLC checks that the queue-and-flusher design, with failing writes and syncs, shutdowns and crashes, behaves as the log its clients rely on; "
        "concurrent histories of up to four appenders, with looks at the durable part of the file, are recorded and must be linearizable behaviours of it")
ASSUME = ["what survives a power loss is the file as of its last fsync (recorded by interposing on fsync/fdatasync); with the policy that never "
          "syncs, the file itself", "a failing device is emulated by failing the write or fsync call"]


def cases(r, n, mode, threads):
    g = r.rng("wal" + mode)
    out = []
    for _ in range(n):
        cfg = dict(fsync=g.randint(0, 3), level=g.randint(0, 3), threads=g.randint(1, 3), wal=1)
        ids = iter(range(1, 100000))
        cmds = []

        def look(p):
            return [dict(p=p, op=o) for o in g.choice([["disk"], ["persistent", "disk"], ["next"], ["persistent"], ["persistent", "disk", "persistent"]])]

        def app(p):
            return dict(p=p, op="append", kind=g.choice(["b", "c", "c", "a", "u", "u"]), id=next(ids))

        def phase(p, k):
            for _ in range(k):
                x = g.random()
                if x < 0.65:
                    cmds.extend([app(p)] if x > 0.1 else [app(p) for _ in range(g.randint(2, 12))])
                elif x < 0.92:
                    cmds.extend(look(p))
                else:
                    cmds.append(dict(p=p, op="wait", ms=g.choice([0, 1, 12])))
        if mode == "seq":   # one client: restarts, crashes, shutdowns and faults
            for _ in range(g.randint(1, 4)):
                phase(0, g.randint(0, 8))
                x = g.random()
                if x < 0.45:
                    cmds.append(dict(p=0, op="fault", sync=g.randint(0, 1), after=g.choice([0, 0, 1, 2, 5]), count=g.choice([1, 1, 2, 1000])))
                    phase(0, g.randint(1, 8))
                if g.random() < 0.4:
                    cmds += [dict(p=0, op="shutdown")] + look(0) + [dict(p=0, op="disk")]
                    if g.random() < 0.5:
                        cmds += [app(0), app(0)]
                if g.random() < 0.8:
                    cmds += [dict(p=0, op=g.choice(["crash", "crash", "restart"])), dict(p=0, op="disk"), app(0)] + look(0)
        else:
            phase(0, g.randint(0, 3))
            for p in range(1, threads + 1):
                phase(p, g.randint(2, 7))
            if g.random() < 0.3:
                cmds.insert(g.randrange(len(cmds) + 1), dict(p=g.randint(1, threads), op="fault", sync=g.randint(0, 1),
                                                              after=g.choice([0, 1, 3, 6]), count=1000))
            if g.random() < 0.25:
                cmds.append(dict(p=g.randint(1, threads), op="shutdown"))
            cmds += [dict(p=9, op=o) for o in ("persistent", "disk")]
            x = g.random()
            if x < 0.4:
                cmds += [dict(p=9, op="shutdown"), dict(p=9, op="disk"), app(9)]
            if x < 0.7:
                cmds += [dict(p=9, op=g.choice(["crash", "restart"])), dict(p=9, op="disk"), app(9), dict(p=9, op="persistent"), dict(p=9, op="disk")]
        out.append(dict(cfg=cfg, cmds=cmds))
    return out


def run(r):
    r.mc("WalMC", consts=dict(MaxRec=7 if r.thorough else 6, MaxRestart=2))
    k = 8 if r.thorough else 1
    kw = dict(threads=24, case_timeout_ms=60000)
    r.check("wal", "WalTrace", cases(r, 500 * k, "seq", 1), label="restarts, shutdowns and faults", drive_kw=kw)
    r.check("wal", "WalTrace", cases(r, 400 * k, "two", 2), label="two appenders", drive_kw=kw)
    r.check("wal", "WalTrace", cases(r, 200 * k, "four", 4), label="four appenders", drive_kw=kw)
