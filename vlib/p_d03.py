LEVEL = "model_checking"
RULE = ("TLC checks the engine design (queue, workers, tracker, cancellation, time-outs, stop and restart, waiters) with fairness; command sequences "
        "on the queue, on the tracker under a controlled clock, and on the engine with one worker are recorded and must be behaviours of the "
        "specification; concurrent histories of clients, cancellers and 1-6 workers must be linearizable behaviours of it")
ASSUME = ["an operation reported cancelled or timed out while a worker is already running it may still take effect (at most once)",
          "two submissions that overlap in time may be ordered either way"]
PRS = [1, 5, 6, 7, 8, 9, 10]
DEF = dict(rp=5, wp=7, al=9, wl=8, rl=6, sy=10, sl=10)


def action(g, ids, files=2):
    x = g.random()
    if x < 0.25:
        return dict(a="rp", p=g.choice([0, 0, 1, 1, 2, 3, 5, -1]))
    if x < 0.5:
        return dict(a="wp", p=g.choice([0, 0, 1, 1, 2, 3, 4, -1, -2]) if g.random() < 0.3 else g.randint(0, 3), v=-1 if g.random() < 0.05 else next(ids))
    if x < 0.68:
        return dict(a="al", d=[next(ids) % 250 + 1 for _ in range(g.choice([1, 1, 2, 3, 0]))])
    if x < 0.78:
        return dict(a="wl", p=g.randint(0, 5), d=[next(ids) % 250 + 1 for _ in range(g.choice([1, 2, 3, 0]))])
    if x < 0.92:
        return dict(a="rl", p=g.randint(0, 4), v=g.choice([0, 1, 1, 2, 3, 5]))
    return dict(a=g.choice(["sy", "sl"]))


def queue(r, n, threads):
    g = r.rng("queue%d" % threads)
    out = []
    for _ in range(n):
        ids, cmds = iter(range(1, 10000)), []
        prs = g.choice([[5], [5, 7], PRS])

        def phase(p, k):
            for _ in range(k):
                x = g.random()
                op = "enq" if x < 0.5 else "deq" if x < 0.82 else g.choice(["size", "empty", "peek", "peek"]) if x < 0.97 else g.choice(["drain", "clear"])
                cmds.append(dict(p=p, op=op, id=next(ids), pr=g.choice(prs)) if op == "enq" else dict(p=p, op=op))
        if threads == 0:
            phase(0, g.randint(5, 40))
        else:
            phase(0, g.randint(0, 6))
            for p in range(1, threads + 1):
                phase(p, g.randint(3, 8))
        cmds += [dict(p=9, op=o) for o in ("size", "peek", "drain", "empty")]
        out.append(dict(cfg={}, cmds=cmds))
    return out


def plan(r, n, faults=False):
    g = r.rng("plan%d" % faults)
    out = []
    for _ in range(n):
        ids, cmds, k = iter(range(1, 10000)), [], 0
        for _ in range(g.randint(1, 5)):
            if faults and g.random() < 0.7:
                w = g.choice(["fdb", "flog", "sdb", "slog"])
                if not any(c["op"] == "fault" and c["w"][1:] == w[1:] for c in cmds):
                    cmds.append(dict(op="fault", w=w, n=g.choice([1, 1, 2, 3])))
            for _ in range(g.randint(0, 9)):
                a = action(g, ids)
                d = g.random() < 0.5
                cmds.append(dict(op="submit", c=a, pr=DEF[a["a"]] if d else g.choice(PRS), **{"def": int(d)}))
                k += 1
                if g.random() < 0.1:
                    cmds.append(dict(op="cancel", k=g.randint(1, k + 1)))
            x = g.random()
            cmds += [dict(op=o) for o in g.choice([[], ["qsize", "pending"]])]
            if x < 0.2:
                cmds.append(dict(op=g.choice(["cancelall", "clear"])))
            if x < 0.55:
                cmds.append(dict(op="halt", us=g.choice([0, 50, 200, 500, 1500])))
                cmds += [dict(op="get", k=g.randint(1, max(k, 1)))] if k else []
            else:
                cmds.append(dict(op="run"))
            if g.random() < 0.2 and not faults:
                cmds.append(dict(op="direct", c=dict(a="al", d=[next(ids) % 250 + 1])))
                if g.random() < 0.4:
                    cmds.append(dict(op="truncate", n=g.randint(0, 4)))
        cmds += [dict(op="run"), dict(op="dbsize"), dict(op="pending"), dict(op="qsize")]
        cmds += [dict(op="get", k=j) for j in range(1, k + 1)]
        out.append(dict(cfg={}, cmds=cmds))
    return out


def conc(r, n, threads):
    g = r.rng("conc%d" % threads)
    out = []
    for _ in range(n):
        ids, cmds = iter(range(1, 10000)), []
        hot = g.random() < 0.5

        def do(p):
            a = action(g, ids)
            if hot and a["a"] in ("rp", "wp"):
                a["p"] = 0
            cmds.append(dict(p=p, op="do", m=a, **(dict(pr=g.choice(PRS)) if g.random() < 0.4 else {})))
        for _ in range(g.randint(0, 3)):
            do(0)
        for p in range(1, threads + 1):
            for _ in range(g.randint(2, 6)):
                do(p)
        if g.random() < 0.5:
            for _ in range(g.randint(1, 2)):
                cmds += [dict(p=threads + 1, op=o) for o in ("cxbegin", "cx", "cxend")]
        for p in range(4):
            cmds.append(dict(p=9, op="do", m=dict(a="rp", p=p)))
        cmds.append(dict(p=9, op="do", m=dict(a="al", d=[1])))
        for p in range(6):
            cmds.append(dict(p=9, op="do", m=dict(a="rl", p=p, v=1)))
        cmds.append(dict(p=9, op="pending"))
        out.append(dict(cfg=dict(workers=g.choice([1, 2, 4, 6])), cmds=cmds))
    return out


def track(r, n):
    g = r.rng("track")
    out = []
    for _ in range(n):
        cmds, k, h, v = [], 0, 0, 0
        bursty = g.random() < 0.25
        for _ in range(g.randint(6, 30)):
            x = g.random()
            v += 1
            pick = (lambda: g.randint(max(1, k - 3), k + (1 if g.random() < 0.1 else 0)) if k else 1)
            if x < 0.2 or k == 0:
                cmds.append(dict(op="start", to=int(g.random() < 0.3)))
                k += 1
            elif x < 0.42:
                cmds.append(dict(op=g.choice(["complete", "complete", "fail", "cancel"]), k=pick(), v=v))
            elif x < 0.62:
                many = int(g.random() < 0.5)
                ks = sorted({pick() for _ in range(g.randint(1, 3) if many else 1)})
                cmds.append(dict(op="wait", ks=ks, many=many, short=int(g.random() < 0.2)))
                h += 1
            elif x < 0.74:
                cmds.append(dict(op="poll", h=g.randint(1, max(h, 1))))
            elif x < 0.84:
                cmds.append(dict(op=g.choice(["status", "ispending", "recv"]), k=pick()))
            elif x < 0.89:
                cmds.append(dict(op=g.choice(["adv", "tick", "timeouts"])))
            elif x < 0.91:
                cmds.append(dict(op="cancelall", v=v))
            elif x < 0.95:
                cmds.append(dict(op="stats"))
            elif bursty:
                if h:
                    cmds.append(dict(op="poll", h=h))
                cmds.append(dict(op="burst", n=g.choice([3, 1023, 1030, 1500])))
            else:
                cmds.append(dict(op="events"))
        cmds += [dict(op="poll", h=j) for j in range(1, h + 1)] + [dict(op="recv", k=j) for j in range(1, k + 1)]
        cmds += [dict(op="status", k=j) for j in range(1, k + 1)] + [dict(op="stats")] + ([] if bursty else [dict(op="events")])
        if bursty:
            cmds = [c for c in cmds if c["op"] != "events"]
        out.append(dict(cfg={}, cmds=cmds))
    return out


def trackconc(r, n):
    g = r.rng("trackconc")
    out = []
    for _ in range(n):
        k = g.randint(1, 4)
        cmds = [dict(p=0, op="start", to=int(g.random() < 0.4)) for _ in range(k)]
        v = 0
        for p in (1, 2):   # each operation is decided by somebody who never waits
            order = g.sample(range(1, k + 1), k) if p == 1 else [g.randint(1, k) for _ in range(g.randint(0, 4))]
            for j in order:
                v += 1
                cmds.append(dict(p=p, op=g.choice(["complete", "complete", "fail", "cancel"]), k=j, v=v))
                if g.random() < 0.15:
                    v += 1
                    cmds.append(dict(p=p, op="cancelall", v=v) if g.random() < 0.5 else dict(p=p, op="timeouts"))
        for p in (3, 4):
            for j in [g.randint(1, k) for _ in range(g.randint(1, 3))]:
                cmds.append(dict(p=p, op=g.choice(["await", "await", "await", "status", "ispending"]), k=j, many=g.randint(0, 1)))
        cmds += [dict(p=9, op="recv", k=j) for j in range(1, k + 1)] + [dict(p=9, op="stats")]
        out.append(dict(cfg={}, cmds=cmds))
    return out


def run(r):
    r.mc("IoEngineMC", consts=dict(Ops="{1, 2, 3}", Stops=0) if r.thorough else dict(Stops=2), timeout=800)
    k = 10 if r.thorough else 1
    r.check("ioqueue", "IoQueueTrace", queue(r, 200 * k, 0), label="queue, one client")
    r.check("ioqueue", "IoQueueTrace", queue(r, 300 * k, 2) + queue(r, 200 * k, 3), label="queue, several clients")
    r.check("ioplan", "IoPlanTrace", plan(r, 500 * k), label="one worker: priorities, cancellation, stop and restart")
    r.check("ioplan", "IoPlanTrace", plan(r, 150 * k, True), label="one worker: failing writes and syncs")
    r.check("ioconc", "IoConcTrace", conc(r, 200 * k, 2) + conc(r, 200 * k, 3), label="clients, workers and cancellation", drive_kw=dict(threads=16))
    r.check("iotrack", "IoTrackTrace", track(r, 600 * k), label="tracker under a controlled clock")
    r.check("iotrackconc", "IoTrackLin", trackconc(r, 1500 * k), label="tracker, several clients")
