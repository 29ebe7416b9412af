"""Histories of transactions over multi-version rows, shared by M01..M04."""
ISOS = ["RU", "RC", "RR", "SER", "SNAP"]
ALL = ISOS + ["RR", "SNAP"]


def prefix():
    return [dict(op="begin", iso="RC"), dict(op="ins", t=1, tb=0, how=0, n=1, l=5), dict(op="ins", t=1, tb=0, how=0, n=2, l=5), dict(op="commit", t=1)]


def generated(r, depth, num):
    out = []
    for c in r.gen("MvccGen", depth, num=num):
        cmds, t, k, live = prefix(), 1, 2, []
        for e in c["cmds"]:
            e = dict(e)
            e.pop("r", None)
            cmds.append(e)
            if e["op"] == "begin":
                t += 1
                live.append(t)
            elif e["op"] == "ins":
                k += 1
                e["how"] = 0
            elif e["op"] in ("commit", "abort", "doom") and e["t"] in live:
                live.remove(e["t"])
            # everybody looks at everything after every step
            for x in live:
                cmds += [dict(op="read", how=(x + j) % 2, t=x, k=j) for j in range(1, k + 1)]
        cmds += [dict(op="wm"), dict(op="locks")] + closing(t + 1, k)
        out.append(dict(cfg=c["cfg"], cmds=cmds))
    return out


def closing(t, nk):
    """a fresh reader of each kind looks at all rows"""
    out = []
    for j, iso in enumerate(["RR", "RU", "RC"]):
        out.append(dict(op="begin", iso=iso))
        out += [dict(op="read", how=j % 2, t=t + j, k=k) for k in range(1, nk + 1)]
        out += [dict(op="scan", t=t + j, tb=tb) for tb in (0, 1)]
    return out


def history(g, length, isos=ALL, w=None, long=False, maxlive=4, maxrows=12):
    """w: weights of begin, ins, upd, del, read, scan, commit, abort, doom, gc, wm, locks, late (writes by finished transactions)"""
    w = {**dict(begin=3, ins=3, upd=8, **{"del": 1}, read=8, scan=1, commit=2, abort=2, doom=0.3, gc=1, wm=1, locks=0.3, late=0.5, churn=0.3), **(w or {})}
    cmds = prefix()
    st, alive, rows = ["COM"], [], [(0, 5), (0, 5)]       # transaction states, live transactions, rows (table, length)
    ops, ws = zip(*w.items())
    lens = [900, 1100, 1500] if long == "big" else [0, 5, 5, 5, 60, 400, 1100] if long else [5]
    nt = 1
    # rows touched by live transactions, so that conflicts and long chains are common
    hot = g.randint(1, 4)
    while len(cmds) < length:
        op = g.choices(ops, ws)[0]
        doomed = [x for x in range(1, nt + 1) if st[x - 1] == "DOOMED"]
        if op == "begin" or not alive:
            if len(alive) >= maxlive:
                continue
            nt += 1
            st.append("RUN")
            alive.append(nt)
            cmds.append(dict(op="begin", iso=g.choice(isos)))
            continue
        t = g.choice(alive)
        k = g.randint(1, min(hot, len(rows))) if g.random() < 0.6 else g.randint(1, len(rows))
        v = dict(n=g.randrange(1000), l=g.choice(lens))
        if op == "ins":
            if len(rows) < maxrows:
                tb = g.randint(0, 1)
                cmds.append(dict(op="ins", t=t, tb=tb, how=g.randint(0, 2), **v))
                rows.append((tb, v["l"]))
        elif op == "upd":
            cmds.append(dict(op="upd", t=t, k=k, **v))
        elif op == "del":
            cmds.append(dict(op="del", t=t, k=k))
        elif op == "read":
            for x in (alive if g.random() < 0.3 else [t]):
                cmds.append(dict(op="read", t=x, k=k, how=g.randint(0, 1)))
        elif op == "scan":
            cmds.append(dict(op="scan", t=t, tb=g.randint(0, 1)))
        elif op == "commit":
            alive.remove(t)
            st[t - 1] = "COM"
            cmds.append(dict(op="commit", t=t))
        elif op == "abort":
            if doomed and g.random() < 0.7:
                t = g.choice(doomed)
            else:
                alive.remove(t)
            st[t - 1] = "ABT"
            cmds.append(dict(op="abort", t=t))
        elif op == "doom":
            alive.remove(t)
            st[t - 1] = "DOOMED"
            cmds.append(dict(op="doom", t=t))
        elif op == "late":
            t = g.randint(1, nt)
            x = g.choice(["upd", "del", "commit", "abort", "ins"])
            if t in alive:
                continue
            if x == "ins":
                cmds.append(dict(op="ins", t=t, tb=0, how=g.randint(0, 2), **v))
            elif x in ("upd", "del"):
                cmds.append(dict(op=x, t=t, k=k, **(v if x == "upd" else {})))
            else:
                cmds.append(dict(op=x, t=t))
                if x == "abort" and st[t - 1] == "DOOMED":
                    st[t - 1] = "ABT"
        elif op == "churn":
            cmds.append(dict(op="churn", n=g.choice([1, 5])))
        else:
            cmds.append(dict(op=op))
    for x in [j + 1 for j, y in enumerate(st) if y == "DOOMED"]:
        cmds.append(dict(op="abort", t=x))
    for x in alive:
        cmds += [dict(op="read", t=x, k=k, how=k % 2) for k in range(1, len(rows) + 1)]
        cmds.append(dict(op=g.choice(["commit", "abort"]), t=x))
    return cmds + [dict(op="locks"), dict(op="wm")] + closing(nt + 1, len(rows))


def cases(g, num, isos=ALL, w=None, lengths=(30, 60, 120), pools=(64,), long=False, maxlive=4):
    return [dict(cfg=dict(pool=g.choice(pools)), cmds=history(g, g.choice(lengths), isos, w, long, maxlive)) for _ in range(num)]


def concurrent(g, num, isos=ALL, repeat=3, nthreads=(2, 3), ops=(3, 6), abort=0.25):
    """Scripts for several threads, each running transactions of its own over the same few rows."""
    out = []
    for _ in range(num):
        nk = g.randint(2, 3)
        cmds = [dict(p=0, op="begin", t=1, iso="RC")]
        cmds += [dict(p=0, op="ins", t=1, tb=g.randint(0, 1), how=0, k=k, n=k, l=5) for k in range(1, nk + 1)]
        cmds += [dict(p=0, op="commit", t=1)]
        nt = 1
        for p in range(1, g.choice(nthreads) + 1):
            for _ in range(g.choice([1, 1, 2])):
                nt += 1
                t = nt
                cmds.append(dict(p=p, op="begin", t=t, iso=g.choice(isos)))
                order = list(range(1, nk + 1))
                g.shuffle(order)
                reader = g.random() < 0.4
                for j in range(g.choice(ops)):
                    k = order[j % nk]
                    x = g.random()
                    if reader or x < 0.3:
                        cmds.append(dict(p=p, op="read", t=t, k=k, how=g.randint(0, 1)))
                    elif x < 0.9:
                        cmds.append(dict(p=p, op="upd", t=t, k=k, n=100 * t + j, l=5))
                    elif x < 0.95:
                        cmds.append(dict(p=p, op="del", t=t, k=k))
                    else:
                        cmds.append(dict(p=p, op="gc"))
                cmds.append(dict(p=p, op="abort" if g.random() < abort else "commit", t=t))
        nt += 1
        cmds += [dict(p=9, op="begin", t=nt, iso="RR")] + [dict(p=9, op="read", t=nt, k=k, how=0) for k in range(1, nk + 1)]
        out += [dict(cfg=dict(pool=64, nt=nt, nk=nk), cmds=cmds)] * repeat
    return out


def conc_check(r, cases, label="concurrent clients"):
    r.check("mvccconc", "MvccLin", cases, label=label)
