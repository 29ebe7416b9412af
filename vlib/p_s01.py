LEVEL = "model_checking"
RULE = ("all histories of two clients and up to 6 (thorough: 8) requests are model-checked on the session specification (what a client sees is a committed table, and only COMMIT or a "
        "statement outside a transaction changes it); seeded random request histories of up to three clients - BEGIN at every isolation level, statements, failing statements, COMMIT, ROLLBACK, "
        "disconnects - run on a whole database instance through its request interface, from SQL text to result rows, and every answer must be the specification's")
ASSUME = ["requests are processed one at a time", "clients write disjoint rows, so that no statement waits for another client's (conflicting writes: M03, C01)",
          "a statement that fails inside a transaction may or may not abort it; if it does, only ROLLBACK or COMMIT (which fails) end it"]


def cases(r):
    g = r.rng("sess")
    out = []
    for m in range(1500 if r.thorough else 240):
        pk = int(g.random() < 0.75)
        nc = g.choice([1, 2, 2, 3, 3])
        cs = list(range(1, nc + 1))
        sql = g.choice([0, 0.5, 1])
        on = {c: False for c in cs}
        tx = {c: False for c in cs}
        com = {}
        own = {c: {} for c in cs}
        cmds = []
        e = lambda op, c, **k: cmds.append(dict(dict(op=op, c=c, iso="", k=0, k2=0, v=0), **k))
        focus = g.choice(["mix", "mix", "tx", "err"])
        for j in range(g.randint(12, 45)):
            c = g.choice(cs)
            if not on[c]:
                if g.random() < 0.06:
                    e(g.choice(["sel", "begin", "commit", "rollback"]), c, iso="RC")
                e("open", c)
                on[c] = True
                continue
            x = g.random()
            see = lambda k: own[c].get(k, com.get(k, 0)) if tx[c] else com.get(k, 0)
            ks = [c * 10 + y for y in (1, 2, 3, 4)]

            def put(k, v):
                (own[c] if tx[c] else com)[k] = v
            if x < (0.12 if focus != "tx" else 0.22):
                via = int(g.random() < sql)
                e("begin", c, iso=g.choice(["RU", "RC", "RR", "SE", "SN"] + [""] * via), via=via, v=g.randrange(3))
                tx[c] = True
            elif x < 0.27:
                e("commit", c, via=int(g.random() < sql), v=g.randrange(5))
                if tx[c]:
                    com.update(own[c])
                tx[c], own[c] = False, {}
            elif x < 0.36:
                e("rollback", c, via=int(g.random() < sql), v=g.randrange(3))
                tx[c], own[c] = False, {}
            elif x < 0.39:
                e("close", c)
                on[c], tx[c], own[c] = False, False, {}
            elif x < 0.47:
                e("selk", c, k=g.choice(ks + [y * 10 + 1 for y in cs]))
            elif x < 0.66:
                e("sel", c)
            elif x < 0.80:
                k = g.choice(ks)
                two = g.random() < 0.3
                k2 = g.choice([y for y in ks if y != k])
                v = g.randint(1, 90)
                full = see(k) or (two and see(k2))
                if full and not (pk and (focus == "err" or g.random() < 0.2)):
                    continue
                e("ins2" if two else "ins", c, k=k, k2=k2, v=v)
                if not full:
                    put(k, v)
                    if two:
                        put(k2, v)
            elif x < 0.88:
                k, v = g.choice(ks), g.randint(1, 90)
                e("upd", c, k=k, v=v)
                if see(k):
                    put(k, v)
            elif x < 0.90 and nc == 1:
                v = g.randint(1, 9)
                e("updall", c, v=v)
                for k in ks:
                    if see(k):
                        put(k, see(k) + v)
            elif x < 0.96:
                k = g.choice(ks)
                e("del", c, k=k)
                if see(k):
                    put(k, 0)
            elif pk:
                e("bad", c, k=g.randrange(5))
        for c in cs:
            if on[c] and g.random() < 0.5:
                e("commit" if g.random() < 0.5 else "close", c)
        e("open", 1) if not on[1] else None
        e("sel", 1)
        out.append(dict(cfg=dict(pool=g.choice([16, 64, 64]), pk=pk), cmds=cmds))
    return out


def run(r):
    r.mc("SessionMC", consts=dict(D=8) if r.thorough else None, note="two clients, all request histories", timeout=1500)
    r.check("sess", "SessionTrace", cases(r), label="sessions")
