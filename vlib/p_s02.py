LEVEL = "model_checking"
RULE = ("the specification of databases, tables and indexes (a name is accepted exactly when it is new in its scope and its references exist; ids are never shared; a refused request changes nothing; objects are seen "
        "in their own database only) is model-checked; all short and many long random histories of creating, switching, inserting, committing and rolling back are run through the real catalog and executors, and "
        "every look at every lookup, table and index must show exactly what the specification says")
ASSUME = ["indexes are on one column; an index's columns exist", "the catalog snapshot file written at a restart is not covered: nothing that restarts an instance compiles without network in this sandbox"]
LOOK = dict(op="look")


def looked(cases):
    for c in cases:
        c["cmds"] = [x for e in c["cmds"] for x in (e, LOOK)]
        for e in c["cmds"]:
            if "fk" in e and not e["fk"]:
                e["fk"] = []
    return cases


def random_case(g, n):
    dbs, known, cmds = ["default"], {("default", "a"): 0}, []
    cols, here, cur = ["x", "y"], {"default": []}, "default"
    tn = lambda: g.choice(["a", "b", "ab", "a", "b", "ba"])
    for _ in range(n):
        x = g.random()
        if x < 0.12:
            d = g.choice(["d1", "d2", "d1", "default", "D1"])
            cmds.append(dict(op="createdb", n=d))
            here.setdefault(d, [])
        elif x < 0.27:
            d = g.choice(list(here) * 2 + ["zz", ""])
            cmds.append(dict(op="use", n=d))
            cur = d if d in here else cur
        elif x < 0.48:
            t = tn()
            fk = [] if g.random() < 0.8 else [g.choice("abz"), g.choice(["x", "y", "w"])]
            if fk and fk[0] == t:
                fk = []
            cmds.append(dict(op="table", n=t, cols=cols, fk=fk, how=g.choice(["api", "exec"])))
            if not fk and t not in here[cur]:
                here[cur].append(t)
        elif x < 0.62:
            cmds.append(dict(op="index", n=g.choice("ijk"), t=tn(), c=g.randint(0, 1), how=g.choice(["api", "api", "exec"])))
        elif x < 0.85:
            t = g.choice(here[cur]) if here[cur] and g.random() < 0.95 else "zz"
            cmds.append(dict(op="row", t=t, v=[g.randint(0, 3), g.randint(0, 3)], end=g.choice(["commit", "commit", "abort"])))
        else:
            known = [d for d in here if here[d]]
            if known:
                a, b = g.choice(known), g.choice(known)
                cmds.append(dict(op="pair", a=[a, g.choice(here[a]), [g.randint(0, 3), g.randint(0, 3)]], b=[b, g.choice(here[b]), [g.randint(0, 3), g.randint(0, 3)]],
                                 ea=g.choice(["commit", "abort"]), eb=g.choice(["commit", "abort"]), ord=g.randint(0, 1)))
        if g.random() < 0.4:
            cmds.append(LOOK)
    return dict(cfg=dict(pool=64), cmds=cmds + [LOOK])


def run(r):
    g = r.rng("catalog")
    kw = dict(case_timeout_ms=60000)
    r.mc("CatalogMC", consts=dict(MaxRows=1 if r.thorough else 0))
    r.check("catalog", "CatalogTrace", looked(r.gen("CatalogGen", 2)), "all short histories", drive_kw=kw)
    r.check("catalog", "CatalogTrace", looked(r.gen("CatalogGen", 14, num=200 if not r.thorough else 3000)), "generated histories", drive_kw=kw)
    for n in (12, 40):
        r.check("catalog", "CatalogTrace", [random_case(g, n) for _ in range(150 if not r.thorough else 2500)], "random histories of %d" % n, drive_kw=kw)
