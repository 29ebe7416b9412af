LEVEL = "model_checking"
RULE = ("TLC checks the split/merge design exhaustively for small tables; directory histories are generated from its specification, table "
        "histories drawn at random over bucket capacities 1..8 and depths 0..9; after every operation every key is looked up and the directory's shape recorded")
ASSUME = ["keys are distinct", "the buffer pool is large enough to keep the index pages resident (they are memory-only)",
          "at most 9 directory bits"]


def rand_tables(r, n, length):
    g = r.rng("exthash")
    out = []
    for m in range(n):
        cap = g.choice([1, 1, 2, 2, 3, 4, 8])
        mx = g.choice([0, 1, 2, 3, 4, 5, 9])
        nk = g.choice([8, 16, 24])
        cmds, have = [], set()
        bias = g.choice([0.35, 0.5, 0.7])
        for j in range(length):
            k = g.randrange(nk)
            x = g.random()
            if x < 0.04:
                cmds.append(dict(op="get", k=k))
            elif x < bias or not have:
                # only keys not in the table are inserted; a refused key is unknown to the generator, so it is removed first
                if k in have:
                    cmds.append(dict(op="del", k=k))
                cmds.append(dict(op="ins", k=k, v=j + 1))
                have.add(k)
            else:
                if g.random() < 0.8:
                    k = g.choice(sorted(have))
                cmds.append(dict(op="del", k=k))
                have.discard(k)
        for k in sorted(have)[:g.choice([0, 30])]:
            cmds.append(dict(op="del", k=k))
        out.append(dict(cfg=dict(cap=cap, max=mx, head=g.choice([0, 0, 1, 2]), keys=nk, kt=g.choice(["int", "str", "big"]), pool=600), cmds=cmds))
    return out


def rand_dirs(r, n, length):
    g = r.rng("extdir")
    out = []
    for m in range(n):
        mx = g.choice([1, 2, 3, 4])
        cmds = [dict(op=g.choice(["split", "split", "split2", "merge", "merge", "shrink", "grow", "index", "mask", "image"]),
                     i=g.randrange(16), h=g.randrange(2 ** 31 - 1), b=101 + j) for j in range(length)]
        out.append(dict(cfg=dict(max=mx, verify=1), cmds=cmds))
    return out


def run(r):
    r.mc("ExtHashMC", note="depth 2, capacity 1, 6 keys")
    r.mc("ExtHashMC", consts=dict(Max=2, Cap=2, NK=7), note="depth 2, capacity 2")
    r.mc("ExtHashMC", consts=dict(Max=3, Cap=1, NK=12 if r.thorough else 10), note="depth 3, capacity 1")
    r.mc("ExtHashMC", consts=dict(Max=3, Cap=2, NK=12 if r.thorough else 10), note="depth 3, capacity 2", timeout=900)
    cases = r.gen("ExtDirGen", 16, num=4000 if r.thorough else 600)
    if r.thorough:
        cases += r.gen("ExtDirGen", 4)
    for c in cases:
        for k, e in enumerate(c["cmds"]):
            e["b"] = 101 + k
    r.check("extdir", "ExtDirTrace", cases, label="directory, generated")
    r.check("extdir", "ExtDirTrace", rand_dirs(r, 3000 if r.thorough else 300, 40), label="directory, random")
    r.check("exthash", "ExtHashTrace", rand_tables(r, 1500 if r.thorough else 220, 60), label="table")
