LEVEL = "model_checking"
RULE = ("sequences of log records with boundary-valued fields are written, the file is damaged at a chosen byte, and every scan, point read and decode "
        "is checked against the specification of the log as a sequence of framed records with a first damaged byte")
ASSUME = ["damage is anything the interrupted or failed write of a tail can leave: cut, zeroed, changed, overwritten or added bytes; a change that "
          "happens to keep a 32-bit checksum valid is not considered"]


def rec(g):
    return [g.randint(1, 9), g.randint(0, 6), g.randint(0, 6), g.randint(0, 6), g.randint(0, 6), g.randint(0, 3),
            g.choice([0, 1, -1, 5, 1 << 20, (1 << 31) - 1]), g.choice([0, 1, 7, 30, 127, 128, 300]) if g.random() < 0.95 else 3900,
            g.choice([0, 1, 6]), g.choice([0, 1, 30, 500])]


def cases(r, n, sweep):
    g = r.rng("codec%d" % sweep)
    out = []
    for k in range(n):
        cfg = dict(fsync=g.randint(0, 3), threads=4)
        m = g.randint(1, 4) if sweep else g.randint(1, 14)
        cmds = [dict(op="put", f=rec(g)) for _ in range(m)]
        cmds += [dict(op="scan")]
        for _ in range(3):
            j = g.randint(1, m)
            cmds += [dict(op="decode", at=j, cut=100000, flip=0), dict(op="decode", at=j, cut=g.randint(0, 60), flip=0),
                     dict(op="decode", at=j, cut=100000, flip=g.randint(1, 4000)), dict(op="read", at=j), dict(op="scan", at=j)]
        cmds.append(dict(op="junk", seed=g.randrange(1 << 30), n=g.choice([0, 3, 4, 5, 8, 20, 60, 300])))
        for _ in range(g.choice([1, 1, 1, 2])):
            cmds += [dict(op="damage", how=g.choice(["cut", "cut", "cut", "zero", "zeropage", "flip", "flip", "ones", "over", "append"]),
                          b=g.randrange(60 * m + 20) if g.random() < 0.6 else g.randrange(400 * m), bit=g.randint(0, 7), n=g.choice([1, 3, 4, 30, 200])),
                     dict(op="scan")]
            for _ in range(3):
                j = g.randint(1, m)
                cmds += [dict(op="read", at=j), dict(op="scan", at=j)]
        out.append(dict(cfg=cfg, cmds=cmds))
    return out


def every_byte(r, n):
    """the same short log damaged at every single byte, in several ways"""
    g = r.rng("sweep")
    out = []
    for k in range(n):
        puts = [dict(op="put", f=rec(g)[:7] + [g.choice([0, 3, 9]), 1, 2]) for _ in range(3)]
        for how in ("cut", "zero", "flip", "zeropage"):
            for b in range(0, 230, 1 if r.thorough else 3):
                out.append(dict(cfg=dict(threads=4), cmds=puts + [dict(op="damage", how=how, b=b + k % 3, bit=b % 8, n=0), dict(op="scan"), dict(op="read", at=2)]))
    return out


def run(r):
    k = 8 if r.thorough else 1
    kw = dict(threads=24, case_timeout_ms=60000)
    r.check("logcodec", "LogCodecTrace", cases(r, 900 * k, False), label="random", drive_kw=kw)
    r.check("logcodec", "LogCodecTrace", every_byte(r, 3 * k), label="damage at every byte", drive_kw=kw)
