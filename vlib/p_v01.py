LEVEL = "model_checking"
RULE = ("the value specification (exact numbers, order, three-valued comparison, arithmetic, conversion) is model-checked against TLC's own integers; all pairs of boundary values of "
        "every type, and seeded random ones, are compared, computed with, converted, hashed, stored and read back by the real code along every path (values, comparison, arithmetic and "
        "binary expressions, in scans and in joins) and each result must be one the specification allows")
ASSUME = ["real numbers that are not multiples of 2^-20, and values of incompatible types, are only required to compare symmetrically",
          "the result of real arithmetic is only required to be exact when it has at most 53 significant bits"]

INTS = {"TinyInt": 8, "SmallInt": 16, "Integer": 32, "BigInt": 64}
VIAS = ["val", "expr", "join", "bin"]


def ints(t):
    h = 1 << (INTS[t] - 1)
    base = {-h, -h + 1, -1, 0, 1, 2, 7, h - 2, h - 1}
    for k in (8, 16, 24, 32, 53):
        for d in (-1, 0, 1):
            for s in (1, -1):
                n = s * ((1 << (k - (1 if k in (8, 16, 32) else 0))) + d)
                if -h <= n < h:
                    base.add(n)
    return [[t, str(n)] for n in sorted(base)]


def reals(t):
    xs = ["0", "-0.0", "1", "-1", "0.5", "-0.5", "1.5", "2.25", "127", "128", "-129", "32767", "32768", "2147483647", "2147483648", "-2147483649",
          "16777216", "16777217", "16777218", "9007199254740992", "9007199254740993", "9007199254740994", "9223372036854775807", "-9223372036854775808", "1e19", "-1e19",
          "1e30", "3.4e38", "0.1", "1e-7", "NaN", "inf", "-inf"] + (["1e300", "4.9e-324", "16777217.5"] if t == "Decimal" else ["1e-44"])
    return [[t, x] for x in xs]


def others():
    out = [["Boolean", "0"], ["Boolean", "1"]]
    out += [["Timestamp", x] for x in ("0", "1", "86400", "4294967296", "9223372036854775808", "18446744073709551615")]
    for t in ("Date", "Time"):
        out += [[t, x] for x in ("-2147483648", "-1", "0", "1", "86399", "2147483647")]
    out += [["Interval", x] for x in ("-9223372036854775808", "-1", "0", "1", "9223372036854775807")]
    ss = ["", "a", "A", "ab", "b", "aa", "10", "9", "-5", "é", "ab ", " ", "\u0000", "NULL", "true", "z" * 40]
    for t in ("VarChar", "Char"):
        out += [[t, x] for x in ss]
    for t in ("Binary", "JSON", "UUID"):
        out += [[t, x] for x in ("", "a", "ab", "b")]
    i = lambda n: ["Integer", str(n)]
    out += [["Enum", "red", 1], ["Enum", "red", 2], ["Enum", "blue", 1], ["Point", "1.5", 2.5], ["Point", "1.5", -2.5], ["Point", "0", 0.0]]
    for t in ("Vector", "Array"):
        out += [[t, []], [t, [i(1)]], [t, [i(1), i(2)]], [t, [i(2), i(1)]], [t, [["Null", "Integer"], i(1)]]]
    out += [["Struct", ["a"], [i(1)]], ["Struct", ["a"], [i(2)]], ["Struct", ["b"], [i(1)]], ["Struct", [], []]]
    return out


ALLT = list(INTS) + ["Decimal", "Float", "Boolean", "Timestamp", "Date", "Time", "Interval", "VarChar", "Char", "Binary", "JSON", "UUID", "Vector", "Array", "Enum", "Point", "Struct"]
NULLS = [["Null", t] for t in ALLT] + [["Null", "Invalid"]]


def arith(a, b, must=None):
    out = []
    for op in ("add", "sub", "mul", "div", "mod"):
        for via in VIAS:
            if op == "mod" and via in ("expr", "join"):
                continue
            same = a[0] == b[0]
            # where an answer is required: same-type operands everywhere, mixed integer types in arithmetic expressions
            m = 1 if (via in ("expr", "join") or same) and not (op == "mod" and a[0] != "Integer") else 0
            if "Null" in (a[0], b[0]):
                m = 1 if (a[1] if a[0] == "Null" else a[0]) == (b[1] if b[0] == "Null" else b[0]) and op != "mod" and via != "bin" and not (via not in ("val","value") and "Invalid" in (a[1], b[1])) else 0
            out.append(dict(op=op, via=via, a=a, b=b, must=m))
    return out


def cases(r):
    g = r.rng("values")
    nums = sum((ints(t) for t in INTS), []) + sum((reals(t) for t in ("Decimal", "Float")), [])
    every = nums + others() + NULLS
    cmds = []
    small = [v for t in INTS for v in ints(t)[:3] + ints(t)[-3:] + [[t, "0"], [t, "5"]]]

    def pair(a, b, vias):
        for via in vias:
            cmds.append(dict(op="cmp", via=via, a=a, b=b))
        cmds.append(dict(op="heq", a=a, b=b))
        cmds.append(dict(op="minmax", a=a, b=b))
    # all pairs of numbers, of values of one kind, and with NULL
    for k, a in enumerate(every):
        for b in every[k:]:
            rel = (a in nums and b in nums) or a[0] == b[0] or {a[0], b[0]} <= {"VarChar", "Char"}
            if rel and (r.thorough or a[0] not in INTS or g.random() < 0.5):
                pair(a, b, VIAS if r.thorough or g.random() < 0.5 else [g.choice(VIAS)])
            elif "Null" in (a[0], b[0]):
                if r.thorough or g.random() < 0.12:
                    pair(a, b, VIAS if r.thorough else [g.choice(VIAS)])
            elif g.random() < (0.6 if r.thorough else 0.05):
                pair(a, b, VIAS)
    # arithmetic over boundary pairs
    for a in small:
        for b in small:
            cs = arith(a, b)
            cmds.extend(cs if r.thorough else [c for c in cs if g.random() < 0.5])
    for t in INTS:
        for _ in range(300 if r.thorough else 60):
            h = 1 << (INTS[t] - 1)
            f = lambda: g.choice([g.randint(-h, h - 1), g.randint(-12, 12), int(g.uniform(-1, 1) * h ** 0.5), g.choice([-h, h - 1, -1])])
            u = g.choice([t, t, g.choice(list(INTS))])
            hu = 1 << (INTS[u] - 1)
            cmds.extend(arith([t, str(f())], [u, str(max(-hu, min(hu - 1, f())))]))
            a, b = [t, str(f())], [u, str(max(-hu, min(hu - 1, f())))]
            pair(a, b, [g.choice(VIAS)])
            d = [g.choice(["Decimal", "Float"]), repr(g.choice([f() + 0.5, f(), f() / 4]))]
            pair(a, d, [g.choice(VIAS)])
    for a in small + [["Decimal", "1.5"], ["Decimal", "2.25"], ["Decimal", "-3"]]:
        for b in g.sample(NULLS, 2) + [["Null", a[0]]]:
            cmds.extend(arith(a, b) + arith(b, a))
    for _ in range(400 if r.thorough else 80):
        cmds.extend(arith(*(["Decimal", repr(g.randint(-4000, 4000) / 4)] for _ in range(2))))
    # conversion
    for a in every:
        for t in ALLT:
            if r.thorough or g.random() < (1 if a in nums and t in INTS else 0.5):
                cmds.append(dict(op="cast", a=a, to=t))
            if t in list(INTS) + ["Decimal"] and a in nums:
                cmds.append(dict(op="cast", a=a, to=t, via="as"))
        cmds.append(dict(op="text", a=a))
        if a[0] not in ("Vector", "Array", "Enum", "Struct", "Null"):
            cmds.append(dict(op="bytes", a=a))
        cmds.append(dict(op="tuple", vs=[a], slack=0))
    for _ in range(3000 if r.thorough else 500):
        cmds.append(dict(op="tuple", vs=[g.choice(every) for _ in range(g.randint(0, 9))], slack=g.randint(0, 1)))
    g.shuffle(cmds)
    return [dict(cfg={}, cmds=cmds[k:k + 25]) for k in range(0, len(cmds), 25)]


def run(r):
    r.mc("ValuesMC", note="number arithmetic, order")
    out = cases(r)
    for k in range(0, len(out), 1500):
        r.check("values", "ValuesTrace", out[k:k + 1500], label="pairs %d" % (k // 1500))
