LEVEL = "model_checking"
RULE = ("the specification of the string functions and of LIKE is model-checked against the laws that define them (cutting, laying over, first occurrence, the language of a pattern) for all "
        "short strings; all combinations of short strings over one-, two- and four-byte characters with positions around every boundary, and seeded random longer ones, are evaluated by the "
        "real code over one tuple, over a joined pair and from SQL text, and each result must be the one the specification gives")
ASSUME = ["letters are ASCII and Latin-1, and only ASCII letters are compared without regard to case", "a pattern does not end in its escape character",
          "LIKE in SQL text ignores case, as this dialect does"]

CH = ["a", "B", "\u00e9", "\U0001f600", " "]
INTT = ["Integer", "BigInt", "SmallInt", "TinyInt"]


def strings(n, chars):
    out = [""]
    lay = [""]
    for _ in range(n):
        lay = [x + c for x in lay for c in chars]
        out += lay
    return out


def cases(r):
    g = r.rng("strfn")
    th = r.thorough
    cmds = []
    tx = lambda s: [s, g.choice(["VarChar", "VarChar", "VarChar", "Char"])]
    nm = lambda n: [n, g.choice([t for t in INTT if t != "TinyInt" or -128 <= n < 128 if t not in ("SmallInt",) or -32768 <= n < 32768 if t != "Integer" or -2**31 <= n < 2**31])]

    def add(op, args, **k):
        for via in (("expr", "join", "sql") if th else g.sample(["expr", "join", "sql"], g.choice([1, 1, 2]))):
            c = dict(op=op, via=via, args=args, neg=0, ci=0, **k)
            if op == "like":
                c["neg"] = k_neg
                c["ci"] = 1 if via == "sql" else k_ci
                c["ilike"] = k_ci
            cmds.append(c)
    words = strings(3, CH[:4])
    long = ["".join(g.choice(CH + ["a", "b", "\t", "\u00c9", "z", "Z"]) for _ in range(g.randint(4, 14))) for _ in range(400 if th else 80)]
    ext = [2**31 - 1, -2**31, 2**32 + 1, -2**32 - 1, 2**63 - 1, -2**63, 127, -128]
    pick = lambda q, n: q if th else g.sample(q, min(n, len(q)))
    # substring and overlay
    for s in pick(words, 40) + long:
        n = len(s)
        around = lambda: g.choice([g.randint(-n - 2, n + 2), g.randint(-n - 2, n + 2), g.randint(-1, 2), g.choice(ext)])
        for f in (range(-n - 2, n + 3) if n <= 3 else [around() for _ in range(6)]):
            add("sub", [tx(s), nm(f)])
            for k in ([-1, 0, 1, 2, n, n + 1] if n <= 3 and th else [g.randint(-1, n + 2), around()]):
                add("sub", [tx(s), nm(f), nm(k)])
        for f in (range(-1, n + 3) if n <= 3 else [g.randint(0, n + 2) for _ in range(5)] + [2**31 - 1]):
            w = g.choice(words + long)
            add("over", [tx(s), tx(w), [f, "Integer"]])
            add("over", [tx(s), tx(w), [f, "Integer"], [g.choice([-1, 0, 1, 2, n, g.randint(0, n + 3), 2**31 - 1]), "Integer"]])
    # position, trim, case
    for s in pick(strings(4, ["a", "\u00e9", "\U0001f600"]), 120) + long:
        subs = [g.choice(words), s[:1], s[-1:], "", s]
        if s:
            i = g.randrange(len(s))
            subs += [s[i:i + g.randint(1, 3)], s[i:] + "a"]
        for w in subs:
            add("pos", [tx(w), tx(s)])
        for side in ("BOTH", "LEADING", "TRAILING"):
            for c in (None, "a", s[:1] + s[-1:], g.choice(words), "B\u00e9"):
                pad = g.choice(["", " ", "\t ", "\r\n", c or " "]) if c is None or g.random() < 0.5 else ""
                add("trim", [tx(pad + s + g.choice(["", pad]))] + ([tx(c)] if c is not None else []), side=side)
        add("upper", [tx(s)])
        add("lower", [tx(s)])
    # LIKE
    pats = strings(3, ["a", "B", "%", "_", "!"])
    plong = ["".join(g.choice(["a", "b", "A", "\u00e9", "%", "%", "_", "!", "\U0001f600"]) for _ in range(g.randint(3, 7))) for _ in range(2000 if th else 300)]
    plong += ["%".join(x) for x in (["", "a", "a", ""], ["a", "", "", "b"], ["", "ab", "ab", "b"], ["", "_", "_", ""])]
    subj = strings(3, ["a", "B", "%"]) + strings(2, ["_", "!", "\u00e9"])
    for p in pats + plong:
        for esc in (None, "!", g.choice(["%", "_", "\\", "\u00e9"])):
            # a pattern may not end in an unescaped escape character
            q, j = p, 0
            while esc and j < len(q):
                j += 2 if q[j] == esc else 1
            if j > len(q):
                q += g.choice(["a", "%", "_", esc])
            for s in pick(subj, 2) if q in pats else [g.choice(subj)] + ["".join(g.choice(["a", "b", "ab", "\u00e9"]) if c == "%" else g.choice("ab") if c == "_" else c for c in q) for _ in range(2)]:
                k_neg, k_ci = g.randint(0, 1), g.randint(0, 1)
                add("like", [tx(s), tx(q)], **({"esc": esc} if esc else {}))
    # NULL anywhere makes the result NULL
    nul = [("sub", ["ab", 1]), ("sub", ["ab", 1, 1]), ("sub", ["ab", 5, 1]), ("trim", [" a"]), ("trim", ["aba", "a"]), ("pos", ["a", "ba"]), ("over", ["abc", "x", 2]),
           ("over", ["abc", "x", 2, 1]), ("upper", ["a"]), ("lower", ["A"]), ("like", ["a", "%"]), ("like", ["a", "b"])]
    for op, a in nul:
        for k in range(1, 1 << len(a)):
            for _ in range(3):
                k_neg, k_ci = g.randint(0, 1), g.randint(0, 1)
                add(op, [[None if k >> j & 1 else v, "VarChar" if isinstance(v, str) else "Integer"] for j, v in enumerate(a)], **({"side": g.choice(["BOTH", "LEADING"])} if op == "trim" else {}))
    g.shuffle(cmds)
    return [dict(cfg={}, cmds=cmds[k:k + 25]) for k in range(0, len(cmds), 25)]


def run(r):
    r.mc("StrFnMC", consts=dict(L=4, LP=4) if r.thorough else None, note="all short strings and patterns", timeout=1500)
    out = cases(r)
    for k in range(0, len(out), 1500):
        r.check("strfn", "StrFnTrace", out[k:k + 1500], label="functions %d" % (k // 1500))
