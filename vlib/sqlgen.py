"""Tables, expressions and plans in the grammar of spec/Sql.tla."""
NUMT = ["Integer", "BigInt", "SmallInt", "TinyInt", "Decimal"]
INTT = ["Integer", "BigInt", "SmallInt", "TinyInt"]
KIND = dict(Integer="n", BigInt="n", SmallInt="n", TinyInt="n", Decimal="n", Float="n", VarChar="s", Char="s", Boolean="b", Avg="v")
NULL = [0, []]
WORDS = ["", "a", "A", "ab", "b", "Ab", "a%", "abc", "ba", "_", "é", "aé", "NULL", "a b", "%", "10", "9"]
PATS = ["", "%", "_", "a%", "%b", "%a%", "_b", "a_", "__", "%_%", "a\\%", "é", "%é", "_é", "NULL", "N%", "A%", "ab", "%%", "a%b%", "\\_", "%\\%"]


def I(n): return [1, [n]]
def T(x): return [2, [ord(c) for c in x]]
def B(b): return [3, [1 if b else 0]]
def D(m): return [4, [m]]
def col(i): return ["c", i]
def k(v, t): return ["k", v, t]


def value(g, t, nulls=0.2, spread=4):
    if g.random() < nulls:
        return NULL
    if t in INTT:
        return I(g.choice([0, 1, 2, -1] + list(range(-spread, spread + 1))))
    if t == "Decimal":
        return D(g.choice([0, 250, 500, 1000, 1500, 2000, -250, -1000, 750]))
    if t == "Boolean":
        return B(g.random() < 0.5)
    return T(g.choice(WORDS))


def column(n, t, **kw):
    return dict(dict(n=n, t=t, nn=0, uq=0, pk=0, ck="", fk=[], df=[]), **kw)


class Gen:
    """random plans over tables given as lists of column types"""

    def __init__(self, g, tables, div=False, index=()):
        self.g, self.tables, self.div, self.index = g, tables, div, list(index)

    # expressions ------------------------------------------------------
    def const(self, t, nulls=0.12):
        return k(value(self.g, t, nulls), t)

    def leaf(self, ts, kind):
        g = self.g
        own = [i for i, t in enumerate(ts) if KIND.get(t) == kind]
        if own and g.random() < 0.72:
            return col(g.choice(own))
        t = dict(n=g.choice(NUMT), s=g.choice(["VarChar", "VarChar", "Char"]), b="Boolean")[kind]
        return self.const(t)

    def etype(self, e, ts):
        """the column type of an expression, for choosing operand types"""
        if e[0] == "c":
            return ts[e[1]]
        if e[0] == "k":
            return e[2]
        if e[0] in ("ar",):
            a, b = self.etype(e[2], ts), self.etype(e[3], ts)
            if "Decimal" in (a, b):
                return "Decimal"
            return max((a, b), key=["TinyInt", "SmallInt", "Integer", "BigInt"].index)
        if e[0] == "neg":
            return self.etype(e[1], ts)
        if e[0] == "case":
            return self.etype(e[2][0][1], ts)
        if e[0] == "coal":
            return self.etype(e[1][0], ts)
        return "Boolean"

    def num(self, ts, d):
        g = self.g
        x = g.random()
        if d <= 0 or x < 0.5:
            return self.leaf(ts, "n")
        if x < 0.8:
            op = g.choice(["+", "-", "*"] + (["/"] * 3 if self.div else []))
            a, b = self.num(ts, d - 1), self.num(ts, d - 1)
            if op in "*/":
                ints = [i for i, t in enumerate(ts) if t in INTT]
                pick = lambda: col(g.choice(ints)) if ints and g.random() < 0.7 else self.const(g.choice(["Integer", "BigInt"]))
                a, b = pick(), pick()
            return ["ar", op, a, b]
        if x < 0.9 and not self.div:
            a = self.num(ts, d - 1)
            t = self.etype(a, ts)
            b = k(value(g, t, 0.1), t)
            if g.random() < 0.5:
                return ["coal", [a, b]]
            return ["case", [], [[self.boolean(ts, d - 1), a]], b if g.random() < 0.7 else []]
        return ["neg", self.num(ts, d - 1)]

    def text(self, ts, d):
        g = self.g
        if d > 0 and g.random() < 0.15 and not self.div:
            a = self.leaf(ts, "s")
            if g.random() < 0.5:
                return ["coal", [a, self.const("VarChar", 0.05)]]
            base = self.leaf(ts, "n")
            ws = [[self.const(self.etype(base, ts), 0.15), self.const("VarChar")] for _ in range(g.randint(1, 2))]
            return ["case", base, ws, self.const("VarChar") if g.random() < 0.6 else []]
        return self.leaf(ts, "s")

    def any(self, ts, d, kind=None):
        kind = kind or self.g.choice("nnnssb")
        if kind == "n":
            return self.num(ts, d)
        if kind == "s":
            return self.text(ts, d)
        return self.boolean(ts, d)

    def boolean(self, ts, d):
        g = self.g
        x = g.random()
        if d <= 0:
            x = x * 0.5
        neg = int(g.random() < 0.4)
        if x < 0.05:
            return self.leaf(ts, "b")
        if x < 0.32:
            kd = g.choice("nnnsb")
            return ["cmp", g.choice(["=", "<>", "<", "<=", ">", ">="]), self.any(ts, d - 1, kd), self.any(ts, d - 1, kd)]
        if x < 0.38:
            return ["is", "null", neg, self.any(ts, d - 1)]
        if x < 0.42:
            kd = g.choice("ns")
            a = self.leaf(ts, kd)
            t = self.etype(a, ts)
            return ["in", neg, a, [self.const(t, 0.1) for _ in range(g.randint(1, 3))]]
        if x < 0.47:
            kd = g.choice("nns")
            return ["btw", neg, self.leaf(ts, kd), self.leaf(ts, kd), self.leaf(ts, kd)]
        if x < 0.53:
            esc = g.choice([0, 92, 92])
            return ["like", neg, int(g.random() < 0.3), self.leaf(ts, "s"), k(T(g.choice(PATS)), "VarChar") if g.random() < 0.93 else k(NULL, "VarChar"), esc]
        if x < 0.70:
            return ["and", self.boolean(ts, d - 1), self.boolean(ts, d - 1)]
        if x < 0.85:
            return ["or", self.boolean(ts, d - 1), self.boolean(ts, d - 1)]
        if x < 0.92:
            return ["not", self.boolean(ts, d - 1), g.choice([0, 1])]
        if x < 0.96:
            return ["is", g.choice(["true", "false", "unknown"]), neg, self.boolean(ts, d - 1)]
        kd = g.choice("ns")
        return ["dist", neg, self.leaf(ts, kd), self.leaf(ts, kd)]

    # plans: (plan, column types) ---------------------------------------
    def bound(self, ts, c):
        """a predicate an index on column c may use: comparisons with constants, AND, OR, NOT"""
        g = self.g
        x = g.random()
        if x < 0.15:
            return ["and", self.bound(ts, c), self.bound(ts, c)]
        if x < 0.3:
            return ["or", self.bound(ts, c), self.bound(ts, c)]
        if x < 0.36:
            return ["not", self.bound(ts, c), 0]
        if x < 0.5:
            return self.boolean(ts, 1)
        a, b = col(c), self.const(ts[c] if g.random() < 0.9 or KIND[ts[c]] != "n" else g.choice(NUMT), 0.05)
        if g.random() < 0.1:
            a, b = b, a
        return ["cmp", g.choice(["=", "=", "<", "<=", ">", ">=", "<>"]), a, b]

    def scan(self):
        if self.index and self.g.random() < 0.45:
            t, c = self.g.choice(self.index)
            ts = list(self.tables[t - 1])
            return ["iscan", t, c, [self.bound(ts, c) for _ in range(self.g.choice([0, 1, 1, 2]))]], ts
        t = self.g.randrange(len(self.tables)) + 1
        return ["scan", t, self.g.choice(["seq", "table"])], list(self.tables[t - 1])

    def values(self):
        g = self.g
        ts = [g.choice(["Integer", "VarChar", "Boolean", "BigInt"]) for _ in range(g.randint(1, 3))]
        rows = [[k(value(g, t), t) for t in ts] for _ in range(g.randint(0, 4))]
        return ["values", rows, ts], ts

    def keys(self, ts, total=False):
        g = self.g
        cols = list(range(len(ts)))
        g.shuffle(cols)
        n = len(cols) if total else g.randint(1, min(3, len(cols)))
        out = []
        for c in cols[:n]:
            e = col(c)
            if not total and KIND[ts[c]] == "n" and g.random() < 0.15:
                e = ["neg", e]
            out.append([e, int(g.random() < 0.45)])
        return out

    def join(self, d):
        g = self.g
        L, lt = self.plan(d - 1, False)
        R, rt = self.plan(d - 1, False)
        ts = lt + rt
        ty = g.choice(["inner", "inner", "left", "right", "full", "cross"])
        pairs = [(i, j) for i in range(len(lt)) for j in range(len(rt)) if KIND[lt[i]] == KIND[rt[j]]]
        lk, rk, m = [], [], "nl"
        on = k(B(True), "Boolean")
        if ty != "cross":
            if pairs and g.random() < 0.6:
                ps = g.sample(pairs, min(len(pairs), g.choice([1, 1, 2])))
                on = None
                for i, j in ps:
                    e = ["cmp", "=", col(i), col(len(lt) + j)]
                    on = e if on is None else ["and", on, e]
                    lk.append(col(i))
                    rk.append(col(j))
                m = g.choice(["hash", "hash", "nij", "nl"])
                if m == "nij" and (ty not in ("inner", "left") or R[0] not in ("scan", "iscan")):
                    m = "nl"
            else:
                on = self.boolean(ts, 1)
        return ["join", m, ty, on, L, R, len(lt), len(rt), lk, rk], ts

    def plan(self, d, top):
        g = self.g
        if d <= 0:
            return self.scan() if g.random() < 0.9 else self.values()
        x = g.random()
        if x < 0.18:
            return self.plan(0, False)
        if x < 0.42:
            c, ts = self.plan(d - 1, False)
            return ["filter", self.boolean(ts, 2), c], ts
        if x < 0.54:
            c, ts = self.plan(d - 1, False)
            es = [self.any(ts, 2) for _ in range(g.randint(1, 3))]
            return ["project", es, c], [self.etype(e, ts) for e in es]
        if x < 0.70 and not self.div:
            return self.join(d)
        if x < 0.76:
            c, ts = self.plan(d - 1, False)
            return ["distinct", c], ts
        if x < 0.84 and not self.div:
            # a limit whose kept rows are determined: by sort keys over every column
            c, ts = self.plan(d - 1, False)
            p = ["sort", self.keys(ts, True), c]
            if g.random() < 0.3:
                p = ["offset", g.randint(0, 4), p]
            return ["limit", g.randint(0, 6), p], ts
        if x < 0.88:
            c, ts = self.plan(d - 1, False)
            return ["sort", self.keys(ts), c], ts
        return self.agg(d, top)

    def agg(self, d, top):
        g = self.g
        c, ts = self.plan(d - 1, False)
        cols = list(range(len(ts)))
        g.shuffle(cols)
        grp = [col(i) for i in cols[:g.choice([0, 1, 1, 2])]]
        ags, out = [], [ts[x[1]] for x in grp]
        for _ in range(g.randint(1, 3)):
            f = g.choice(["count*", "count", "sum", "min", "max"] + (["avg"] if top else []))
            if f in ("sum", "avg"):
                own = [i for i, t in enumerate(ts) if KIND[t] == "n"]
                if not own:
                    f = "count"
            if f in ("sum", "avg"):
                e = col(g.choice(own))
            else:
                e = col(g.choice(cols))
            ags.append([f, e])
            out.append("BigInt" if f.startswith("count") else "Avg" if f == "avg" else ts[e[1]])
        return ["agg", grp, ags, c], out

    def query(self, d):
        """a plan, with the order-dependent operators only at the top"""
        g = self.g
        c, ts = self.agg(d, True) if g.random() < 0.25 else self.plan(d, True)
        x = g.random()
        if x < 0.3:
            return c
        if x < 0.45 and not self.div:
            return ["topn", [col(i) for i in g.sample(range(len(ts)), g.randint(1, min(2, len(ts))))], g.randint(1, 5), c]
        if x < 0.52 and not self.div:
            srt = [col(i) for i in range(len(ts))]
            g.shuffle(srt)
            return ["topg", srt, [col(g.randrange(len(ts)))], g.randint(1, 3), c]
        p = c
        if x < 0.85:
            p = ["sort", self.keys(ts), p]
        if self.div:
            return p
        if g.random() < 0.4:
            p = ["offset", g.randint(0, 5), p]
        if g.random() < 0.6:
            p = ["limit", g.randint(0, 7), p]
        return p
