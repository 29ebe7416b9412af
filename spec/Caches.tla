------------------------------- MODULE Caches -------------------------------
(* The page-cache replacement policies (property D02): FIFO, LRU, LFU         *)
(* (hash-map and heap variants) and LRU-K.                                    *)
EXTENDS Integers, Sequences, FiniteSets

(* val  : resident key -> value         ord  : keys, oldest/most recent first *)
(* frq  : key -> use count (LFU)        hist : key -> last k access times     *)
CInit(c) == [kind |-> c.kind, cap |-> c.cap, k |-> c.k,
             val |-> <<>>, ord |-> <<>>, frq |-> <<>>, hist |-> <<>>, clk |-> 1]

Keys(s) == DOMAIN s.val
Has(s, x) == x \in Keys(s)
Upd(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Del(f, x)    == [y \in DOMAIN f \ {x} |-> f[y]]
Without(q, x) == SelectSeq(q, LAMBDA y : y # x)
LastK(q, k) == IF Len(q) > k THEN SubSeq(q, Len(q) - k + 1, Len(q)) ELSE q
IndexOf(q, x) == CHOOSE n \in 1..Len(q) : q[n] = x
B(x) == IF x THEN 1 ELSE 0
Old(s, x) == IF Has(s, x) THEN s.val[x] ELSE -1

IsLru(s)  == s.kind \in {"lru", "clru"}
IsLfu(s)  == s.kind \in {"lfu", "heaplfu"}
IsFifo(s) == s.kind = "fifo"
IsLruk(s) == s.kind = "lruk"

(* the keys the policy may evict next *)
KBetter(s, a, b) ==
    LET na == Len(s.hist[a])  nb == Len(s.hist[b])
    IN  \/ na < s.k /\ nb >= s.k
        \/ na < s.k /\ nb < s.k /\ (na < nb \/ (na = nb /\ s.hist[a][1] < s.hist[b][1]))
        \/ na >= s.k /\ nb >= s.k /\ s.hist[a][1] < s.hist[b][1]
Victims(s) ==
    IF Keys(s) = {} THEN {}
    ELSE IF IsFifo(s) THEN {s.ord[1]}
    ELSE IF IsLru(s) THEN {s.ord[Len(s.ord)]}
    ELSE IF IsLfu(s) THEN {x \in Keys(s) : \A y \in Keys(s) : s.frq[x] <= s.frq[y]}
    ELSE {x \in Keys(s) : \A y \in Keys(s) \ {x} : ~KBetter(s, y, x)}

Drop(s, x) == [s EXCEPT !.val = Del(@, x), !.ord = Without(@, x),
                        !.frq = Del(@, x), !.hist = Del(@, x)]
(* an access to a resident key, as the policy counts it *)
Use(s, x) ==
    IF IsLru(s) THEN [s EXCEPT !.ord = <<x>> \o Without(@, x)]
    ELSE IF IsLfu(s) THEN [s EXCEPT !.frq[x] = @ + 1]
    ELSE IF IsLruk(s) THEN [s EXCEPT !.hist[x] = LastK(Append(@, s.clk), s.k), !.clk = @ + 1]
    ELSE s
Add(s, x, v) ==
    [s EXCEPT !.val = Upd(@, x, v),
              !.ord = IF IsFifo(s) THEN Append(@, x) ELSE IF IsLru(s) THEN <<x>> \o @ ELSE @,
              !.frq = IF IsLfu(s) THEN Upd(@, x, 1) ELSE @,
              !.hist = IF IsLruk(s) THEN Upd(@, x, <<s.clk>>) ELSE @,
              !.clk = IF IsLruk(s) THEN @ + 1 ELSE @]

One(s, r) == {[s |-> s, r |-> r]}

Insert(s, x, v) ==
    IF Has(s, x)
    THEN LET t == [s EXCEPT !.val[x] = v]
         IN  One(IF IsLru(s) \/ IsLruk(s) THEN Use(t, x) ELSE t, s.val[x])
    ELSE IF s.cap = 0 THEN One(s, -1)
    ELSE IF Cardinality(Keys(s)) < s.cap THEN One(Add(s, x, v), -1)
    ELSE {[s |-> Add(Drop(s, w), x, v), r |-> -1] : w \in Victims(s)}

COutcomes(s, e) ==
  CASE e.op = "insert"   -> Insert(s, e.k, e.v)
    [] e.op = "get"      -> IF Has(s, e.k) THEN One(Use(s, e.k), s.val[e.k]) ELSE One(s, -1)
    [] e.op = "peekkey"  -> One(s, Old(s, e.k))
    [] e.op = "contains" -> One(s, B(Has(s, e.k)))
    [] e.op = "len"      -> One(s, Cardinality(Keys(s)))
    [] e.op = "clear"    -> One([s EXCEPT !.val = <<>>, !.ord = <<>>, !.frq = <<>>, !.hist = <<>>], 0)
    [] e.op = "remove"   -> One(Drop(s, e.k), Old(s, e.k))
    [] e.op = "pop"      -> IF Keys(s) = {} THEN One(s, -1)
                            ELSE {[s |-> Drop(s, w), r |-> w * 1000 + s.val[w]] : w \in Victims(s)}
    [] e.op = "peek"     -> IF Keys(s) = {} THEN One(s, -1)
                            ELSE {[s |-> s, r |-> w * 1000 + s.val[w]] : w \in Victims(s)}
    [] e.op = "touch"    -> IF ~Has(s, e.k) THEN One(s, IF IsLfu(s) THEN -1 ELSE 0)
                            ELSE One(Use(s, e.k), IF IsLfu(s) THEN s.frq[e.k] + 1 ELSE 1)
    [] e.op = "reset"    -> IF ~Has(s, e.k) THEN One(s, -1)
                            ELSE One([s EXCEPT !.frq[e.k] = 1], s.frq[e.k])
    [] e.op = "info"     -> One(s, IF ~Has(s, e.k) THEN -1
                                   ELSE IF IsLfu(s) THEN s.frq[e.k] ELSE Len(s.hist[e.k]))
    [] e.op = "older"    -> One(s, IF ~Has(s, e.k) THEN -1
                                   ELSE Len(s.hist[e.k]) * 10 + B(Len(s.hist[e.k]) >= s.k))
    [] e.op = "rank"     -> One(s, IF Has(s, e.k) THEN IndexOf(s.ord, e.k) - 1 ELSE -1)

CapOk(s)   == Cardinality(Keys(s)) <= s.cap
TypeOk(s)  == /\ IsFifo(s) \/ IsLru(s) => {s.ord[n] : n \in 1..Len(s.ord)} = Keys(s) /\ Len(s.ord) = Cardinality(Keys(s))
              /\ IsLfu(s) => DOMAIN s.frq = Keys(s)
              /\ IsLruk(s) => DOMAIN s.hist = Keys(s)
VictimOk(s) == Keys(s) # {} => Victims(s) # {} /\ (IsLfu(s) \/ Cardinality(Victims(s)) = 1)
CInv(s) == CapOk(s) /\ TypeOk(s) /\ VictimOk(s)

OpsOf(kind) ==
    {"insert", "get", "clear", "pop"} \cup
    (IF kind = "fifo" THEN {} ELSE {"remove", "touch"}) \cup
    (IF kind \in {"lfu", "heaplfu"} THEN {"reset"} ELSE {})
CCmds(s, K, V) ==
    [op : OpsOf(s.kind) \ {"insert"}, k : K] \cup [op : {"insert"}, k : K, v : V]
=============================================================================
