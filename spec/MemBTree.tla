------------------------------ MODULE MemBTree ------------------------------
(* In-memory B+ tree index (property I02): a set P of pairs, each written as   *)
(* the number 10 * key + d (d distinguishes record ids under one key).  Every  *)
(* listing is a run over the selected pairs in key order (pairs with equal     *)
(* keys in any order); the recorded tree must be sound and hold exactly P.     *)
EXTENDS Integers, Sequences, FiniteSets
Key(p) == p \div 10
Ran(q) == {q[j] : j \in DOMAIN q}
Lists(q, X) == /\ Len(q) = Cardinality(X) /\ Ran(q) = X
               /\ \A j \in 1..Len(q) - 1 : Key(q[j]) <= Key(q[j + 1])
Rev(q) == [j \in DOMAIN q |-> q[Len(q) + 1 - j]]
In(P, a, b) == {p \in P : Key(p) >= a /\ Key(p) <= b}
TInit0(order) == [p |-> {}, order |-> order]
(* ---- shape: nodes in preorder, [d |-> depth, leaf, k |-> keys, v |-> pairs (leaf)] ---- *)
RECURSIVE Sub(_, _, _, _, _, _)
RECURSIVE Kids(_, _, _, _, _, _, _)
Sub(t, x, d, lo, hi, order) ==       \* position after the subtree that starts at x, or 0
  IF x = 0 \/ x > Len(t) THEN 0
  ELSE LET n == t[x] IN
       IF ~(/\ n.d = d /\ Len(n.k) <= order - 1
            /\ \A j \in DOMAIN n.k : n.k[j] >= lo /\ n.k[j] <= hi /\ (j > 1 => n.k[j - 1] <= n.k[j])) THEN 0
       ELSE IF n.leaf = 1 THEN IF [j \in DOMAIN n.v |-> Key(n.v[j])] = n.k THEN x + 1 ELSE 0
       ELSE Kids(t, x + 1, n, 1, d, lo, <<hi, order>>)
Kids(t, x, n, j, d, lo, ho) ==
  IF j > Len(n.k) + 1 \/ x = 0 THEN x
  ELSE Kids(t, Sub(t, x, d + 1, IF j = 1 THEN lo ELSE n.k[j - 1], IF j > Len(n.k) THEN ho[1] ELSE n.k[j], ho[2]), n, j + 1, d, lo, ho)
RECURSIVE Cat(_)
Cat(ls) == IF ls = <<>> THEN <<>> ELSE ls[1].v \o Cat(Tail(ls))
Leaves(t) == SelectSeq(t, LAMBDA n : n.leaf = 1)
Sound(s, t) == /\ Sub(t, 1, 0, -1000000, 1000000, s.order) = Len(t) + 1
               /\ LET ls == Leaves(t) IN Lists(Cat(ls), s.p) /\ \A j \in DOMAIN ls : ls[j].d = ls[1].d
(* ---- operations ---- *)
Backs(pat, n) == LET RECURSIVE B(_, _)
                     B(j, left) == IF j > Len(pat) \/ left = 0 THEN 0 ELSE (IF pat[j] = 1 THEN 1 ELSE 0) + B(j + 1, left - 1)
                 IN  B(1, n)
Next(s, e) == CASE e.op = "ins" -> [s EXCEPT !.p = @ \cup {e.p}]
                [] e.op = "del" -> [s EXCEPT !.p = @ \ {e.p}]
                [] OTHER -> s
Good(s, e, v) ==
  CASE e.op = "ins" -> v = (IF e.p \in s.p THEN 0 ELSE 1)
    [] e.op = "del" -> v = (IF e.p \in s.p THEN 1 ELSE 0)
    [] e.op = "full" -> Lists(v, s.p)
    [] e.op = "range" -> Lists(v, In(s.p, e.a, IF e.incl = 1 THEN e.b ELSE e.b - 1))
    [] e.op = "key" -> Lists(v, In(s.p, e.a, e.a))
    [] e.op = "point" -> Lists(v, In(s.p, e.a, e.a))
    [] e.op = "iter" -> Lists(v, In(s.p, e.a, e.b))
    [] e.op = "all" -> Lists(v, s.p)
    [] e.op = "seek" -> Lists(v, In(s.p, e.k, e.b))      \* a <= k <= b
    [] e.op = "ends" ->                                   \* taking from both ends, then reset and read again
         LET X == In(s.p, e.a, e.b) IN
         /\ Lists(v.f \o Rev(v.b), X) /\ Len(v.b) = Backs(e.pat, Cardinality(X)) /\ Lists(v.again, X)
MOutcomes(s, e) == LET s1 == Next(s, e) IN IF Good(s, e, e.r.v) /\ Sound(s1, e.r.t) THEN {[s |-> s1, r |-> e.r]} ELSE {}
=============================================================================
