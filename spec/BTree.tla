------------------------------- MODULE BTree -------------------------------
(* B+ tree index (property I01).  State: m, the sorted map the tree stands    *)
(* for ([key -> value], absent = -1), and the order of the tree.  Every event *)
(* carries the tree as it was found afterwards (nodes in preorder): it must    *)
(* be a sound B+ tree that stands for exactly m.                              *)
EXTENDS Integers, Sequences, FiniteSets
TInit0(lo, hi, order) == [m |-> [k \in lo..hi |-> -1], lo |-> lo, hi |-> hi, order |-> order]
Present(s) == {k \in DOMAIN s.m : s.m[k] # -1}
RECURSIVE Rows(_, _, _)
Rows(m, a, b) == IF a > b THEN <<>> ELSE (IF m[a] = -1 THEN <<>> ELSE <<<<a, m[a]>>>>) \o Rows(m, a + 1, b)
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Range(s, a, b) == Rows(s.m, Max(a, s.lo), Min(b, s.hi))
All(s) == Rows(s.m, s.lo, s.hi)

(* ---- shape ---- *)
Nodes(t) == {t[x].id : x \in DOMAIN t}
NodeOf(t, id) == t[CHOOSE x \in DOMAIN t : t[x].id = id]
Leaves(t) == SelectSeq(t, LAMBDA n : n.leaf = 1)
RECURSIVE Flat(_)
Flat(ls) == IF ls = <<>> THEN <<>> ELSE [j \in DOMAIN ls[1].k |-> <<ls[1].k[j], ls[1].v[j]>>] \o Flat(Tail(ls))
(* the ids of the subtree under id at depth d, in preorder, if it is sound with all keys in [lo, hi); <<>> if not *)
RECURSIVE Sub(_, _, _, _, _, _, _)
RECURSIVE Kids(_, _, _, _, _, _, _, _)
Sub(t, id, d, h, lo, hi, order) ==
  IF id \notin Nodes(t) THEN <<>>
  ELSE LET n == NodeOf(t, id)
           ok == /\ n.d = d
                 /\ Len(n.k) <= order
                 /\ d > 1 => Len(n.k) >= 1
                 /\ \A j \in DOMAIN n.k : n.k[j] >= lo /\ n.k[j] < hi /\ (j > 1 => n.k[j - 1] < n.k[j])
                 /\ IF d = h THEN n.leaf = 1 /\ Len(n.v) = Len(n.k) ELSE n.leaf = 0 /\ Len(n.c) = Len(n.k) + 1 /\ Len(n.k) >= 1
       IN  IF ~ok THEN <<>> ELSE IF d = h THEN <<id>> ELSE <<id>> \o Kids(t, n, 1, d, h, lo, hi, order)
Kids(t, n, j, d, h, lo, hi, order) ==
  IF j > Len(n.c) THEN <<>>
  ELSE LET x == Sub(t, n.c[j], d + 1, h, IF j = 1 THEN lo ELSE n.k[j - 1], IF j = Len(n.c) THEN hi ELSE n.k[j], order)
       IN  (IF x = <<>> THEN <<-1>> ELSE x) \o Kids(t, n, j + 1, d, h, lo, hi, order)
Sound(s, r) ==
  IF Present(s) = {} THEN r.n = 0 /\ r.e = 1 /\ r.h = 0 /\ r.t = <<>>
  ELSE LET ls == Leaves(r.t) IN
       /\ r.e = 0 /\ r.n = Cardinality(Present(s)) /\ r.h >= 1
       /\ Cardinality(Nodes(r.t)) = Len(r.t)
       /\ Sub(r.t, r.root, 1, r.h, s.lo - 1, s.hi + 1, s.order) = [x \in DOMAIN r.t |-> r.t[x].id]
       /\ Flat(ls) = All(s)
       /\ \A j \in DOMAIN ls : ls[j].nx = IF j = Len(ls) THEN -1 ELSE ls[j + 1].id

(* ---- traversal orders of the recorded tree ---- *)
RECURSIVE Post(_, _)
RECURSIVE PostKids(_, _, _)
Post(t, id) == LET n == NodeOf(t, id) IN PostKids(t, n, 1) \o <<id>>
PostKids(t, n, j) == IF j > Len(n.c) THEN <<>> ELSE Post(t, n.c[j]) \o PostKids(t, n, j + 1)

Step(s, e) ==   \* <<next state, value returned>>
  CASE e.op \in {"ins", "lins"} -> <<[s EXCEPT !.m[e.k] = e.v], 0>>
    [] e.op \in {"del", "ldel"} -> <<[s EXCEPT !.m[e.k] = -1], IF s.m[e.k] = -1 THEN 0 ELSE 1>>
    [] e.op = "get" -> <<s, s.m[e.k]>>
    [] e.op = "range" -> <<s, Range(s, e.k, e.k2)>>
    [] e.op = "scan" -> <<s, [j \in DOMAIN All(s) |-> All(s)[j][1]]>>
    [] e.op = "valid" -> <<s, 0>>
    [] e.op = "order" -> <<s, IF Present(s) = {} THEN <<<<>>, <<>>>> ELSE <<[x \in DOMAIN e.r.t |-> e.r.t[x].id], Post(e.r.t, e.r.root)>>>>
BOutcomes(s, e) == LET x == Step(s, e) IN
                   IF Sound(x[1], e.r) THEN {[s |-> x[1], r |-> [v |-> x[2], n |-> e.r.n, e |-> e.r.e, h |-> e.r.h, root |-> e.r.root, t |-> e.r.t]]} ELSE {}
Inv == TRUE
=============================================================================
