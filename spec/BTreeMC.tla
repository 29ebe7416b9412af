------------------------------ MODULE BTreeMC ------------------------------
(* The B+ tree algorithm (design level): insertion with leaf and inner splits, *)
(* deletion with merge or redistribution of siblings and root collapse.        *)
(* Checked exhaustively: after every history the tree is sound (one depth,     *)
(* sorted, separators bound the subtrees, occupancy) and stands for exactly    *)
(* the set m, whatever the order of the operations.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Order, NK
VARIABLES t, m
K == 0..NK - 1
Leaf(ks) == [leaf |-> TRUE, k |-> ks, c |-> <<>>]
Inner(ks, cs) == [leaf |-> FALSE, k |-> ks, c |-> cs]
Ran(q) == {q[j] : j \in DOMAIN q}
Cnt(ks, k) == Cardinality({j \in DOMAIN ks : ks[j] <= k})          \* separators to the left of k's subtree
Lt(ks, k) == Cardinality({j \in DOMAIN ks : ks[j] < k})
Put(q, p, x) == SubSeq(q, 1, p) \o <<x>> \o SubSeq(q, p + 1, Len(q)) \* x becomes element p + 1
Cut(q, p) == SubSeq(q, 1, p - 1) \o SubSeq(q, p + 1, Len(q))
\* split an overfull node: <<left, separator, right>>
Split(n) == LET h == Len(n.k) \div 2 IN
            IF n.leaf THEN <<Leaf(SubSeq(n.k, 1, h)), n.k[h + 1], Leaf(SubSeq(n.k, h + 1, Len(n.k)))>>
            ELSE <<Inner(SubSeq(n.k, 1, h), SubSeq(n.c, 1, h + 1)), n.k[h + 1],
                   Inner(SubSeq(n.k, h + 2, Len(n.k)), SubSeq(n.c, h + 2, Len(n.c)))>>
RECURSIVE Ins(_, _)
Ins(n, k) ==
  IF n.leaf THEN IF k \in Ran(n.k) THEN n ELSE Leaf(Put(n.k, Lt(n.k, k), k))
  ELSE LET j == Cnt(n.k, k) + 1
           ch == Ins(n.c[j], k)
       IN  IF Len(ch.k) <= Order THEN [n EXCEPT !.c[j] = ch]
           ELSE LET s == Split(ch) IN Inner(Put(n.k, j - 1, s[2]), Put([n.c EXCEPT ![j] = s[1]], j, s[3]))
Insert(n, k) == LET x == Ins(n, k) IN IF Len(x.k) <= Order THEN x ELSE LET s == Split(x) IN Inner(<<s[2]>>, <<s[1], s[3]>>)
MinK == Order \div 2
\* child j of n is short: merge it with a sibling if both fit one node, share evenly otherwise
Mend(n, j) ==
  LET a == IF j > 1 THEN j - 1 ELSE j      \* left one of the pair
      l == n.c[a]
      r == n.c[a + 1]
      sep == n.k[a]
      ks == IF l.leaf THEN l.k \o r.k ELSE l.k \o <<sep>> \o r.k
      cs == l.c \o r.c
      h == IF l.leaf THEN Len(ks) \div 2 ELSE (Len(ks) - 1) \div 2
  IN  IF Len(ks) <= Order
      THEN Inner(Cut(n.k, a), Cut([n.c EXCEPT ![a] = [leaf |-> l.leaf, k |-> ks, c |-> cs]], a + 1))
      ELSE IF l.leaf THEN Inner([n.k EXCEPT ![a] = ks[h + 1]],
                                [n.c EXCEPT ![a] = Leaf(SubSeq(ks, 1, h)), ![a + 1] = Leaf(SubSeq(ks, h + 1, Len(ks)))])
      ELSE Inner([n.k EXCEPT ![a] = ks[h + 1]],
                 [n.c EXCEPT ![a] = Inner(SubSeq(ks, 1, h), SubSeq(cs, 1, h + 1)),
                             ![a + 1] = Inner(SubSeq(ks, h + 2, Len(ks)), SubSeq(cs, h + 2, Len(cs)))])
RECURSIVE Rem(_, _)
Rem(n, k) ==
  IF n.leaf THEN IF k \in Ran(n.k) THEN Leaf(Cut(n.k, Lt(n.k, k) + 1)) ELSE n
  ELSE LET j == Cnt(n.k, k) + 1
           ch == Rem(n.c[j], k)
           n1 == [n EXCEPT !.c[j] = ch]
       IN  IF Len(ch.k) >= MinK THEN n1 ELSE Mend(n1, j)
Remove(n, k) == LET x == Rem(n, k) IN IF ~x.leaf /\ x.k = <<>> THEN x.c[1] ELSE x
Init == t = Leaf(<<>>) /\ m = {}
Next == \E k \in K : \/ t' = Insert(t, k) /\ m' = m \cup {k}
                     \/ t' = Remove(t, k) /\ m' = m \ {k}
Spec == Init /\ [][Next]_<<t, m>>
RECURSIVE Depth(_)
Depth(n) == IF n.leaf THEN 1 ELSE 1 + Depth(n.c[1])
RECURSIVE Keys(_)
Keys(n) == IF n.leaf THEN Ran(n.k) ELSE UNION {Keys(n.c[j]) : j \in DOMAIN n.c}
RECURSIVE Good(_, _, _, _, _)
Good(n, d, lo, hi, root) ==
  /\ n.leaf = (d = 1)
  /\ Len(n.k) <= Order
  /\ root \/ Len(n.k) >= MinK
  /\ \A j \in DOMAIN n.k : n.k[j] >= lo /\ n.k[j] < hi /\ (j > 1 => n.k[j - 1] < n.k[j])
  /\ ~n.leaf => /\ Len(n.c) = Len(n.k) + 1 /\ Len(n.k) >= 1
                /\ \A j \in DOMAIN n.c : Good(n.c[j], d - 1, IF j = 1 THEN lo ELSE n.k[j - 1], IF j = Len(n.c) THEN hi ELSE n.k[j], FALSE)
MInv == Good(t, Depth(t), 0, NK, TRUE) /\ Keys(t) = m
=============================================================================
