------------------------------- MODULE ExtDir -------------------------------
(* The directory of an extendible hash table: global depth gd, per-slot local *)
(* depth ld and bucket bk.  Splitting a bucket of local depth l shares its    *)
(* slots by bit l (doubling the directory first if l = gd); merging joins a   *)
(* bucket with the buddy that differs in bit l-1 if that has depth l too; the *)
(* directory can halve when every live slot is below the global depth.        *)
EXTENDS Integers, Sequences, FiniteSets, Bitwise
DirInit(max) == [gd |-> 0, ld |-> <<0>>, bk |-> <<100>>, max |-> max]
Slots(d) == 0..2^d.gd - 1
Same(x, y, l) == x % 2^l = y % 2^l
Bit(x, l) == (x \div 2^l) % 2
Grow(d) == IF d.gd = d.max THEN d ELSE [d EXCEPT !.gd = @ + 1, !.ld = @ \o @, !.bk = @ \o @]
Flip(x, l) == IF Bit(x, l) = 1 THEN x - 2^l ELSE x + 2^l
CanShrink(d) == d.gd > 0 /\ \A x \in Slots(d) : d.ld[x + 1] < d.gd
DSplit(d, x, b) ==   \* slot x, new bucket b
  LET l == d.ld[x + 1]
      g == IF l = d.gd THEN Grow(d) ELSE d
      old == d.bk[x + 1]
      nld == [y \in 1..2^g.gd |-> IF Same(y - 1, x, l) THEN l + 1 ELSE g.ld[y]]
      nbk == [y \in 1..2^g.gd |-> IF Same(y - 1, x, l) THEN (IF Bit(y - 1, l) = 1 THEN b ELSE old) ELSE g.bk[y]]
  IN  IF l = d.max THEN d ELSE [g EXCEPT !.ld = nld, !.bk = nbk]
CanMerge(d, x) == LET l == d.ld[x + 1] IN l > 0 /\ d.ld[Flip(x, l - 1) + 1] = l
DMerge(d, x) ==
  LET l == d.ld[x + 1]
      keep == d.bk[Flip(x, l - 1) + 1]
  IN  IF ~CanMerge(d, x) THEN d
      ELSE [d EXCEPT !.ld = [y \in DOMAIN @ |-> IF Same(y - 1, x, l - 1) THEN l - 1 ELSE @[y]],
                     !.bk = [y \in DOMAIN @ |-> IF Same(y - 1, x, l - 1) THEN keep ELSE @[y]]]
Half(d) == [d EXCEPT !.gd = @ - 1, !.ld = SubSeq(@, 1, 2^(d.gd - 1)), !.bk = SubSeq(@, 1, 2^(d.gd - 1))]

DOut(d, v) == {[s |-> d, r |-> [v |-> v, gd |-> d.gd, ld |-> d.ld, bk |-> d.bk]]}
DOutcomes(d, e) ==
  LET x == e.i % 2^d.gd
      l == d.ld[x + 1]
  IN CASE e.op = "split" -> DOut(DSplit(d, x, e.b), IF l = d.max THEN -1 ELSE Flip(x, l))
       [] e.op = "split2" -> DOut(DSplit(d, x, e.b), 0)
       [] e.op = "merge" -> DOut(DMerge(d, x), IF CanMerge(d, x) THEN d.bk[x + 1] ELSE -1)
       [] e.op = "grow" -> DOut(Grow(d), 0)
       [] e.op = "shrink" -> DOut(IF CanShrink(d) THEN Half(d) ELSE d, IF CanShrink(d) THEN 1 ELSE 0)
       [] e.op = "index" -> DOut(d, e.h % 2^d.gd)
       [] e.op = "mask" -> DOut(d, 2^l - 1)
       [] e.op = "image" -> DOut(d, IF l = 0 THEN x + 1 ELSE Flip(x, l - 1))
DInv(d) ==
  /\ d.gd <= d.max /\ Len(d.ld) = 2^d.gd /\ Len(d.bk) = 2^d.gd
  /\ \A x \in Slots(d) :
       /\ d.ld[x + 1] <= d.gd
       /\ \A y \in Slots(d) : (d.bk[x + 1] = d.bk[y + 1]) <=> (Same(x, y, d.ld[x + 1]) /\ d.ld[x + 1] = d.ld[y + 1])
=============================================================================
