------------------------------ MODULE ExtHash ------------------------------
(* Extendible hash index (property I03).                                      *)
(* Abstract map: m[k] = value or -1; hs[k] = the low bits of k's hash (-1     *)
(* until first seen).  The table has bucket capacity cap and directory depth  *)
(* at most max.  A key is refused only when the bucket it belongs to holds    *)
(* cap keys that agree with it on max bits, i.e. cannot be split further.     *)
(* d is what the directory looked like: it must always be well formed.        *)
EXTENDS Integers, Sequences, FiniteSets
EInit(nk, cap, max) == [m |-> [k \in 0..nk - 1 |-> -1], hs |-> [k \in 0..nk - 1 |-> -1], cap |-> cap, max |-> max]

Peers(s, k, h) == {j \in DOMAIN s.m : j # k /\ s.m[j] # -1 /\ s.hs[j] % 2^s.max = h % 2^s.max}
Refused(s, k, h) == Cardinality(Peers(s, k, h)) >= s.cap
All(s) == [k \in 1..Cardinality(DOMAIN s.m) |-> s.m[k - 1]]

(* a directory: gd global depth, ld[i] local depths, bk[i] = first slot with the same bucket *)
WellFormed(d, max) ==
  /\ d.gd <= max
  /\ Len(d.ld) = 2^d.gd /\ Len(d.bk) = 2^d.gd
  /\ \A x \in 1..Len(d.ld) :
       LET l == d.ld[x] IN
       /\ l >= 0 /\ l <= d.gd
       /\ d.bk[x] = (x - 1) % 2^l               \* shared by exactly the slots that agree on l bits
       /\ d.ld[d.bk[x] + 1] = l
(* with a well-formed directory every bucket's keys fit *)
Fits(s, d) == \A x \in 1..Len(d.ld) :
                Cardinality({k \in DOMAIN s.m : s.m[k] # -1 /\ s.hs[k] % 2^d.ld[x] = (x - 1) % 2^d.ld[x]}) <= s.cap

EOutcomes(s, e) ==
  LET s1 == [s EXCEPT !.hs[e.k] = e.h]
      Res(t, v) == {[s |-> t, r |-> [v |-> v, all |-> All(t), d |-> e.r.d]]}
  IN  IF ~(WellFormed(e.r.d, s.max)) THEN {}
      ELSE CASE e.op = "ins" ->
                  IF s.m[e.k] # -1 THEN {}     \* distinct keys only
                  ELSE IF Refused(s, e.k, e.h) THEN Res(s1, 0)
                  ELSE LET t == [s1 EXCEPT !.m[e.k] = e.v] IN IF Fits(t, e.r.d) THEN Res(t, 1) ELSE {}
             [] e.op = "del" ->
                  LET t == [s1 EXCEPT !.m[e.k] = -1] IN
                  IF Fits(t, e.r.d) THEN Res(t, IF s.m[e.k] = -1 THEN 0 ELSE 1) ELSE {}
             [] e.op = "get" -> Res(s1, s.m[e.k])
Inv == TRUE
=============================================================================
