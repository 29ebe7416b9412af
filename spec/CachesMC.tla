------------------------------ MODULE CachesMC ------------------------------
EXTENDS Caches, TLC
CONSTANTS K, V, MaxCap, MaxClk
VARIABLE s
Kinds == {"fifo", "lru", "lfu", "lruk"}
Init == \E kd \in Kinds, c \in 0..MaxCap : s = CInit([kind |-> kd, cap |-> c, k |-> 2])
Next == \E c \in CCmds(s, K, V) : \E o \in COutcomes(s, c) : s' = o.s
Spec == Init /\ [][Next]_s
Bound == s.clk <= MaxClk /\ \A x \in DOMAIN s.frq : s.frq[x] <= 4
Inv == CInv(s)
(* a key that stays resident keeps the last value stored for it               *)
Faithful == [][\A x \in Keys(s) \cap Keys(s') : s'.val[x] # s.val[x] =>
                \E v \in V : [s EXCEPT !.val[x] = v].val = s'.val]_s
=============================================================================
