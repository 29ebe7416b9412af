------------------------------- MODULE LruKMC -------------------------------
(* exhaustive check of the policy over all histories up to a clock bound      *)
EXTENDS LruK, TLC
CONSTANTS F, K, MaxClk
VARIABLE s
Init == s = LInit(K)
Next == \E c \in LCmds(F) : \E o \in LOutcomes(s, c) : s' = o.s
Spec == Init /\ [][Next]_s
Bound == s.clk <= MaxClk
Inv == LType(s) /\ LVictimExists(s) /\ LNoStarve(s)
=============================================================================
