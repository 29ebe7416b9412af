---------------------------- MODULE LockTableMC ----------------------------
EXTENDS LockTable, TLC
CONSTANTS NT, MaxQ
VARIABLES s
Init == s = LInit([t \in 1..NT |-> "NONE"], 1, 0)
Cmd == [op : {"lockT"}, t : 1..NT, m : Modes, tb : {1}] \cup [op : {"unlockT", "force"}, t : 1..NT, tb : {1}]
Next == \E c \in Cmd : \E o \in BareOutcomes(s, c) : s' = o.s
Spec == Init /\ [][Next]_s
Small == Len(s.q[1]) <= MaxQ
MInv == Inv1(s)
\* every request that waits has a reason, and granted locks only go away when their owner gives them up
Keep == [][\A t \in 1..NT : \A m \in Modes : Covers(Held(s.q[1], t), m) /\ ~Covers(Held(s'.q[1], t), m)
             => Held(s'.q[1], t) \subseteq Waits(s.q[1], t)]_s
=============================================================================
