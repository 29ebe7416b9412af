---------------------------- MODULE BufferPoolMC ----------------------------
EXTENDS BufferPool, TLC
CONSTANTS Pool, NPages, NH, NV
VARIABLE s
H == 0..NH - 1
P(t) == 0..t.next - 1
Cmds(t) == {[op |-> "new", h |-> x] : x \in {y \in H : t.h[y].p = -1 /\ t.next < NPages}}
           \cup {[op |-> "fetch", p |-> p, h |-> x] : p \in P(t), x \in {y \in H : t.h[y].p = -1}}
           \cup [op : {"fetchbad", "flush", "delete"}, p : P(t)]
           \cup [op : {"write"}, h : H, v : 1..NV] \cup [op : {"drop"}, h : H]
           \cup {[op |-> "batch", ps |-> <<p, q>>, h |-> 0] : p \in {x \in P(t) : t.h[0].p = -1 /\ NH > 1 /\ t.h[1].p = -1}, q \in P(t)}
           \cup [op : {"flushall"}] \cup [op : {"flushdirty"}, n : {1}]
Init == s = BInit(Pool, H)
Next == \E c \in Cmds(s) : \E o \in BOutcomes(s, c) : s' = o.s
Spec == Init /\ [][Next]_s
(* a request is refused only when every frame is held *)
NeverStuck == (\E p \in s.res : p \notin Pinned(s)) => FramesFor(s) # {}
Inv == BInv(s) /\ NeverStuck
=============================================================================
