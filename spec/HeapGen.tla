------------------------------ MODULE HeapGen ------------------------------
(* all short histories: two transactions, three value lengths of which one fills most of a page *)
EXTENDS Heap, TLC, IOUtils
VARIABLES cfg, s, hist, done
D == atoi(IOEnv.DEPTH)
GCfgs == {[pool |-> 3]}
GInits(c) == {HInit}
Ms == {[c |-> 1, ts |-> -1, del |-> 0, ul |-> 0], [c |-> 5, ts |-> 4, del |-> 0, ul |-> 1], [c |-> 1, ts |-> 0, del |-> 1, ul |-> 9]}
K(t) == 0..(Cardinality(DOMAIN t.rows) - 1)
\* record ids are the code's choice: the generator numbers rows 0, 1, .. and replays refer to them by that number
GCmds(t) == {[op |-> "ins", how |-> 0, n |-> 1, l |-> l, r |-> Cardinality(DOMAIN t.rows)] @@ m : l \in {5, 2500}, m \in {x \in Ms : x.del = 0}}
            \cup {[op |-> "upd", how |-> 0, k |-> k, rid |-> k, n |-> 2, l |-> l] @@ m : l \in {3, 1700}, m \in {x \in Ms : x.del = 0}, k \in K(t)}
            \cup {[op |-> "meta", k |-> k, rid |-> k] @@ m : m \in Ms, k \in K(t)}
            \cup {[op |-> "churn", n |-> 4], [op |-> "scan", reset |-> 0, r |-> <<>>]}
GOutcomes(t, e) == IF e.op = "scan" THEN {Same(t, TRUE)} ELSE {o \in HOutcomes(t, e) : TRUE}
INSTANCE GenBase WITH Cfgs <- GCfgs, Inits <- GInits, Cmds <- GCmds, Outcomes <- GOutcomes, Depth <- D
=============================================================================
