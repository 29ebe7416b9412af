------------------------------- MODULE MvccGen -------------------------------
(* histories of up to three transactions over rows that start committed       *)
EXTENDS Mvcc, TLC, IOUtils
VARIABLES cfg, s, hist, done
D == atoi(IOEnv.DEPTH)
\* two rows, committed by transaction 1
GInits(c) == {[MInit EXCEPT !.rows = [k \in 1..2 |-> [tb |-> 0, v |-> <<[by |-> 1, c |-> 2, n |-> k, l |-> 5]>>]],
                            !.tx = <<[iso |-> "RC", st |-> "COM", rts |-> 1, cts |-> 2]>>, !.last = 2]}
GCmds(t) == LET A == {x \in DOMAIN t.tx : x > 1} IN
            {[op |-> "begin", iso |-> i, r |-> t.last + 1] : i \in IF Len(t.tx) < 4 THEN {"RC", "RR"} ELSE {}}
            \cup {[op |-> "upd", t |-> x, k |-> k, n |-> 10 * x + k, l |-> 5] : x \in A, k \in 1..2}
            \cup {[op |-> "del", t |-> x, k |-> 1] : x \in A}
            \cup {[op |-> "ins", t |-> x, tb |-> 0, n |-> 50 + x, l |-> 5] : x \in {y \in A : Len(t.rows) < 3 /\ Running(t, y)}}
            \cup {[op |-> "commit", t |-> x, r |-> <<TRUE, t.last + 1>>] : x \in {y \in A : Running(t, y)}}
            \cup {[op |-> "abort", t |-> x] : x \in {y \in A : t.tx[y].st \in {"RUN", "DOOMED"}}}
            \cup {[op |-> "doom", t |-> x] : x \in {y \in A : Running(t, y)}}
            \cup {[op |-> "gc"]}
INSTANCE GenBase WITH Cfgs <- {[pool |-> 64]}, Inits <- GInits, Cmds <- GCmds, Outcomes <- MOutcomes, Depth <- D
=============================================================================
