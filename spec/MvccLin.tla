------------------------------- MODULE MvccLin -------------------------------
(* Concurrent clients, each running transactions of its own: a commit         *)
(* publishes its timestamp, then stamps its rows one by one, and nobody        *)
(* begins meanwhile; an abort restores its rows one by one.                    *)
EXTENDS Mvcc, TLC, Json, IOUtils
VARIABLES tid, i, s, pend
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
\* transactions and rows are numbered by the script
TInits(c) == {[MInit EXCEPT !.tx = [t \in 1..c.nt |-> [iso |-> "RC", st |-> "NEW", rts |-> 0, cts |-> 0]],
                            !.rows = [k \in 1..c.nk |-> [tb |-> 0, v |-> <<>>]]] @@ [busy |-> 0]}
MineIn(st, t) == {k \in DOMAIN st.rows : Mine(st.rows[k], t)}
LOutcomes(st, e) ==
  CASE e.op = "begin" -> IF st.busy = 0 /\ e.r > st.last
                         THEN {[s |-> [st EXCEPT !.tx[e.t] = [iso |-> e.iso, st |-> "RUN", rts |-> e.r, cts |-> 0], !.last = e.r], r |-> e.r]}
                         ELSE {}
    [] e.op = "ins" -> IF Running(st, e.t)
                       THEN {[s |-> [st EXCEPT !.rows[e.k].v = <<[by |-> e.t, c |-> 0, n |-> e.n, l |-> e.l]>>], r |-> TRUE]}
                       ELSE {[s |-> st, r |-> FALSE]}
    [] e.op = "commit" -> IF st.busy = e.t
                          THEN (IF MineIn(st, e.t) = {} THEN {[s |-> [st EXCEPT !.busy = 0], r |-> <<TRUE, st.tx[e.t].cts>>]} ELSE {})
                          ELSE IF Running(st, e.t) THEN {} ELSE MOutcomes(st, e)
    [] e.op = "abort" -> IF st.tx[e.t].st \in {"RUN", "DOOMED"} THEN {}
                         ELSE IF st.tx[e.t].st = "ABT" /\ MineIn(st, e.t) # {} THEN {}
                         ELSE {[s |-> st, r |-> st.tx[e.t].st]}
    [] OTHER -> MOutcomes(st, e)
LHidden(st, e) ==
  CASE e.op = "commit" -> IF st.busy = 0 /\ Running(st, e.t) /\ e.r[1] /\ e.r[2] > st.last
                          THEN {[s |-> [st EXCEPT !.busy = e.t, !.tx[e.t].st = "COM", !.tx[e.t].cts = e.r[2], !.last = e.r[2]], e |-> e]}
                          ELSE IF st.busy = e.t
                          THEN {[s |-> [st EXCEPT !.rows[k] = Stamp(@, e.t, e.r[2])], e |-> e] : k \in MineIn(st, e.t)}
                          ELSE {}
    [] e.op = "abort" -> IF st.busy = 0 /\ st.tx[e.t].st \in {"RUN", "DOOMED"}
                         THEN {[s |-> [st EXCEPT !.tx[e.t].st = "ABT"], e |-> e]}
                         ELSE {[s |-> [st EXCEPT !.rows[k] = Undo(@, e.t)], e |-> e] : k \in MineIn(st, e.t)}
    [] OTHER -> {}
INSTANCE LinCheck WITH Traces <- TraceLog, Inits <- TInits, Outcomes <- LOutcomes, Hidden <- LHidden
Inv == CleanReads(s)
=============================================================================
