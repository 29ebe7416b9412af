----------------------------- MODULE TraceCheck -----------------------------
(* Generic trace validation.  A subsystem specification gives                *)
(*    Inits(cfg)      the set of its initial states under a configuration    *)
(*    Outcomes(s, e)  the set of [s |-> successor, r |-> result] allowed for *)
(*                    the command in event e from state s                    *)
(* Every recorded trace (one JSON object per line of $TRACE, recorded from    *)
(* the real code) must be a behaviour of the specification: at each event    *)
(* some allowed outcome has exactly the recorded result.  The postcondition  *)
(* prints <<"REJECT", t, i>> for each trace whose event i no behaviour       *)
(* explains.                                                                 *)
EXTENDS Naturals, Sequences, TLC
CONSTANTS Traces, Inits(_), Outcomes(_, _)
VARIABLES tid, i, s

TInit == /\ tid \in DOMAIN Traces
         /\ i = 0
         /\ s \in Inits(Traces[tid].cfg)
         /\ TLCSet(tid, 0)

TNext == /\ i < Len(Traces[tid].ev)
         /\ LET e == Traces[tid].ev[i + 1]
            IN  /\ e.x = "ok"
                /\ \E o \in Outcomes(s, e) : o.r = e.r /\ s' = o.s
         /\ i' = i + 1
         /\ tid' = tid
         /\ TLCSet(tid, IF TLCGet(tid) > i + 1 THEN TLCGet(tid) ELSE i + 1)

TSpec == TInit /\ [][TNext]_<<tid, i, s>>

TPost == \A t \in DOMAIN Traces :
            \/ TLCGet(t) = Len(Traces[t].ev)
            \/ PrintT(<<"REJECT", t, TLCGet(t) + 1>>)
=============================================================================
