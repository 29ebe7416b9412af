------------------------------ MODULE LinCheck ------------------------------
(* Validation of concurrent histories.  A trace interleaves                   *)
(*    [c |-> 1, p, op, .., r]   thread p begins the call that will return r   *)
(*    [c |-> 0, p]              thread p's call returns                       *)
(* The history is accepted if every call can take effect at one moment        *)
(* between its beginning and its return so that the whole is a behaviour of   *)
(* the specification (Outcomes).  Calls that take effect in several steps are *)
(* given through Hidden(s, e): the intermediate [s, e] they may reach.        *)
(* Effects are placed as late as possible: just before some return.           *)
EXTENDS Naturals, Sequences, TLC
CONSTANTS Traces, Inits(_), Outcomes(_, _), Hidden(_, _)
VARIABLES tid, i, s, pend

NoCall == [c |-> 0]
Threads == 0..9
TInit == /\ tid \in DOMAIN Traces
         /\ i = 0
         /\ s \in Inits(Traces[tid].cfg)
         /\ pend = [p \in Threads |-> NoCall]
         /\ TLCSet(tid, 0)
Ev == Traces[tid].ev[i + 1]
Note == TLCSet(tid, IF TLCGet(tid) > i + 1 THEN TLCGet(tid) ELSE i + 1)
Call == /\ Ev.c = 1 /\ i' = i + 1 /\ Note
        /\ pend' = [pend EXCEPT ![Ev.p] = [c |-> 1, e |-> Ev]]
        /\ UNCHANGED <<tid, s>>
Take(p) == /\ pend[p].c = 1
           /\ "r" \in DOMAIN pend[p].e      \* calls that never returned explain nothing
           /\ \/ /\ \E o \in Outcomes(s, pend[p].e) : o.r = pend[p].e.r /\ s' = o.s
                 /\ pend' = [pend EXCEPT ![p] = [c |-> 2]]
              \/ \E h \in Hidden(s, pend[p].e) : s' = h.s /\ pend' = [pend EXCEPT ![p].e = h.e]
           /\ UNCHANGED <<tid, i>>
Return == /\ pend[Ev.p].c = 2 /\ i' = i + 1 /\ Note
          /\ pend' = [pend EXCEPT ![Ev.p] = NoCall]
          /\ UNCHANGED <<tid, s>>
TNext == /\ i < Len(Traces[tid].ev)
         /\ Ev.x = "ok"
         /\ IF Ev.c = 1 THEN Call
            ELSE IF pend[Ev.p].c = 2 THEN Return
            ELSE \E p \in Threads : Take(p)
TSpec == TInit /\ [][TNext]_<<tid, i, s, pend>>
TPost == \A t \in DOMAIN Traces :
            \/ TLCGet(t) = Len(Traces[t].ev)
            \/ PrintT(<<"REJECT", t, TLCGet(t) + 1>>)
=============================================================================
