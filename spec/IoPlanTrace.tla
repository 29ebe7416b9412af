---------------------------- MODULE IoPlanTrace ----------------------------
EXTENDS IoEngine, TLC, Json, IOUtils
VARIABLES tid, i, s
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
TInits(c) == {EInit}
INSTANCE TraceCheck WITH Traces <- TraceLog, Inits <- TInits, Outcomes <- EOutcomes
(* whatever is still queued and not cancelled is exactly what is pending        *)
Inv == {s.q[a].id : a \in {b \in DOMAIN s.q : s.op[s.q[b].id].st = "p"}} = PendingOps(s)
=============================================================================
