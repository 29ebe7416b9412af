----------------------------- MODULE HeapTrace -----------------------------
EXTENDS Heap, TLC, Json, IOUtils
VARIABLES tid, i, s
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
TInits(c) == {HInit}
INSTANCE TraceCheck WITH Traces <- TraceLog, Inits <- TInits, Outcomes <- HOutcomes
Inv == \A r \in DOMAIN s.rows : s.rows[r].l <= s.rows[r].cap
=============================================================================
