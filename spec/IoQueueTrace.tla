---------------------------- MODULE IoQueueTrace ----------------------------
EXTENDS IoEngine, TLC, Json, IOUtils
VARIABLES tid, i, s, pend
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
TInits(c) == {QInit}
INSTANCE LinCheck WITH Traces <- TraceLog, Inits <- TInits, Outcomes <- QOutcomes, Hidden <- QHidden
Inv == \A a, b \in DOMAIN s.q : a # b => s.q[a].id # s.q[b].id
=============================================================================
