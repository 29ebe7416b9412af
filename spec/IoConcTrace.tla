---------------------------- MODULE IoConcTrace ----------------------------
EXTENDS IoEngine, TLC, Json, IOUtils
VARIABLES tid, i, s, pend
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
TInits(c) == {CInit}
INSTANCE LinCheck WITH Traces <- TraceLog, Inits <- TInits, Outcomes <- COutcomes, Hidden <- CHidden
Inv == s.n >= 0
=============================================================================
