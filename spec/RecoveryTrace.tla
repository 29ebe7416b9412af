--------------------------- MODULE RecoveryTrace ---------------------------
EXTENDS Recovery, TLC, Json, IOUtils
VARIABLES tid, i, s
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
TInits(c) == {RInit}
INSTANCE TraceCheck WITH Traces <- TraceLog, Inits <- TInits, Outcomes <- ROutcomes
Inv == RInv(s)
=============================================================================
