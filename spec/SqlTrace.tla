----------------------------- MODULE SqlTrace ------------------------------
EXTENDS SqlDb, TLC, Json, IOUtils
VARIABLES tid, i, s
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
TInits(c) == {DbInit(c)}
INSTANCE TraceCheck WITH Traces <- TraceLog, Inits <- TInits, Outcomes <- DbOutcomes
Inv == TRUE
=============================================================================
