---------------------------- MODULE CachesTrace ----------------------------
EXTENDS Caches, TLC, Json, IOUtils
VARIABLES tid, i, s
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
TInits(c) == {CInit(c)}
INSTANCE TraceCheck WITH Traces <- TraceLog, Inits <- TInits, Outcomes <- COutcomes
Inv == CInv(s)
=============================================================================
