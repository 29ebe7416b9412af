---------------------------- MODULE ExtHashTrace ----------------------------
EXTENDS ExtHash, TLC, Json, IOUtils
VARIABLES tid, i, s
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
TInits(c) == {EInit(c.keys, c.cap, c.max)}
INSTANCE TraceCheck WITH Traces <- TraceLog, Inits <- TInits, Outcomes <- EOutcomes
=============================================================================
