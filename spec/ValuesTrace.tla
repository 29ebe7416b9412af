---------------------------- MODULE ValuesTrace ----------------------------
EXTENDS Values, TLC, Json, IOUtils
VARIABLES tid, i, s
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
TInits(c) == {VInit}
INSTANCE TraceCheck WITH Traces <- TraceLog, Inits <- TInits, Outcomes <- VOutcomes
Inv == TRUE
=============================================================================
