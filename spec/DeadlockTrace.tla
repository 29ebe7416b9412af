--------------------------- MODULE DeadlockTrace ---------------------------
EXTENDS Deadlock, Sequences, TLC, Json, IOUtils
VARIABLES tid, i, s
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
TInits(c) == {GInit}
INSTANCE TraceCheck WITH Traces <- TraceLog, Inits <- TInits, Outcomes <- GOutcomes
Inv == TRUE
=============================================================================
