--------------------------- MODULE MemBTreeTrace ---------------------------
EXTENDS MemBTree, TLC, Json, IOUtils
VARIABLES tid, i, s
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
TInits(c) == {TInit0(c.order)}
INSTANCE TraceCheck WITH Traces <- TraceLog, Inits <- TInits, Outcomes <- MOutcomes
Inv == TRUE
=============================================================================
