---------------------------- MODULE ExtDirTrace ----------------------------
EXTENDS ExtDir, TLC, Json, IOUtils
VARIABLES tid, i, s
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
TInits(c) == {DirInit(c.max)}
INSTANCE TraceCheck WITH Traces <- TraceLog, Inits <- TInits, Outcomes <- DOutcomes
Inv == DInv(s)
=============================================================================
