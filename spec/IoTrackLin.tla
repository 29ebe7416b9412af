----------------------------- MODULE IoTrackLin -----------------------------
EXTENDS IoEngine, TLC, Json, IOUtils
VARIABLES tid, i, s, pend
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
TInits(c) == {TkInit}
INSTANCE LinCheck WITH Traces <- TraceLog, Inits <- TInits, Outcomes <- TcOutcomes, Hidden <- TcHidden
Inv == TRUE
=============================================================================
