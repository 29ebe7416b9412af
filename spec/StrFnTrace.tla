----------------------------- MODULE StrFnTrace -----------------------------
EXTENDS StrFn, TLC, Json, IOUtils
VARIABLES tid, i, s
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
TInits(c) == {SInit}
INSTANCE TraceCheck WITH Traces <- TraceLog, Inits <- TInits, Outcomes <- SOutcomes
Inv == TRUE
=============================================================================
