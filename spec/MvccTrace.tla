------------------------------ MODULE MvccTrace ------------------------------
EXTENDS Mvcc, TLC, Json, IOUtils
VARIABLES tid, i, s
TInits(c) == {MInit}
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE TraceCheck WITH Traces <- TraceLog, Inits <- TInits, Outcomes <- MOutcomes
Inv == MSound(s)
=============================================================================
