--------------------------- MODULE LogCodecTrace ---------------------------
EXTENDS LogCodec, TLC, Json, IOUtils
VARIABLES tid, i, s
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
TInits(c) == {CInit}
INSTANCE TraceCheck WITH Traces <- TraceLog, Inits <- TInits, Outcomes <- COutcomes
Inv == CInv(s)
=============================================================================
