--------------------------- MODULE WatermarkTrace ---------------------------
EXTENDS Watermark, TLC, Sequences, Json, IOUtils
VARIABLES tid, i, s
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
TInits(c) == {WInit}
INSTANCE TraceCheck WITH Traces <- TraceLog, Inits <- TInits, Outcomes <- WOutcomes
Inv == WSound(s)
=============================================================================
