---------------------------- MODULE DurableTrace ----------------------------
EXTENDS Durable, TLC, Json, IOUtils
VARIABLES tid, i, s
TInits(c) == {DInit}
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
INSTANCE TraceCheck WITH Traces <- TraceLog, Inits <- TInits, Outcomes <- DOutcomes
Inv == DSound(s)
=============================================================================
