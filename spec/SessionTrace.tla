---------------------------- MODULE SessionTrace ----------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES tid, i, s
INSTANCE Session WITH Clients <- 1..3, Keys <- {c * 10 + j : c \in 1..3, j \in 1..4}
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
TInits(c) == {SInit}
INSTANCE TraceCheck WITH Traces <- TraceLog, Inits <- TInits, Outcomes <- SOutcomes
Inv == TRUE
=============================================================================
