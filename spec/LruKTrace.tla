----------------------------- MODULE LruKTrace -----------------------------
EXTENDS LruK, TLC, Json, IOUtils
VARIABLES tid, i, s
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
TInits(c) == {LInit(c.k)}
INSTANCE TraceCheck WITH Traces <- TraceLog, Inits <- TInits, Outcomes <- LOutcomes
Inv == LType(s) /\ LVictimExists(s) /\ LNoStarve(s)
=============================================================================
