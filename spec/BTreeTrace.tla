----------------------------- MODULE BTreeTrace -----------------------------
EXTENDS BTree, TLC, Json, IOUtils
VARIABLES tid, i, s
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
TInits(c) == {TInit0(c.lo, c.hi, c.order)}
INSTANCE TraceCheck WITH Traces <- TraceLog, Inits <- TInits, Outcomes <- BOutcomes
=============================================================================
