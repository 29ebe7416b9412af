-------------------------- MODULE BufferPoolTrace --------------------------
EXTENDS BufferPool, TLC, Json, IOUtils
VARIABLES tid, i, s
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
TInits(c) == {BInit(c.pool, 0..c.handles - 1)}
INSTANCE TraceCheck WITH Traces <- TraceLog, Inits <- TInits, Outcomes <- BOutcomes
Inv == BInv(s)
=============================================================================
