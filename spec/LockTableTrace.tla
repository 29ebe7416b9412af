--------------------------- MODULE LockTableTrace ---------------------------
EXTENDS LockTable, TLC, Json, IOUtils
VARIABLES tid, i, s
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
TInits(c) == {LInit(c.iso, c.nt, c.nr)}
TOut(z, e) == IF e.op = "cfg" THEN {} ELSE IF z.iso[1] = "NONE" THEN BareOutcomes(z, e) ELSE LOutcomes(z, e)
INSTANCE TraceCheck WITH Traces <- TraceLog, Inits <- TInits, Outcomes <- TOut
Inv == Inv1(s)
=============================================================================
