------------------------------ MODULE WalTrace ------------------------------
EXTENDS Wal, TLC, Json, IOUtils
VARIABLES tid, i, s, pend
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
TInits(c) == {WInit}
THidden(st, e) == {}
INSTANCE LinCheck WITH Traces <- TraceLog, Inits <- TInits, Outcomes <- WOutcomes, Hidden <- THidden
Inv == WInv(s)
=============================================================================
