----------------------------- MODULE DiskTrace -----------------------------
EXTENDS Disk, TLC, Json, IOUtils
VARIABLES tid, i, s
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
TInits(c) == {DInit(0..c.pages - 1, c.fsync # 0)}
INSTANCE TraceCheck WITH Traces <- TraceLog, Inits <- TInits, Outcomes <- DOutcomes
Inv == \A p \in DOMAIN s.pg : s.pg[p].cur # {} /\ s.pg[p].file # {} /\ s.pg[p].syn # {}
=============================================================================
