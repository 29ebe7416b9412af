---------------------------- MODULE IoTrackTrace ----------------------------
EXTENDS IoEngine, TLC, Json, IOUtils
VARIABLES tid, i, s
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
TInits(c) == {TkInit}
INSTANCE TraceCheck WITH Traces <- TraceLog, Inits <- TInits, Outcomes <- TkOutcomes
Inv == \A h \in DOMAIN s.w : s.w[h].r = <<>> => \E k \in s.w[h].ks : IsPending(s, k)
=============================================================================
