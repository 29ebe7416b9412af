---------------------------- MODULE CatalogTrace ----------------------------
EXTENDS Catalog, TLC, Json, IOUtils
VARIABLES tid, i, s
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
TInits(c) == {CatInit(0)}
INSTANCE TraceCheck WITH Traces <- TraceLog, Inits <- TInits, Outcomes <- CatOutcomes
Inv == TRUE
=============================================================================
