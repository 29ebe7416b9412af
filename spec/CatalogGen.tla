----------------------------- MODULE CatalogGen -----------------------------
EXTENDS CatalogCmds, TLC, IOUtils
VARIABLES cfg, s, hist, done
D == atoi(IOEnv.DEPTH)
GInits(c) == {CatInit(0)}
INSTANCE GenBase WITH Cfgs <- {[pool |-> 64]}, Inits <- GInits, Cmds <- KCmds, Outcomes <- KOutcomes, Depth <- D
=============================================================================
