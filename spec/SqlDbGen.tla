------------------------------ MODULE SqlDbGen ------------------------------
EXTENDS SqlCmds, TLC, IOUtils
VARIABLES cfg, s, hist, done
D == atoi(IOEnv.DEPTH)
GCfgs == IF IOEnv.CONSTRAINED = "1" THEN Constrained ELSE {Plain}
GInits(c) == {CInit(c)}
INSTANCE GenBase WITH Cfgs <- GCfgs, Inits <- GInits, Cmds <- CCmds, Outcomes <- COutcomes, Depth <- D
=============================================================================
