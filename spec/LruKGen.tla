------------------------------ MODULE LruKGen ------------------------------
EXTENDS LruK, TLC, IOUtils
VARIABLES cfg, s, hist, done
D == atoi(IOEnv.DEPTH)
GCfgs == {[size |-> 3, k |-> k] : k \in 1..3}
GInits(c) == {LInit(c.k)}
GCmds(t) == [op : {"access"}, f : 1..3, t : {0}] \cup [op : {"set"}, f : 1..3, b : {0, 1}]
            \cup [op : {"remove"}, f : 1..3] \cup [op : {"evict", "frames", "evictable"}]
INSTANCE GenBase WITH Cfgs <- GCfgs, Inits <- GInits, Cmds <- GCmds, Outcomes <- LOutcomes, Depth <- D
=============================================================================
