----------------------------- MODULE CachesGen -----------------------------
EXTENDS Caches, TLC, IOUtils
VARIABLES cfg, s, hist, done
D == atoi(IOEnv.DEPTH)
GCfgs == [kind : {"fifo", "lru", "clru", "lfu", "heaplfu", "lruk"}, cap : 0..3, k : {2}]
GInits(c) == {CInit(c)}
GCmds(t) == CCmds(t, 1..4, {1, 2}) \cup [op : {"len", "peek"}]
            \cup [op : {"contains"} \cup (IF IsLfu(t) \/ IsLruk(t) THEN {"info"} ELSE IF t.kind = "clru" THEN {} ELSE {"rank"}), k : 1..4]
INSTANCE GenBase WITH Cfgs <- GCfgs, Inits <- GInits, Cmds <- GCmds, Outcomes <- COutcomes, Depth <- D
=============================================================================
