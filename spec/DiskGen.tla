------------------------------ MODULE DiskGen ------------------------------
EXTENDS Disk, TLC, IOUtils
VARIABLES cfg, s, hist, done
D == atoi(IOEnv.DEPTH)
P == 0..1
(* no cache / tiny tiers; write-through / buffered; sync policies *)
GCfgs == [pages : {2}, cache : {0, 3, 10}, hot : {34}, warm : {34}, buffer : {0, 1}, threshold : {1, 2, 100}, batch : {1, 64},
          fsync : {0, 1}, level : {2}, steal : {1}]
GInits(c) == {DInit(P, c.fsync # 0)}
GCmds(t) == [op : {"write"}, p : P, v : {t.n + 1}] \cup [op : {"wbatch"}, ps : {<<0, 1>>, <<1, 1>>}, vs : {<<t.n + 1, t.n + 2>>}]
            \cup [op : {"read", "file", "synced"}, p : P] \cup [op : {"rbatch"}, ps : {<<0, 1>>, <<1, 0, 1>>}]
            \cup [op : {"flush", "force", "sync", "reopen", "crash", "powerloss"}]
INSTANCE GenBase WITH Cfgs <- GCfgs, Inits <- GInits, Cmds <- GCmds, Outcomes <- DOutcomes, Depth <- D
=============================================================================
