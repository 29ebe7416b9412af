----------------------------- MODULE ExtDirGen -----------------------------
EXTENDS ExtDir, TLC, IOUtils
VARIABLES cfg, s, hist, done
D == atoi(IOEnv.DEPTH)
GCfgs == [max : {1, 2, 3}, verify : {1}]
GInits(c) == {DirInit(c.max)}
GCmds(d) == [op : {"split", "split2", "merge", "merge", "image", "mask"}, i : Slots(d), b : {0}] \cup [op : {"shrink", "grow"}, i : {0}]
            \cup [op : {"index"}, i : {0}, h : {5, 511}]
INSTANCE GenBase WITH Cfgs <- GCfgs, Inits <- GInits, Cmds <- GCmds, Outcomes <- DOutcomes, Depth <- D
=============================================================================
