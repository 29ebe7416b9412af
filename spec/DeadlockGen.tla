---------------------------- MODULE DeadlockGen ----------------------------
EXTENDS Deadlock, Sequences, TLC, IOUtils
VARIABLES cfg, s, hist, done
D == atoi(IOEnv.DEPTH)
GInits(c) == {GInit}
GCmds(t) == [op : {"add"}, a : 1..3, b : 1..3] \cup [op : {"rem"}, a : Nodes(t.e)] \cup {[op |-> "cycle"]}
INSTANCE GenBase WITH Cfgs <- {[n |-> 3]}, Inits <- GInits, Cmds <- GCmds, Outcomes <- GOutcomes, Depth <- D
=============================================================================
