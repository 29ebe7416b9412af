---------------------------- MODULE LockTableGen ----------------------------
(* one table, one row, three transactions: all histories of the bare lock table *)
EXTENDS LockTable, TLC, IOUtils
VARIABLES cfg, s, hist, done
D == atoi(IOEnv.DEPTH)
GCfgs == {[iso |-> <<"NONE", "NONE", "NONE">>, nt |-> 1, nr |-> 0]}
GInits(c) == {LInit(c.iso, c.nt, c.nr)}
GCmds(t) == [op : {"lockT"}, t : 1..3, m : Modes, tb : {1}] \cup {c \in [op : {"unlockT"}, t : 1..3, tb : {1}] : Held(t.q[1], c.t) # {}}
            \cup {c \in [op : {"force"}, t : 1..3] : Held(t.q[1], c.t) # {} \/ Waits(t.q[1], c.t) # {}}
INSTANCE GenBase WITH Cfgs <- GCfgs, Inits <- GInits, Cmds <- GCmds, Outcomes <- BareOutcomes, Depth <- D
=============================================================================
