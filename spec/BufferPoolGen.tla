--------------------------- MODULE BufferPoolGen ---------------------------
EXTENDS BufferPool, TLC, IOUtils
VARIABLES cfg, s, hist, done
D == atoi(IOEnv.DEPTH)
H == 0..2
GCfgs == [pool : {1, 2}, k : {2}, handles : {5}, cache : {0, 10}, buffer : {0, 1}, threshold : {2, 100}, fsync : {1}, level : {2}, steal : {1}]
GInits(c) == {BInit(c.pool, 0..4)}
FreeH(t) == {x \in H : t.h[x].p = -1}
GCmds(t) == (IF FreeH(t) = {} THEN {} ELSE
               LET x == CHOOSE y \in FreeH(t) : \A z \in FreeH(t) : y <= z
               IN  (IF t.next < 4 THEN [op : {"new"}, h : {x}] ELSE {}) \cup [op : {"fetch"}, p : 0..t.next - 1, h : {x}]
                   \cup [op : {"fetchbad"}, p : 0..t.next - 1])
            \cup [op : {"write"}, h : H \ FreeH(t), v : {1}] \cup [op : {"read", "drop"}, h : H \ FreeH(t)]
            \cup [op : {"flush", "delete", "disk"}, p : 0..t.next - 1]
            \cup [op : {"wpage"}, p : 0..t.next - 1, v : {1}]
            \cup [op : {"flushall", "free"}] \cup [op : {"flushdirty"}, n : {1, 9}]
INSTANCE GenBase WITH Cfgs <- GCfgs, Inits <- GInits, Cmds <- GCmds, Outcomes <- BOutcomes, Depth <- D
=============================================================================
