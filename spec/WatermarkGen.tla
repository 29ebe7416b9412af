----------------------------- MODULE WatermarkGen -----------------------------
EXTENDS Watermark, TLC, Sequences, IOUtils
VARIABLES cfg, s, hist, done
D == atoi(IOEnv.DEPTH)
GInits(c) == {WInit}
GCmds(t) == {[op |-> x, r |-> t.next] : x \in {"next", "reg"}} \cup {[op |-> x, ts |-> a] : x \in {"rem", "unreg"}, a \in t.act \cup {t.next + 1}}
            \cup {[op |-> x, ts |-> t.next + d] : x \in {"com", "comget"}, d \in {-1, 3}}
INSTANCE GenBase WITH Cfgs <- {[n |-> 0]}, Inits <- GInits, Cmds <- GCmds, Outcomes <- WOutcomes, Depth <- D
=============================================================================
