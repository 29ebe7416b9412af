---------------------------- MODULE RecoveryGen ----------------------------
EXTENDS Recovery, TLC, IOUtils
VARIABLES cfg, s, hist, done
D == atoi(IOEnv.DEPTH)
GCfgs == [pool : {16}, init : {<<1, 1>>, <<1, 0>>, <<0, 0>>, <<0, 1>>}]
GInits(c) == {RInit}
(* in simulation a crash is as likely as any class of command *)
GCmds(t) == RCmds(t, 1..2, 1..2, 0..1, {0, 30}, Len(t.log) + 1) \cup {c \in RCrashes(t) : c.torn = (Len(t.log) + t.rec) % 7}
(* one outcome per crash is enough: what survives is up to the driver *)
GOutcomes(t, c) == IF c.op = "crash" THEN LET m == IF Len(t.log) - c.d < t.dur THEN t.dur ELSE Len(t.log) - c.d IN ROne(Crash(t, m), m)
                   ELSE ROutcomes(t, c)
INSTANCE GenBase WITH Cfgs <- GCfgs, Inits <- GInits, Cmds <- GCmds, Outcomes <- GOutcomes, Depth <- D
=============================================================================
