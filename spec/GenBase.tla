------------------------------ MODULE GenBase ------------------------------
(* Behaviour generation: every behaviour of length Depth is printed as a      *)
(* JSON command sequence, to be executed on the real code.  With TLC's        *)
(* breadth-first search this enumerates all of them, with -simulate it        *)
(* samples them.                                                              *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Cfgs, Inits(_), Cmds(_), Outcomes(_, _), Depth
VARIABLES cfg, s, hist, done
GInit == cfg \in Cfgs /\ s \in Inits(cfg) /\ hist = <<>> /\ done = FALSE
GNext == \/ /\ Len(hist) < Depth
            /\ \E c \in Cmds(s) : \E o \in Outcomes(s, c) : s' = o.s /\ hist' = Append(hist, c)
            /\ UNCHANGED <<cfg, done>>
         \/ /\ Len(hist) = Depth /\ ~done /\ done' = TRUE
            /\ UNCHANGED <<cfg, s, hist>>
GSpec == GInit /\ [][GNext]_<<cfg, s, hist, done>>
GOut == done => PrintT(ToJson([cfg |-> cfg, cmds |-> hist]))
=============================================================================
