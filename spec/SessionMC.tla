----------------------------- MODULE SessionMC -----------------------------
(* All histories of two clients with up to D requests: what a session may    *)
(* see and change.                                                           *)
EXTENDS Session, TLC
CONSTANT D
VARIABLES s, last, hist, n
vars == <<s, last, hist, n>>
MClients == {1, 2}
MKeys == {11, 12, 21}
V == {1, 2}
Cmds == {[op |-> o, c |-> c, iso |-> i, k |-> 0, k2 |-> 0, v |-> 0] : o \in {"begin"}, c \in Clients, i \in {"RU", "RC", "RR"}}
   \cup {[op |-> o, c |-> c, iso |-> "", k |-> 0, k2 |-> 0, v |-> 0] : o \in {"open", "close", "commit", "rollback", "sel", "bad"}, c \in Clients}
   \cup UNION {{[op |-> o, c |-> c, iso |-> "", k |-> k, k2 |-> 0, v |-> v] : o \in {"ins", "upd"}, k \in Own(c), v \in V} : c \in Clients}
   \cup UNION {{[op |-> o, c |-> c, iso |-> "", k |-> k, k2 |-> 0, v |-> 0] : o \in {"del"}, k \in Own(c)} : c \in Clients}
   \cup {[op |-> "ins2", c |-> 1, iso |-> "", k |-> 11, k2 |-> 12, v |-> v] : v \in V}
Init == s = SInit /\ last = [op |-> "", c |-> 1] /\ hist = {SInit.db} /\ n = 0
Next == \E e \in Cmds : \E o \in SOutcomes(s, e) :
          /\ n < D /\ n' = n + 1 /\ (e.op = "open" => ~s.cl[e.c].on)
          /\ s' = o.s /\ last' = [op |-> e.op, c |-> e.c, ok |-> o.r.ok, rows |-> o.r.rows] /\ hist' = hist \cup {o.s.db}
Spec == Init /\ [][Next]_vars
Others(t, c) == [k \in Keys \ Own(c) |-> t[k]]
(* above READ UNCOMMITTED a client sees of the others some one committed table - at RR the one at BEGIN *)
Clean == \A c \in Clients : LET x == s.cl[c] IN
          /\ (x.on /\ x.iso # "RU") => \E t \in hist : Others(View(s, c), c) = Others(t, c)
          /\ (x.tx /\ x.iso = "RR") => Others(View(s, c), c) = Others(x.snap, c)
          /\ ~x.tx => x.w = NoW
(* the committed table changes only by COMMIT or by a statement outside a transaction, and only in that client's rows;
   refused requests change nothing but, inside a transaction, the transaction itself; nobody ends another's transaction *)
Steps == [][LET c == last'.c IN
            /\ s'.db # s.db => /\ last'.ok = 1 /\ Others(s'.db, c) = Others(s.db, c)
                               /\ IF s.cl[c].tx THEN last'.op = "commit" /\ s'.db = Over(s.db, s.cl[c].w) /\ ~s.cl[c].dead
                                  ELSE last'.op \in {"ins", "ins2", "upd", "del"}
            /\ \A d \in Clients \ {c} : s'.cl[d] = s.cl[d]
            /\ last'.ok = 0 /\ ~s.cl[c].tx => s' = s
            /\ last'.op \in {"begin"} /\ s.cl[c].tx => s' = s
            /\ s.cl[c].dead => s'.db = s.db]_vars
=============================================================================
