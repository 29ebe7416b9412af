-------------------------------- MODULE Mvcc --------------------------------
(* Multi-version rows under transactions (properties M01-M04).               *)
(*   rows[k] = [tb, v]   the versions of row k of table tb, newest first,     *)
(*             each [by, c, n, l]: writer, commit timestamp (0: uncommitted), *)
(*             content n of length l (l = -1: the row is deleted)             *)
(*   tx[t]   = [iso, st, rts, cts]   transactions in the order they began     *)
(*             st: RUN, DOOMED (marked aborted, changes not yet undone), COM, ABT *)
(*   lk      the transactions that hold table locks                           *)
(*   last    the last timestamp issued, wm the last watermark seen            *)
(* Timestamps come from the event; the specification constrains their order.  *)
EXTENDS Integers, Sequences, FiniteSets
MInit == [rows |-> <<>>, tx |-> <<>>, lk |-> {}, last |-> 0, wm |-> 0]

DEL == -1
Isos == {"RU", "RC", "RR", "SER", "SNAP"}
(* ---- reads ---- *)
RECURSIVE Newest(_, _, _)
\* the newest version that t may see among those committed up to ts, its own first
Newest(v, t, ts) == IF v = <<>> THEN <<>>
                    ELSE IF Head(v).by = t \/ (Head(v).c # 0 /\ Head(v).c <= ts) THEN <<Head(v)>>
                    ELSE Newest(Tail(v), t, ts)
Sees(s, t, k) ==
  LET v == s.rows[k].v
      iso == s.tx[t].iso
  IN  CASE iso = "RU" -> IF v = <<>> THEN <<>> ELSE <<Head(v)>>
        [] iso = "RC" -> Newest(v, t, s.last + 1)
        [] OTHER      -> Newest(v, t, s.tx[t].rts)
Value(x) == IF x = <<>> \/ x[1].l = DEL THEN <<>> ELSE <<x[1].n, x[1].l>>
ReadRow(s, t, k) == Value(Sees(s, t, k))

(* ---- writes ---- *)
Running(s, t) == s.tx[t].st = "RUN"
Live(s, k) == s.rows[k].v # <<>> /\ Head(s.rows[k].v).l # DEL
Writable(s, t, k) == /\ Running(s, t) /\ Live(s, k)
                     /\ Head(s.rows[k].v).c # 0 \/ Head(s.rows[k].v).by = t
\* a transaction keeps one uncommitted version per row: its last write
Put(s, t, k, n, l) ==
  LET v == s.rows[k].v
      old == IF Head(v).c = 0 THEN Tail(v) ELSE v
  IN  [s EXCEPT !.rows[k].v = <<[by |-> t, c |-> 0, n |-> n, l |-> l]>> \o old]

(* ---- ends of transactions ---- *)
Mine(r, t) == r.v # <<>> /\ Head(r.v).c = 0 /\ Head(r.v).by = t
Stamp(r, t, ts) == IF Mine(r, t) THEN [r EXCEPT !.v[1].c = ts] ELSE r
Undo(r, t) == IF Mine(r, t) THEN [r EXCEPT !.v = Tail(@)] ELSE r
Registered(s) == {t \in DOMAIN s.tx : s.tx[t].st \in {"RUN", "DOOMED"}}
MinTs(S) == CHOOSE x \in S : \A y \in S : x <= y
WatermarkOk(s, w) == /\ w >= s.wm
                     /\ IF Registered(s) = {} THEN w \in {s.last, s.last + 1}
                        ELSE w = MinTs({s.tx[t].rts : t \in Registered(s)})

\* rows of table tb visible to t, in the order they were inserted
RECURSIVE ScanFrom(_, _, _, _)
ScanFrom(s, t, tb, k) == IF k > Len(s.rows) THEN <<>>
                         ELSE (IF s.rows[k].tb = tb /\ ReadRow(s, t, k) # <<>> THEN <<<<k>> \o ReadRow(s, t, k)>> ELSE <<>>)
                              \o ScanFrom(s, t, tb, k + 1)

MOutcomes(s, e) ==
  CASE e.op = "begin" -> IF e.r > s.last
                         THEN {[s |-> [s EXCEPT !.tx = Append(@, [iso |-> e.iso, st |-> "RUN", rts |-> e.r, cts |-> 0]), !.last = e.r], r |-> e.r]}
                         ELSE {}
    [] e.op = "ins"  -> IF Running(s, e.t)
                        THEN {[s |-> [s EXCEPT !.rows = Append(@, [tb |-> e.tb, v |-> <<[by |-> e.t, c |-> 0, n |-> e.n, l |-> e.l]>>]),
                                               !.lk = @ \cup {e.t}], r |-> TRUE]}
                        ELSE {[s |-> s, r |-> FALSE]}
    [] e.op = "upd"  -> (IF Writable(s, e.t, e.k) THEN {[s |-> Put(s, e.t, e.k, e.n, e.l), r |-> TRUE]} ELSE {[s |-> s, r |-> FALSE]})
                        \* growing a row may be refused for lack of room
                        \cup (IF Live(s, e.k) /\ e.l > Head(s.rows[e.k].v).l THEN {[s |-> s, r |-> FALSE]} ELSE {})
    [] e.op = "del"  -> IF Writable(s, e.t, e.k)
                        THEN {[s |-> Put(s, e.t, e.k, 0, DEL), r |-> TRUE]} ELSE {[s |-> s, r |-> FALSE]}
    [] e.op = "read" -> {[s |-> s, r |-> ReadRow(s, e.t, e.k)]}
    [] e.op = "scan" -> {[s |-> s, r |-> ScanFrom(s, e.t, e.tb, 1)]}
    [] e.op = "commit" ->
         LET x == s.tx[e.t] IN
         CASE x.st = "RUN" -> IF e.r[1] /\ e.r[2] > s.last
                              THEN {[s |-> [s EXCEPT !.tx[e.t].st = "COM", !.tx[e.t].cts = e.r[2], !.last = e.r[2], !.lk = @ \ {e.t},
                                                     !.rows = [k \in DOMAIN s.rows |-> Stamp(s.rows[k], e.t, e.r[2])]], r |-> e.r]}
                              ELSE {}
           [] x.st = "COM" -> {[s |-> s, r |-> <<TRUE, x.cts>>]}         \* committing again changes nothing
           [] OTHER        -> {[s |-> [s EXCEPT !.lk = @ \ {e.t}], r |-> <<FALSE, 0>>]}
    [] e.op = "abort" -> IF s.tx[e.t].st = "COM" THEN {[s |-> s, r |-> "COM"]}
                         ELSE {[s |-> [s EXCEPT !.tx[e.t].st = "ABT", !.lk = @ \ {e.t},
                                                !.rows = [k \in DOMAIN s.rows |-> Undo(s.rows[k], e.t)]], r |-> "ABT"]}
    \* the lock manager dooms a transaction (deadlock victim): only its rollback is left
    [] e.op = "doom"  -> {[s |-> IF Running(s, e.t) THEN [s EXCEPT !.tx[e.t].st = "DOOMED"] ELSE s, r |-> 0]}
    [] e.op \in {"gc", "churn"} -> {[s |-> s, r |-> 0]}
    [] e.op = "wm"    -> IF WatermarkOk(s, e.r) THEN {[s |-> [s EXCEPT !.wm = e.r], r |-> e.r]} ELSE {}
    [] e.op = "locks" -> {[s |-> s, r |-> [t \in DOMAIN s.tx |-> IF t \in s.lk THEN 1 ELSE 0]]}

(* ---- invariants of the abstract machine ---- *)
Ordered(s) == \A k \in DOMAIN s.rows : \A i, j \in DOMAIN s.rows[k].v :
                i < j => s.rows[k].v[j].c # 0 /\ (s.rows[k].v[i].c = 0 \/ s.rows[k].v[i].c > s.rows[k].v[j].c)
\* an uncommitted version belongs to a transaction that has not ended
OwnersRun(s) == \A k \in DOMAIN s.rows : \A i \in DOMAIN s.rows[k].v :
                  LET x == s.rows[k].v[i] IN IF x.c = 0 THEN s.tx[x.by].st \in {"RUN", "DOOMED"} ELSE s.tx[x.by].st = "COM" /\ s.tx[x.by].cts = x.c
\* above READ UNCOMMITTED nothing uncommitted or rolled back is seen, and above READ COMMITTED nothing newer than the snapshot
CleanReads(s) == \A t \in DOMAIN s.tx, k \in DOMAIN s.rows :
                   LET x == Sees(s, t, k) IN x # <<>> /\ s.tx[t].iso # "RU" /\ x[1].by # t =>
                      x[1].c # 0 /\ (s.tx[t].iso # "RC" => x[1].c < s.tx[t].rts)
MSound(s) == Ordered(s) /\ OwnersRun(s) /\ CleanReads(s)
=============================================================================
