------------------------------ MODULE Durable ------------------------------
(* Rows on disk under transactions (property R04). Beside the rows and        *)
(* transactions of Mvcc, for every row what a crash at this moment may leave: *)
(*   d[k]  the versions <<content, length, commit timestamp>> the disk may    *)
(*         hold (<<>>: none; timestamp 0: uncommitted; length -1: deleted)    *)
(* A write may reach the disk at any time, or not. A commit leaves one        *)
(* possibility for every row it wrote: the row as committed.                  *)
EXTENDS Mvcc
DInit == [m |-> MInit, d |-> <<>>]
Disk(x) == <<x.n, x.l, x.c>>
Gone == <<0, DEL, 0>>
\* what the step from a to b, made by event e, does to the disk
Reach(a, b, d, e) ==
  CASE e.op = "ins" /\ e.r -> Append(d, {<<>>, <<e.n, e.l, 0>>})
    [] e.op \in {"upd", "del"} /\ e.r -> [d EXCEPT ![e.k] = @ \cup {Disk(Head(b.rows[e.k].v))}]
    [] e.op = "commit" -> [k \in DOMAIN d |-> IF a.tx[e.t].st = "RUN" /\ Mine(a.rows[k], e.t) THEN {Disk(Head(b.rows[k].v))} ELSE d[k]]
    [] e.op = "abort" -> [k \in DOMAIN d |-> IF a.rows[k].v = b.rows[k].v THEN d[k]
                                             ELSE d[k] \cup {IF b.rows[k].v = <<>> THEN Gone ELSE Disk(Head(b.rows[k].v))}]
    [] OTHER -> d
Live3(x) == x # <<>> /\ x[2] # DEL
Pick(m, tb, P(_)) == SelectSeq([k \in DOMAIN m.rows |-> k], LAMBDA k : m.rows[k].tb = tb /\ P(k))
\* got[1]: every row by its id; got[2]: the rows a scan of each table meets
Found(s, got) ==
  /\ DOMAIN got[1] = DOMAIN s.d
  /\ \A k \in DOMAIN s.d : got[1][k] \in s.d[k]
  /\ \A tb \in {0, 1} :
       LET sc == got[2][tb + 1]
           must == Pick(s.m, tb, LAMBDA k : \A x \in s.d[k] : Live3(x))
       IN  /\ sc = Pick(s.m, tb, LAMBDA k : \E i \in DOMAIN sc : sc[i] = k)        \* in order, once each
           /\ \A i \in DOMAIN sc : Live3(got[1][sc[i]])
           /\ \A i \in DOMAIN must : \E j \in DOMAIN sc : sc[j] = must[i]
DOutcomes(s, e) ==
  IF e.op = "look" THEN IF Found(s, e.r) THEN {[s |-> s, r |-> e.r]} ELSE {}
  ELSE {[s |-> [m |-> o.s, d |-> Reach(s.m, o.s, s.d, [e EXCEPT !.r = o.r])], r |-> o.r] : o \in MOutcomes(s.m, e)}

(* what the machine promises: the newest committed version of a row is one the disk may hold, and it is the only one *)
(* while nobody has written the row since                                                                          *)
Committed(v) == IF v = <<>> THEN <<>> ELSE IF Head(v).c # 0 THEN <<Head(v)>> ELSE IF Len(v) > 1 THEN <<v[2]>> ELSE <<>>
DSound(s) == /\ MSound(s.m) /\ DOMAIN s.d = DOMAIN s.m.rows
             /\ \A k \in DOMAIN s.d : LET c == Committed(s.m.rows[k].v) IN
                  /\ c # <<>> => Disk(c[1]) \in s.d[k]
                  /\ s.m.rows[k].v # <<>> => Disk(Head(s.m.rows[k].v)) \in s.d[k]
=============================================================================
