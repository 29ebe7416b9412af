------------------------------ MODULE Recovery ------------------------------
(* Crash recovery as seen from outside (property R02).  The state is the log  *)
(* the transactions wrote and which part of it is known to be on disk.  What  *)
(* a row holds is a function of the log alone: the last write to it by a      *)
(* transaction that committed or is still running.  A crash keeps some prefix *)
(* of the log that contains everything known to be on disk; after recovery    *)
(* the transactions that had no commit record in it never happened.           *)
(* A record is [op, t, k, v, dead]; v is a row value <<n, l>>, or <<>> for    *)
(* "no row"; dead marks records of transactions that died with a crash.       *)
EXTENDS Integers, Sequences, FiniteSets

ROne(s, r) == {[s |-> s, r |-> r]}
RInit == [up |-> TRUE, log |-> <<>>, dur |-> 0, act |-> {}, rec |-> 0]

Ends(log, j) == {m \in j + 1..Len(log) : log[m].t = log[j].t /\ log[m].op \in {"C", "A"}}
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
(* the transaction that wrote record j committed, or has not ended *)
Stands(log, j) == /\ ~log[j].dead
                  /\ LET E == Ends(log, j) IN E = {} \/ log[MinOf(E)].op = "C"
Ended(log, j) == LET E == Ends(log, j) IN E # {}
Writes(log, k) == {j \in DOMAIN log : log[j].op = "W" /\ log[j].k = k /\ Stands(log, j)}
(* <<n, l, c>>: c = 1 when recovery vouches for the row (it counts as committed) *)
Row(s, k) == LET W == Writes(s.log, k)
             IN  IF W = {} THEN <<>>
                 ELSE LET j == MaxOf(W) IN IF s.log[j].v = <<>> THEN <<>> ELSE s.log[j].v \o <<IF j <= s.rec THEN 1 ELSE 0>>
Val(s, k) == LET r == Row(s, k) IN IF r = <<>> THEN <<>> ELSE <<r[1], r[2]>>

Rec(op, t, k, v) == [op |-> op, t |-> t, k |-> k, v |-> v, dead |-> FALSE, del |-> <<>>]
Add(s, r) == [s EXCEPT !.log = Append(@, r)]
(* the row's value before it was marked deleted *)
Marked(s, k) == LET W == Writes(s.log, k) IN IF W = {} THEN <<>> ELSE s.log[MaxOf(W)].del
Write(s, e, v, d) == ROne(Add(s, [Rec("W", e.t, e.k, v) EXCEPT !.del = d]), 1)

Crash(s, kept) == [up |-> FALSE, log |-> SubSeq(s.log, 1, kept), dur |-> kept, act |-> {}, rec |-> IF s.rec < kept THEN s.rec ELSE kept]
Recovered(s) == [s EXCEPT !.up = TRUE, !.rec = Len(s.log),
                          !.log = [j \in DOMAIN @ |-> IF Ended(@, j) THEN @[j] ELSE [@[j] EXCEPT !.dead = TRUE]]]

ROutcomes(s, e) ==
  CASE e.op = "begin" -> ROne([Add(s, Rec("B", e.t, 0, <<>>)) EXCEPT !.act = @ \cup {e.t}], 1)
    [] e.op \in {"ins", "upd"} -> Write(s, e, <<e.n, e.l>>, <<>>)
    [] e.op = "ins2" ->   \* two rows inserted at the same time, in the order in which they are logged
         ROne(Add(Add(s, Rec("W", e.t, e.k, <<e.n, e.l>>)), Rec("W", e.t2, e.k2, <<e.n, e.l>>)), 1)
    [] e.op = "mark" -> Write(s, e, <<>>, Val(s, e.k))
    [] e.op = "unmark" -> Write(s, e, Marked(s, e.k), <<>>)
    [] e.op = "apply" -> Write(s, e, <<>>, <<>>)
    [] e.op = "newpage" -> ROne(Add(s, Rec("P", e.t, 0, <<>>)), 1)
    [] e.op = "commit" -> LET n == [Add(s, Rec("C", e.t, 0, <<>>)) EXCEPT !.act = @ \ {e.t}]
                          IN  ROne([n EXCEPT !.dur = Len(n.log)], 1)
    [] e.op = "abort" -> ROne([Add(s, Rec("A", e.t, 0, <<>>)) EXCEPT !.act = @ \ {e.t}], 1)
    [] e.op = "flush" -> ROne([s EXCEPT !.dur = Len(s.log)], 1)   \* a page reaches the disk after the log
    [] e.op = "crash" -> {[s |-> Crash(s, m), r |-> m] : m \in s.dur..Len(s.log)}
    [] e.op = "recover" -> ROne(Recovered(s), 1)
    [] e.op = "read" -> ROne(s, Row(s, e.k))
    [] e.op = "scan" -> ROne(s, Cardinality({k \in {s.log[j].k : j \in {x \in DOMAIN s.log : s.log[x].op = "W"}} : Row(s, k) # <<>>}))

(* who last wrote a row that has not ended: only it may write the row next *)
Owner(s, k) == LET W == {j \in Writes(s.log, k) : ~Ended(s.log, j)} IN IF W = {} THEN 0 ELSE s.log[MaxOf(W)].t
Free(s, k, t) == Owner(s, k) \in {0, t}
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == MinOf(S) IN <<x>> \o SeqOf(S \ {x})
Applied(s, k) == LET W == Writes(s.log, k) IN W # {} /\ s.log[MaxOf(W)].v = <<>> /\ s.log[MaxOf(W)].del = <<>>
(* commands that respect two-phase locking, with the value n *)
RCmds(s, T, K, P, L, n) ==
  IF ~s.up THEN {[op |-> "recover", again |-> 0]}
  ELSE [op : {"begin"}, t : T \ s.act]
       \cup UNION {LET v == Val(s, k) IN
              CASE ~Free(s, k, t) -> {}
                [] v # <<>> -> {[op |-> "upd", t |-> t, k |-> k, n |-> n, l |-> l] : l \in L} \cup {[op |-> "mark", t |-> t, k |-> k]}
                [] v = <<>> /\ Owner(s, k) = t /\ Marked(s, k) # <<>> ->
                       {[op |-> "apply", t |-> t, k |-> k], [op |-> "unmark", t |-> t, k |-> k]}
                [] OTHER -> {[op |-> "ins", t |-> t, k |-> k, p |-> p, n |-> n, l |-> l] : p \in P, l \in L}
              : t \in s.act, k \in K}
       \cup UNION {IF x[1] # x[2] /\ x[3] # x[4] /\ \A y \in {<<x[1], x[3]>>, <<x[2], x[4]>>} :
                         Free(s, y[2], y[1]) /\ Val(s, y[2]) = <<>> /\ ~(Owner(s, y[2]) = y[1] /\ Marked(s, y[2]) # <<>>)
                    THEN {[op |-> "ins2", t |-> x[1], t2 |-> x[2], k |-> x[3], k2 |-> x[4], p |-> p, n |-> n, l |-> l] : p \in P, l \in L}
                    ELSE {} : x \in s.act \X s.act \X K \X K}
       \cup [op : {"commit", "abort"}, t : s.act]
       \cup [op : {"flush"}, p : P]
       \cup [op : {"read"}, k : K] \cup {[op |-> "scan"]}
       \cup (IF s.act = {} THEN {[op |-> "recover", again |-> 1]} ELSE {})
RCrashes(s) == IF s.up THEN [op : {"crash"}, d : 0..2, torn : 0..6] ELSE {}

RInv(s) == s.dur <= Len(s.log) /\ s.rec <= Len(s.log)
=============================================================================
