----------------------------- MODULE SqlReadMC -----------------------------
(* readers next to one writer: a reader sees a database that was committed, all of it and nothing else;
   at Read Committed the latest, at the higher levels the one that was the latest when it began *)
EXTENDS SqlCmds
CONSTANTS MaxRows, MaxVal, MaxCommits
VARIABLES s, c, b        \* c: the committed databases so far; b: for each reader, how many there were when it began
vars == <<s, c, b>>
Less(x, y) == \E j \in 1..Len(x) : (\A i \in 1..(j - 1) : x[i] = y[i]) /\ SeqCmp(<<x[j][1]>> \o x[j][2], <<y[j][1]>> \o y[j][2]) < 0
Bags(w) == [i \in 1..2 |-> SortSeq(w[i], Less)]
Canon(t) == [t EXCEPT !.w = Bags(@), !.d = Bags(@)]
Readers == 1..2
ReadCmds == {[op |-> "hold", k |-> k, iso |-> i] : k \in Readers \ DOMAIN s.h, i \in {"RC", "SNAP"}} \cup {[op |-> "drop", k |-> k] : k \in DOMAIN s.h}
Init == s = CInit(Plain) /\ c = <<s.w>> /\ b = <<>>
Writes == {e \in CCmds(s) : e.op \in {"begin", "commit", "abort"} \/ e \in {InsV(1, <<<<IntV(3), IntV(1)>>>>), Upd(1, Scan(1), <<<<0, Inc>>>>), Del(1, Where(1, 0, 2)), Upd(2, Scan(2), <<<<0, Inc>>>>)}}
Next ==
  \/ \E e \in Writes : \E o \in COutcomes(s, e) :
       LET t == Canon(o.s) IN s' = t /\ c' = (IF t.x = 0 /\ t.w # Committed(s) THEN Append(c, t.w) ELSE c) /\ b' = b
  \/ \E e \in ReadCmds : \E o \in COutcomes(s, e) :
       s' = o.s /\ c' = c /\ b' = [k \in DOMAIN o.s.h |-> IF k \in DOMAIN b THEN b[k] ELSE Len(c)]
Spec == Init /\ [][Next]_vars
Small == Len(c) <= MaxCommits /\ \A t \in 1..2 : Len(s.w[t]) <= MaxRows /\ \A i \in 1..Len(s.w[t]) : \A j \in 1..Len(s.w[t][i]) : s.w[t][i][j][2] = <<>> \/ s.w[t][i][j][2][1] <= MaxVal
Inv ==
  /\ Committed(s) = c[Len(c)]
  /\ \A k \in DOMAIN s.h : Seen(s, k) = c[IF s.h[k].iso = "RC" THEN Len(c) ELSE b[k]]
=============================================================================
