------------------------------ MODULE SqlDbMC ------------------------------
(* the declared constraints hold in every reachable database, statements are all-or-nothing, and a
   transaction that is rolled back leaves no trace *)
EXTENDS SqlCmds, TLC
CONSTANTS MaxRows, MaxVal, Declared       \* Declared: with constraints
VARIABLES s, last
\* tables are bags: their rows are kept in order
Less(x, y) == \E j \in 1..Len(x) : (\A i \in 1..(j - 1) : x[i] = y[i]) /\ SeqCmp(<<x[j][1]>> \o x[j][2], <<y[j][1]>> \o y[j][2]) < 0
Bag(rows) == SortSeq(rows, Less)
Canon(t) == [t EXCEPT !.w = [i \in 1..2 |-> Bag(t.w[i])], !.d = [i \in 1..2 |-> Bag(t.d[i])]]
Init == \E c \in (IF Declared THEN Constrained ELSE {Plain}) : s = CInit(c) /\ last = <<>>
Next == \E c \in CCmds(s) : \E o \in COutcomes(s, c) : s' = Canon(o.s) /\ last' = <<c.op, o.r[1]>>
Spec == Init /\ [][Next]_<<s, last>>
Small == \A t \in 1..2 : Len(s.w[t]) <= MaxRows + 1 - t /\ \A i \in 1..Len(s.w[t]) : \A j \in 1..Len(s.w[t][i]) : s.w[t][i][j][2] = <<>> \/ s.w[t][i][j][2][1] <= MaxVal
Inv ==
  /\ \A t \in 1..2 : UniqueOk(s.k[t], <<>>, s.w[t]) /\ UniqueOk(s.k[t], <<>>, s.d[t]) /\ \A i \in 1..Len(s.w[t]) : NotNullOk(s.k[t], s.w[t][i])
  /\ s.x = 0 => s.w = s.d
  /\ ~s.u
Step == [][
  /\ last'[2] = 0 => s'.w = s.w /\ s'.d = s.d                     \* a failed statement changes nothing
  /\ last'[1] = "abort" => s'.w = s.d
  /\ last'[1] = "begin" => s'.w = s.w
  /\ s.x # 0 /\ s'.x # 0 => s'.d = s.d                            \* nothing of an open transaction is committed
  /\ last'[1] \in Dml /\ s'.w # s.w => last'[2] = 1
  /\ last'[1] = "del" => \A t \in 1..2 : PartOf(s'.w[t], s.w[t])
  /\ last'[1] = "upd" => \A t \in 1..2 : Len(s'.w[t]) = Len(s.w[t])
  /\ last'[1] = "ins" => \A t \in 1..2 : PartOf(s.w[t], s'.w[t])
  /\ Cardinality({t \in 1..2 : s'.w[t] # s.w[t]}) = 2 => last'[1] = "abort"
  ]_<<s, last>>
=============================================================================
