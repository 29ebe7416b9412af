------------------------------ MODULE SqlCmds ------------------------------
(* two tiny tables, t1(c0, c1) and t2(c0), the constraints they may have, and the statements of a client *)
EXTENDS SqlDb
Column(n) == [n |-> n, t |-> "Integer", nn |-> 0, uq |-> 0, pk |-> 0, ck |-> "", fk |-> <<>>, df |-> <<>>]
A0 == Column("c0")
A1 == Column("c1")
C2(a, b, c) == [pool |-> 64, tables |-> <<[n |-> "t1", cols |-> <<a, b>>], [n |-> "t2", cols |-> <<c>>]>>]
Plain == C2(A0, A1, A0)
Constrained == {C2([A0 EXCEPT !.uq = 1], A1, A0), C2([A0 EXCEPT !.pk = 1], [A1 EXCEPT !.df = <<IntV(2)>>], [A0 EXCEPT !.fk = <<1, 0>>]),
                C2([A0 EXCEPT !.pk = 1], [A1 EXCEPT !.pk = 1], A0), C2(A0, [A1 EXCEPT !.nn = 1], [A0 EXCEPT !.uq = 1]),
                C2([A0 EXCEPT !.uq = 1], [A1 EXCEPT !.uq = 1, !.nn = 1], [A0 EXCEPT !.fk = <<1, 1>>])}
Rows0 == <<<<<<IntV(1), IntV(1)>>, <<IntV(2), IntV(2)>>>>, <<<<IntV(2)>>>>>>      \* what the tables hold at first
CInit(c) == [DbInit(c) EXCEPT !.w = Rows0, !.d = Rows0]

Col(i) == <<"c", i>>
Num1(n) == <<"k", IntV(n), "Integer">>
NullC == <<"k", Null, "Integer">>
Inc == <<"ar", "+", Col(0), Num1(1)>>
Scan(t) == <<"scan", t, "seq">>
Where(t, i, n) == <<"filter", <<"cmp", "=", Col(i), Num1(n)>>, Scan(t)>>
InsV(t, rows) == [op |-> "ins", t |-> t, how |-> "values", rows |-> rows]
Upd(t, p, sets) == [op |-> "upd", t |-> t, how |-> "assign", p |-> p, sets |-> sets]
Del(t, p) == [op |-> "del", t |-> t, p |-> p]
Statements(k) ==
  {InsV(1, <<<<IntV(1), IntV(1)>>>>), InsV(1, <<<<IntV(3), IntV(1)>>>>), InsV(1, <<<<IntV(4), IntV(3)>>, <<IntV(3), IntV(3)>>>>)}
  \cup (IF k[1][2].pk = 1 THEN {} ELSE {InsV(1, <<<<IntV(3), Null>>>>), InsV(1, <<<<IntV(4)>>>>)})     \* a key left out is generated
  \cup {Upd(1, Scan(1), <<<<0, Inc>>>>), Upd(1, Where(1, 0, 1), <<<<1, NullC>>>>), Upd(1, Scan(1), <<<<0, Num1(3)>>>>), Upd(1, Where(1, 1, 1), <<<<0, Num1(2)>>, <<1, Col(0)>>>>)}
  \cup {Del(1, Where(1, 0, 2)), Del(1, Scan(1))}
  \cup {InsV(2, <<<<IntV(1)>>>>), InsV(2, <<<<IntV(3)>>>>), InsV(2, <<<<Null>>>>), Upd(2, Scan(2), <<<<0, Inc>>>>),
        [op |-> "ins", t |-> 1, how |-> "child", p |-> <<"project", <<Inc, Col(1)>>, Scan(1)>>]}
Ends(s) == IF s.x = 0 THEN {[op |-> "begin", iso |-> "RC"]} ELSE {[op |-> "abort"]} \cup (IF s.x = 1 THEN {[op |-> "commit"]} ELSE {})
CCmds(s) == Ends(s) \cup (IF s.x = 2 THEN {} ELSE Statements(s.k))
(* the answers the specification gives *)
COutcomes(s, c) ==
  UNION {DbOutcomes(s, c @@ [r |-> r]) : r \in IF c.op \in Dml THEN {IF f.er THEN <<0, 0>> ELSE <<1, f.n>> : f \in Effects(s, c)} ELSE {<<1, 0>>}}
=============================================================================
