------------------------------- MODULE SqlMC -------------------------------
(* The laws of relational algebra and of three-valued logic, on every pair of tiny tables. A state
   is a database; the operators of Sql.tla are checked against each other and against independent
   definitions. *)
EXTENDS Sql
CONSTANTS Dom, MaxA, MaxB        \* values of the columns as numbers, 0 standing for NULL; rows per table
VARIABLE db
V(n) == IF n = 0 THEN Null ELSE IntV(n)
RowsOf == {<<V(a), V(b)>> : a \in Dom, b \in Dom}
RowSet == SetToSortSeq({<<a, b>> : a \in Dom, b \in Dom}, LAMBDA x, y : SeqCmp(x, y) < 0)
(* tables as sequences in a canonical order: order is immaterial to the operators *)
Tabs(n) == UNION {{[i \in 1..m |-> <<V(RowSet[f[i]][1]), V(RowSet[f[i]][2])>>] : f \in {f \in [1..m -> 1..Len(RowSet)] : \A i \in 1..(m - 1) : f[i] <= f[i + 1]}} : m \in 0..n}
Init == db = <<>>
Next == \/ db = <<>> /\ \E a \in Tabs(MaxA) : db' = <<a>>
        \/ Len(db) = 1 /\ \E b \in Tabs(MaxB) : db' = Append(db, b)
Spec == Init /\ [][Next]_db

NF == <<TRUE, FALSE>>
A == <<"scan", 1, "seq">>
B == <<"scan", 2, "seq">>
C(i) == <<"c", i>>
K(v) == <<"k", v, "Integer">>
Cmp(op, a, b) == <<"cmp", op, a, b>>
P == {Cmp("=", C(0), C(1)), Cmp("<", C(0), C(1)), Cmp(">=", C(1), K(IntV(1))), <<"is", "null", 0, C(0)>>, <<"dist", 0, C(0), C(1)>>, Cmp("<>", C(0), K(Null))}
JP == {Cmp("=", C(0), C(2)), Cmp("<", C(1), C(3)), <<"and", Cmp("=", C(0), C(2)), Cmp("=", C(1), C(3))>>, <<"or", <<"is", "null", 0, C(1)>>, Cmp("=", C(1), C(2))>>}
F(p, x) == <<"filter", p, x>>
Not(p) == <<"not", p, 0>>
J(ty, on, l, r) == <<"join", "nl", ty, on, l, r, 2, 2, <<>>, <<>>>>
Bag(p) == Got(Rows(p, db, NF))
Eqv(p, q) == BagEq(Bag(p), Bag(q))

(* WHERE keeps exactly the rows for which the condition is true: p, NOT p and p IS UNKNOWN partition *)
Partition == \A p \in P : BagEq(Bag(F(p, A)) \o Bag(F(Not(p), A)) \o Bag(F(<<"is", "unknown", 0, p>>, A)), Bag(A))
Filters == \A p, q \in P : Eqv(F(<<"and", p, q>>, A), F(p, F(q, A))) /\ Eqv(F(p, F(q, A)), F(q, F(p, A)))
DeMorgan == \A p, q \in P : \A i \in 1..Len(db[1]) : Ev(Not(<<"and", p, q>>), db[1][i]) = Ev(<<"or", Not(p), Not(q)>>, db[1][i])
Sugar == \A i \in 1..Len(db[1]) : LET r == db[1][i] lo == K(IntV(1)) IN
  /\ Ev(<<"btw", 0, C(0), lo, C(1)>>, r) = Ev(<<"and", Cmp(">=", C(0), lo), Cmp("<=", C(0), C(1))>>, r)
  /\ Ev(<<"btw", 1, C(0), lo, C(1)>>, r) = Ev(<<"or", Cmp("<", C(0), lo), Cmp(">", C(0), C(1))>>, r)
  /\ Ev(<<"in", 0, C(0), <<C(1), lo>>>>, r) = Ev(<<"or", Cmp("=", C(0), C(1)), Cmp("=", C(0), lo)>>, r)
  /\ Ev(<<"in", 1, C(0), <<C(1), lo>>>>, r) = Ev(<<"and", Cmp("<>", C(0), C(1)), Cmp("<>", C(0), lo)>>, r)
  /\ Ev(<<"coal", <<C(0), C(1)>>>>, r) = Ev(<<"case", <<>>, <<<<<<"is", "null", 1, C(0)>>, C(0)>>>>, C(1)>>, r)
  /\ Ev(<<"dist", 1, C(0), C(1)>>, r) = Bool(Ev(<<"coal", <<Cmp("=", C(0), C(1)), <<"and", <<"is", "null", 0, C(0)>>, <<"is", "null", 0, C(1)>>>>>>>>, r) = True)
(* joins *)
Joins == \A p \in JP :
  /\ Eqv(J("inner", p, A, B), F(p, J("cross", K(True), A, B)))
  /\ LET in == Bag(J("inner", p, A, B)) lf == Bag(J("left", p, A, B)) rt == Bag(J("right", p, A, B)) fu == Bag(J("full", p, A, B))
         L(rows) == [i \in 1..Len(rows) |-> SubSeq(rows[i], 1, 2)]
         lpad == SubSeq(lf, Len(in) + 1, Len(lf)) rpad == SubSeq(rt, Len(in) + 1, Len(rt))
     IN /\ BagEq(SubSeq(lf, 1, Len(in)), in) /\ BagEq(SubSeq(rt, 1, Len(in)), in)
        /\ BagEq(fu, in \o lpad \o rpad)                             \* a full join adds both paddings
        /\ \A i \in 1..Len(db[1]) : \E k \in 1..Len(lf) : SameRow(SubSeq(lf[k], 1, 2), db[1][i])      \* no left row is lost
        /\ \A k \in 1..Len(lpad) : /\ SubSeq(lpad[k], 3, 4) = Nulls(2) /\ ~\E m \in 1..Len(in) : SameRow(SubSeq(in[m], 1, 2), SubSeq(lpad[k], 1, 2))
        /\ \A k \in 1..Len(rpad) : SubSeq(rpad[k], 1, 2) = Nulls(2)
Swap == LET sw(rows) == [i \in 1..Len(rows) |-> SubSeq(rows[i], 3, 4) \o SubSeq(rows[i], 1, 2)] IN
  /\ BagEq(Bag(J("left", Cmp("=", C(0), C(2)), A, B)), sw(Bag(J("right", Cmp("=", C(2), C(0)), B, A))))
  /\ BagEq(Bag(J("cross", K(True), A, B)), sw(Bag(J("cross", K(True), B, A))))
(* duplicates, groups and aggregates *)
Count == <<"count*", C(0)>>
Groups == LET g == Bag(<<"agg", <<C(0)>>, <<Count, <<"count", C(1)>>, <<"sum", C(1)>>, <<"min", C(1)>>, <<"max", C(1)>>>>, A>>) IN
  /\ BagEq(Bag(<<"distinct", <<"project", <<C(0)>>, A>>>>), [i \in 1..Len(g) |-> <<g[i][1]>>])
  /\ Eqv(<<"distinct", <<"distinct", A>>>>, <<"distinct", A>>)
  /\ FoldLeft(LAMBDA acc, r : acc + r[2][2][1], 0, g) = Len(db[1])
  /\ FoldLeft(LAMBDA acc, r : acc + r[3][2][1], 0, g) = Len(Bag(F(<<"is", "null", 1, C(1)>>, A)))
  /\ \A i \in 1..Len(g) : (g[i][3] = IntV(0)) = IsNull(g[i][4]) /\ IsNull(g[i][4]) = IsNull(g[i][5]) /\ IsNull(g[i][5]) = IsNull(g[i][6])
  /\ \A i \in 1..Len(g) : ~IsNull(g[i][5]) => Ord(g[i][5], g[i][6]) <= 0
  /\ Len(Bag(<<"agg", <<>>, <<Count>>, F(Cmp("<", C(0), C(0)), A)>>)) = 1     \* without GROUP BY: one row even over nothing
(* order, LIMIT, OFFSET *)
Ks == <<<<C(0), 1>>, <<C(1), 0>>>>
Orders == LET s == Rows(<<"sort", Ks, A>>, db, NF) IN
  /\ BagEq(s.rows, db[1])
  /\ \A i, j \in 1..Len(s.rows) : i < j => RowCmp(Ks, NF, s.rows[i], s.rows[j]) <= 0
  /\ \A k \in 0..2 : LET l == Rows(<<"limit", k, <<"sort", Ks, A>>>>, db, NF) o == Rows(<<"offset", k, <<"sort", Ks, A>>>>, db, NF) IN Got(l) \o Got(o) = s.rows
  /\ \A k \in 0..2 : Len(Got(Rows(<<"limit", k, A>>, db, NF))) = Mn(k, Len(db[1]))
  /\ \A k \in 1..2 : LET t == <<"topn", <<C(0), C(1)>>, k, A>> l == <<"limit", k, <<"sort", <<<<C(0), 1>>, <<C(1), 1>>>>, A>>>> IN
       /\ ResultOk(t, db, <<1, Got(Rows(l, db, NF))>>) /\ ResultOk(l, db, <<1, Got(Rows(t, db, NF))>>)
  /\ \A k \in 0..2 : ResultOk(<<"limit", k, A>>, db, <<1, SubSeq(Reverse(db[1]), 1, Mn(k, Len(db[1])))>>)
(* the acceptance relation rejects a lost, an added and a changed row *)
Rejects == LET n == Len(db[1]) IN
  /\ ResultOk(A, db, <<1, Reverse(db[1])>>)
  /\ n > 0 => ~ResultOk(A, db, <<1, Tail(db[1])>>)
  /\ ~ResultOk(A, db, <<1, Append(db[1], <<Null, Null>>)>>)
  /\ ~ResultOk(A, db, <<0, <<>>>>)
  /\ n > 0 => ~ResultOk(A, db, <<1, [db[1] EXCEPT ![1] = <<IntV(7), @[2]>>]>>)
  /\ LET s == SortRows(db[1], Ks, NF) IN
       n > 1 => ResultOk(<<"sort", Ks, A>>, db, <<1, Reverse(s)>>) =
                (\A i, j \in 1..n : RowCmp(Ks, NF, s[i], s[j]) = 0 \/ (IsNull(s[i][1]) # IsNull(s[j][1])) \/ (SameRow(<<s[i][1]>>, <<s[j][1]>>) /\ IsNull(s[i][2]) # IsNull(s[j][2])))
IndexScan == \A p \in P : Eqv(<<"iscan", 1, 0, <<p, Cmp(">", C(0), K(IntV(0)))>>>>, F(p, F(Cmp(">", C(0), K(IntV(0))), A)))
Inv == Len(db) = 2 => Partition /\ Filters /\ DeMorgan /\ Sugar /\ Joins /\ Swap /\ Groups /\ Orders /\ Rejects /\ IndexScan
=============================================================================
