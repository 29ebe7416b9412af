------------------------------- MODULE SqlDb -------------------------------
(* Tables, statements, constraints and transactions of one client, over the queries of Sql.tla. *)
EXTENDS Sql, TLC
(* w: the tables as the client sees them; d: as committed; x: 0 no explicit transaction,
   1 inside one, 2 inside one in which a statement has failed; k: the columns of each table with
   their constraints (nn, uq, pk, fk = <<table, column>> or <<>>, df = <<default>> or <<>>);
   h: the open transactions of other clients, who only read: isolation level and the tables as
   committed when it began;
   u: a statement's effect was left open by its query, so that the tables are no longer known *)
DbInit(c) == LET e == [i \in 1..Len(c.tables) |-> <<>>] IN [w |-> e, d |-> e, x |-> 0, u |-> FALSE, h |-> <<>>, k |-> [i \in 1..Len(c.tables) |-> c.tables[i].cols]]
Put(s, t, rows) == LET w == [s.w EXCEPT ![t] = rows] IN [s EXCEPT !.w = w, !.d = IF s.x = 0 THEN w ELSE @]
Ok(r) == r = <<1, 0>>
Loaded(rows, gone) == LET keep == SetToSortSeq((1..Len(rows)) \ {g + 1 : g \in ToSet(gone)}, <) IN [k \in 1..Len(keep) |-> rows[keep[k]]]

-----------------------------------------------------------------------------
(* constraints: may the rows `new` be stored in table t next to the rows `keep`? *)
NotNullOk(cols, row) == \A j \in 1..Len(cols) : cols[j].nn = 1 \/ cols[j].pk = 1 => ~IsNull(row[j])
Clash(a, b, J) == \A j \in J : ~IsNull(a[j]) /\ ~IsNull(b[j]) /\ Same(a[j], b[j])
Keys(cols) == {{j} : j \in {j \in 1..Len(cols) : cols[j].uq = 1}} \cup ({{j \in 1..Len(cols) : cols[j].pk = 1}} \ {{}})
UniqueOk(cols, keep, new) ==
  \A J \in Keys(cols) : \A i \in 1..Len(new) :
    /\ \A m \in 1..Len(keep) : ~Clash(new[i], keep[m], J)
    /\ \A m \in 1..(i - 1) : ~Clash(new[i], new[m], J)
ParentOk(cols, row, db) ==
  \A j \in 1..Len(cols) : cols[j].fk # <<>> /\ ~IsNull(row[j]) =>
    \E i \in 1..Len(db[cols[j].fk[1]]) : LET v == db[cols[j].fk[1]][i][cols[j].fk[2] + 1] IN ~IsNull(v) /\ Same(v, row[j])
NewOk(s, t, keep, new) ==
  /\ \A i \in 1..Len(new) : NotNullOk(s.k[t], new[i]) /\ ParentOk(s.k[t], new[i], [s.w EXCEPT ![t] = @ \o new])
  /\ UniqueOk(s.k[t], keep, new)

(* other clients: what is committed, and the tables a reader sees *)
Committed(s) == IF s.x = 0 THEN s.w ELSE s.d
Seen(s, k) == IF s.h[k].iso = "RC" THEN Committed(s) ELSE s.h[k].w

(* what a statement does: er: it fails; n: the rows it reports; rows: the table afterwards; un: left open by the query in it *)
Filled(cols, row) == [j \in 1..Len(cols) |-> IF j <= Len(row) THEN row[j] ELSE IF cols[j].df # <<>> THEN cols[j].df[1] ELSE Null]
Inserted(s, e, nf) ==
  IF e.how = "child"
  THEN LET A == Rows(e.p, s.w, nf) IN [er |-> A.er, un |-> A.un \/ ~Det(A, nf), new |-> Got(A)]
  ELSE [er |-> FALSE, un |-> FALSE, new |-> [i \in 1..Len(e.rows) |-> Filled(s.k[e.t], e.rows[i])]]
RECURSIVE Minus(_, _)
Minus(rows, out) ==      \* `rows` without one occurrence of each row of `out`
  IF out = <<>> THEN rows
  ELSE LET i == CHOOSE i \in 1..Len(rows) : SameRow(rows[i], out[1]) IN Minus(SubSeq(rows, 1, i - 1) \o SubSeq(rows, i + 1, Len(rows)), Tail(out))
SetRow(sets, row) == [j \in 1..Len(row) |-> LET K == {i \in 1..Len(sets) : sets[i][1] + 1 = j} IN IF K = {} THEN row[j] ELSE Ev(sets[Max(K)][2], row)]
Effect(s, e, nf) ==
  CASE e.op = "ins" ->
         LET I == Inserted(s, e, nf) er == I.er \/ ~NewOk(s, e.t, s.w[e.t], I.new)
         IN [er |-> er, un |-> I.un, n |-> 0, rows |-> IF er THEN s.w[e.t] ELSE s.w[e.t] \o I.new]
    [] OTHER ->
         LET A == Rows(e.p, s.w, nf)
             un == A.un \/ ~Det(A, nf)
             old == Got(A)
         IN IF A.er \/ un THEN [er |-> A.er, un |-> un, n |-> 0, rows |-> s.w[e.t]]
            ELSE LET keep == Minus(s.w[e.t], old)
                     new == IF e.op = "del" THEN <<>> ELSE [i \in 1..Len(old) |-> SetRow(e.sets, old[i])]
                     er == \/ \E i \in 1..Len(new) : \E j \in 1..Len(new[i]) : IsErr(new[i][j])
                           \/ ~NewOk(s, e.t, keep, new)
                 IN [er |-> er, un |-> FALSE, n |-> Len(old), rows |-> IF er THEN s.w[e.t] ELSE keep \o new]

-----------------------------------------------------------------------------
(* joins are planned on conditions that equate columns of the two sides, joined by AND; others may be refused *)
RECURSIVE Equated(_, _), Plannable(_)
Equated(on, lw) ==
  CASE on[1] = "and" -> Equated(on[2], lw) /\ Equated(on[3], lw)
    [] on[1] = "cmp" -> /\ on[2] = "=" /\ on[3][1] = "c" /\ on[4][1] = "c"
                        /\ (on[3][2] < lw) # (on[4][2] < lw)
    [] OTHER -> FALSE
Plannable(p) ==
  CASE p[1] \in {"scan", "iscan", "values"} -> TRUE
    [] p[1] = "join" -> Equated(p[4], p[7]) /\ Plannable(p[5]) /\ Plannable(p[6])
    [] OTHER -> Plannable(p[Len(p)])

Dml == {"ins", "upd", "del"}
Effects(s, e) == {Effect(s, e, nf) : nf \in NullOrders}      \* where NULLs sort is up to the implementation
Says(f, r) == IF f.er THEN r[1] = 0 ELSE r = <<1, f.n>>
\* a failed statement changes nothing, and dooms the transaction it is in
Failed(s) == IF s.x = 1 THEN [s EXCEPT !.x = 2] ELSE s
DbNext(s, e) ==
  CASE e.op \in {"load", "index", "churn", "begin", "commit", "abort", "hold", "drop"} /\ ~Ok(e.r) -> {}
    [] e.op = "load" -> {Put(s, e.t, s.w[e.t] \o Loaded(e.rows, e.gone))}
    [] e.op = "begin" -> {[s EXCEPT !.x = 1, !.d = s.w]}
    [] e.op = "commit" -> {[s EXCEPT !.x = 0, !.d = s.w]}
    [] e.op = "abort" -> {[s EXCEPT !.x = 0, !.w = s.d]}
    [] e.op \in {"index", "churn"} -> {s}
    [] e.op = "hold" -> {[s EXCEPT !.h = (e.k :> [iso |-> e.iso, w |-> Committed(s)]) @@ @]}
    [] e.op = "drop" -> {[s EXCEPT !.h = [k \in DOMAIN @ \ {e.k} |-> @[k]]]}
    [] e.op = "rq" -> IF s.u \/ ResultOk(e.p, Seen(s, e.k), e.r) THEN {s} ELSE {}
    [] s.u \/ s.x = 2 -> {s}
    [] e.op = "oq" /\ e.r[1] = 4 -> IF Plannable(e.p) THEN {} ELSE {s}
    [] e.op \in {"q", "oq"} -> IF ResultOk(e.p, s.w, e.r) THEN {IF e.r[1] = 0 THEN Failed(s) ELSE s} ELSE {}
    [] e.op \in Dml ->
         {IF f.un THEN [s EXCEPT !.u = TRUE] ELSE IF f.er THEN Failed(s) ELSE Put(s, e.t, f.rows) : f \in {f \in Effects(s, e) : f.un \/ Says(f, e.r)}}
DbOutcomes(s, e) == {[s |-> x, r |-> e.r] : x \in DbNext(s, e)}

(* the declared constraints as a property of the tables *)
TableOk(s, t) == NewOk(s, t, <<>>, s.w[t])
=============================================================================
