------------------------------ MODULE Catalog ------------------------------
(* Databases, tables and indexes: names, ids, lookups, and the rows they lead to.
   dbs: the databases in the order of their creation, [n: name, o: id, tabs, ix]; cur: the current one
   tabs: [n, o, cols: column names, fk: what the first column references, rows]; ix: [n, o, t: table name, c: column]
   gone: ids of objects are never used again; nothing is ever dropped, so the ids in use are all there were *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt
CatInit(o) == [dbs |-> <<[n |-> "default", o |-> o, tabs |-> <<>>, ix |-> <<>>]>>, cur |-> 1]
Names(objs) == {objs[i].n : i \in 1..Len(objs)}
Ids(objs) == {objs[i].o : i \in 1..Len(objs)}
At(objs, n) == CHOOSE i \in 1..Len(objs) : objs[i].n = n
Cur(s) == s.dbs[s.cur]
TableIds(s) == UNION {Ids(s.dbs[i].tabs) : i \in 1..Len(s.dbs)}
Yes(r) == r[1] = 1
No(r) == r[1] = 0
SetTabs(s, i, tabs) == [s EXCEPT !.dbs[i].tabs = tabs]
AddRow(s, i, t, v) == LET tabs == s.dbs[i].tabs IN SetTabs(s, i, [tabs EXCEPT ![At(tabs, t)].rows = Append(@, v)])
RefsOk(tabs, fk) == fk = <<>> \/ (fk[1] \in Names(tabs) /\ fk[2] \in ToSet(tabs[At(tabs, fk[1])].cols))

Pos(cols, c) == CHOOSE k \in 1..Len(cols) : cols[k] = c
RowOk(tabs, t, v) == LET fk == tabs[At(tabs, t)].fk IN fk = <<>> \/ LET p == tabs[At(tabs, fk[1])] IN \E i \in 1..Len(p.rows) : p.rows[i][Pos(p.cols, fk[2])] = v[1]

(* what a look at everything shows: the current database, and for each database its name, id,
   tables <<name, id, columns, lookups agree, rows>> and indexes <<name, id, table, column, lookups agree, rows through it>> *)
Bag(rows, got) == Len(rows) = Len(got) /\ \A x \in ToSet(rows) : Cardinality({i \in 1..Len(rows) : rows[i] = x}) = Cardinality({i \in 1..Len(got) : got[i] = x})
TabShown(t, x) == x[1] = t.n /\ x[2] = t.o /\ x[3] = t.cols /\ x[4] = 1 /\ Bag(t.rows, x[5])
IxShown(d, k, x) == x[1] = k.n /\ x[2] = k.o /\ x[3] = k.t /\ x[4] = k.c /\ x[5] = 1 /\ Bag(d.tabs[At(d.tabs, k.t)].rows, x[6])
DbShown(d, x) ==
  /\ x[1] = d.n /\ x[2] = d.o
  /\ Len(x[3]) = Len(d.tabs) /\ \A i \in 1..Len(d.tabs) : \E j \in 1..Len(x[3]) : TabShown(d.tabs[i], x[3][j])
  /\ Len(x[4]) = Len(d.ix) /\ \A i \in 1..Len(d.ix) : \E j \in 1..Len(x[4]) : IxShown(d, d.ix[i], x[4][j])
  /\ x[5] = 1                                      \* names and ids that do not exist here lead to nothing
Shown(s, r) == /\ r[1] = Cur(s).n
               /\ Len(r[2]) = Len(s.dbs) /\ \A i \in 1..Len(s.dbs) : \E j \in 1..Len(r[2]) : DbShown(s.dbs[i], r[2][j])

CatNext(s, e) ==
  CASE e.op = "createdb" ->
         IF e.n \in Names(s.dbs) THEN IF No(e.r) THEN {s} ELSE {}
         ELSE IF Yes(e.r) /\ e.r[2] \notin Ids(s.dbs) THEN {[s EXCEPT !.dbs = Append(@, [n |-> e.n, o |-> e.r[2], tabs |-> <<>>, ix |-> <<>>])]} ELSE {}
    [] e.op = "use" ->
         IF e.n \in Names(s.dbs) THEN IF Yes(e.r) THEN {[s EXCEPT !.cur = At(s.dbs, e.n)]} ELSE {}
         ELSE IF No(e.r) THEN {s} ELSE {}
    [] e.op = "table" ->
         LET d == Cur(s) IN
         IF e.n \in Names(d.tabs) \/ ~RefsOk(d.tabs, e.fk) THEN IF No(e.r) THEN {s} ELSE {}
         ELSE IF Yes(e.r) /\ e.r[2] \notin TableIds(s) THEN {SetTabs(s, s.cur, Append(d.tabs, [n |-> e.n, o |-> e.r[2], cols |-> e.cols, fk |-> e.fk, rows |-> <<>>]))} ELSE {}
    [] e.op = "index" ->
         LET d == Cur(s) IN
         IF e.n \in Names(d.ix) \/ e.t \notin Names(d.tabs) THEN IF No(e.r) THEN {s} ELSE {}
         ELSE IF Yes(e.r) /\ e.r[2] \notin Ids(d.ix) THEN {[s EXCEPT !.dbs[s.cur].ix = Append(@, [n |-> e.n, o |-> e.r[2], t |-> e.t, c |-> e.c])]} ELSE {}
    \* a row inserted in a transaction that ends at once
    [] e.op = "row" ->
         IF e.t \notin Names(Cur(s).tabs) \/ ~RowOk(Cur(s).tabs, e.t, e.v) THEN IF No(e.r) THEN {s} ELSE {}
         ELSE IF Yes(e.r) THEN {IF e.end = "commit" THEN AddRow(s, s.cur, e.t, e.v) ELSE s} ELSE {}
    \* two transactions at a time, each inserting a row into a table of its own database
    [] e.op = "pair" ->
         LET One(t, x, y) == IF y = "commit" THEN AddRow(t, At(t.dbs, x[1]), x[2], x[3]) ELSE t
             There(x) == x[1] \in Names(s.dbs) /\ LET tabs == s.dbs[At(s.dbs, x[1])].tabs IN x[2] \in Names(tabs) /\ RowOk(tabs, x[2], x[3])
         IN IF ~There(e.a) \/ ~There(e.b) THEN IF No(e.r) THEN {s} ELSE {}
            ELSE IF Yes(e.r) THEN {One(One(s, e.a, e.ea), e.b, e.eb)} ELSE {}
    [] e.op = "look" -> IF Shown(s, e.r) THEN {s} ELSE {}
CatOutcomes(s, e) == {[s |-> x, r |-> e.r] : x \in CatNext(s, e)}
CatOk(s) ==
  /\ \A i, j \in 1..Len(s.dbs) : i # j => s.dbs[i].n # s.dbs[j].n /\ s.dbs[i].o # s.dbs[j].o /\ Ids(s.dbs[i].tabs) \cap Ids(s.dbs[j].tabs) = {}
  /\ \A i \in 1..Len(s.dbs) : LET d == s.dbs[i] IN
       /\ Cardinality(Names(d.tabs)) = Len(d.tabs) /\ Cardinality(Ids(d.tabs)) = Len(d.tabs)
       /\ Cardinality(Names(d.ix)) = Len(d.ix) /\ Cardinality(Ids(d.ix)) = Len(d.ix)
       /\ \A k \in 1..Len(d.ix) : d.ix[k].t \in Names(d.tabs)
=============================================================================
