----------------------------- MODULE CatalogMC -----------------------------
EXTENDS CatalogCmds, TLC
CONSTANTS MaxRows
VARIABLES s, last
Init == s = CatInit(0) /\ last = <<>>
Next == \E c \in KCmds(s) : \E o \in KOutcomes(s, c) : s' = o.s /\ last' = o.r
Spec == Init /\ [][Next]_<<s, last>>
View == s
Small == \A i \in 1..Len(s.dbs) : \A j \in 1..Len(s.dbs[i].tabs) : Len(s.dbs[i].tabs[j].rows) <= MaxRows
Inv == CatOk(s)
(* a refused request changes nothing; ids, names and columns never change; only the current database gets objects *)
Step == [][
  /\ last'[1] = 0 => s' = s
  /\ \A i \in 1..Len(s.dbs) :
       /\ s'.dbs[i].n = s.dbs[i].n /\ s'.dbs[i].o = s.dbs[i].o
       /\ \A j \in 1..Len(s.dbs[i].tabs) : LET x == s.dbs[i].tabs[j] y == s'.dbs[i].tabs[j] IN x.n = y.n /\ x.o = y.o /\ x.cols = y.cols /\ IsPrefix(x.rows, y.rows)
       /\ IsPrefix(s.dbs[i].ix, s'.dbs[i].ix)
       /\ i # s.cur => Len(s'.dbs[i].tabs) = Len(s.dbs[i].tabs) /\ s'.dbs[i].ix = s.dbs[i].ix
  ]_<<s, last>>
=============================================================================
