------------------------------- MODULE Heap -------------------------------
(* The table heap: rows addressed by record id.  A row is its metadata (creator, commit timestamp or -1, deleted flag,  *)
(* undo index) and its values (n, l).  cap remembers the longest values the row ever had: a row may always be written   *)
(* back to anything it once was, and growing beyond that may only be refused when its page has no room.                 *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt
HInit == [rows |-> <<>>]            \* a function from record ids; <<>> is the empty one

Page(rid) == rid \div 10000
Row(s, rid) == s.rows[rid]
Has(s, rid) == rid \in DOMAIN s.rows
Live(s) == {r \in DOMAIN s.rows : s.rows[r].del = 0}
MetaOf(x) == <<x.c, x.ts, x.del, x.ul>>
RowOf(x) == <<x.c, x.ts, x.del, x.ul, x.n, x.l>>
Max2(a, b) == IF a > b THEN a ELSE b
\* what the other rows of the page take, generously estimated
Load(s, rid) == FoldSet(LAMBDA r, acc : acc + s.rows[r].cap + 60, 0, {r \in DOMAIN s.rows : r # rid /\ Page(r) = Page(rid)})
MayRefuseGrowth(s, rid, l) == l > s.rows[rid].cap /\ (l > 3300 \/ Load(s, rid) + l + 60 > 3500)
Put(s, rid, x) == [s EXCEPT !.rows = [r \in DOMAIN s.rows \cup {rid} |-> IF r = rid THEN x ELSE s.rows[r]]]
New(e) == [c |-> e.c, ts |-> e.ts, del |-> e.del, ul |-> e.ul, n |-> e.n, l |-> e.l, cap |-> e.l]
Same(s, r) == [s |-> s, r |-> r]
\* a row belongs to its creator until it is committed
Foreign(x, e) == x.c # e.c /\ x.ts = -1
Pages(s) == Max2(1, Cardinality({Page(r) : r \in DOMAIN s.rows}))

HOutcomes(s, e) ==
  CASE e.op = "ins" ->
        IF e.l > 3300 THEN {Same(s, -1)}
        ELSE IF e.r >= 0 /\ ~Has(s, e.r) THEN {[s |-> Put(s, e.r, New(e)), r |-> e.r]} ELSE {}
    [] e.op = "upd" ->
        LET x == Row(s, e.rid)
        IN  IF e.how = 0 /\ (x.del = 1 \/ Foreign(x, e)) THEN {Same(s, -1)}
            ELSE {[s |-> Put(s, e.rid, [New(e) EXCEPT !.cap = Max2(x.cap, e.l)]), r |-> e.rid]}
                 \cup (IF MayRefuseGrowth(s, e.rid, e.l) THEN {Same(s, -1)} ELSE {})
    [] e.op = "meta" ->
        LET x == Row(s, e.rid)
        IN  IF x.del = 1 \/ Foreign(x, e) THEN {Same(s, FALSE)}
            ELSE {[s |-> Put(s, e.rid, [x EXCEPT !.c = e.c, !.ts = e.ts, !.del = e.del, !.ul = e.ul]), r |-> TRUE]}
    [] e.op = "get" -> {Same(s, IF Row(s, e.rid).del = 1 THEN <<>> ELSE RowOf(Row(s, e.rid)))}
    [] e.op = "getany" -> {Same(s, RowOf(Row(s, e.rid)))}
    [] e.op = "getmeta" -> {Same(s, IF Row(s, e.rid).del = 1 THEN <<>> ELSE MetaOf(Row(s, e.rid)))}
    [] e.op = "bad" -> {Same(s, FALSE)}
    [] e.op = "scan" ->
        IF /\ Len(e.r) = Cardinality(Live(s))
           /\ {e.r[k] : k \in DOMAIN e.r} = {<<r, r>> \o RowOf(s.rows[r]) : r \in Live(s)}
        THEN {Same(s, e.r)} ELSE {}
    [] e.op = "count" -> {Same(s, <<Cardinality(DOMAIN s.rows), Pages(s)>>)}
    [] e.op \in {"churn", "reopen"} -> {Same(s, TRUE)}
    [] OTHER -> {}
=============================================================================
