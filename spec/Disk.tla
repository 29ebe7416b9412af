-------------------------------- MODULE Disk --------------------------------
(* The disk manager as its clients may rely on it (property D01): a set of   *)
(* page registers, each with the value a read returns (cur), the value in    *)
(* the database file (file) and the value that survives a power loss (syn).  *)
(* Write-back caching makes the last two lag, so they are sets of the values *)
(* possible; cur is a set only after a crash, until the page is read.        *)
(* Value 0 is a page that was never written: it reads as zeros or as an      *)
(* error (-1), depending on the length of the file.                          *)
EXTENDS Integers, Sequences, FiniteSets

DOne(s, r) == {[s |-> s, r |-> r]}
Blank == [cur |-> {0}, file |-> {0}, syn |-> {0}]
DInit(pages, syncs) == [pg |-> [p \in pages |-> Blank], n |-> 0, syncs |-> syncs]

W(x, v) == [cur |-> {v}, file |-> x.file \cup {v}, syn |-> x.syn \cup {v}]
RECURSIVE WAll(_, _, _)
WAll(pg, ps, vs) == IF ps = <<>> THEN pg
                    ELSE WAll([pg EXCEPT ![Head(ps)] = W(@, Head(vs))], Tail(ps), Tail(vs))
Flushed(x, synced) == [cur |-> x.cur, file |-> x.cur, syn |-> IF synced THEN x.cur ELSE x.syn]
Shown(vals) == vals \cup (IF 0 \in vals THEN {-1} ELSE {})
Val(r) == IF r = -1 THEN 0 ELSE r
Map(s, F(_)) == [s EXCEPT !.pg = [p \in DOMAIN s.pg |-> F(s.pg[p])]]
Max(a, b) == IF a > b THEN a ELSE b
SeqMax(q) == LET S == {q[k] : k \in DOMAIN q} IN IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
(* all sequences with the k-th element from sets[k] *)
RECURSIVE Prod(_)
Prod(sets) == IF sets = <<>> THEN {<<>>}
              ELSE {<<x>> \o t : x \in Head(sets), t \in Prod(Tail(sets))}

DOutcomes(s, e) ==
  CASE e.op = "write" -> DOne([s EXCEPT !.pg[e.p] = W(@, e.v), !.n = Max(@, e.v)], 0)
    [] e.op = "wbatch" -> DOne([s EXCEPT !.pg = WAll(@, e.ps, e.vs), !.n = Max(@, SeqMax(e.vs))], 0)
    [] e.op = "read" -> {[s |-> [s EXCEPT !.pg[e.p].cur = {Val(r)}], r |-> r] : r \in Shown(s.pg[e.p].cur)}
    [] e.op = "rbatch" ->   \* one unreadable page may fail the batch, nothing else may
         {[s |-> s, r |-> q] : q \in Prod([k \in DOMAIN e.ps |-> s.pg[e.ps[k]].cur])}
         \cup (IF \E k \in DOMAIN e.ps : 0 \in s.pg[e.ps[k]].cur THEN DOne(s, <<>>) ELSE {})
    [] e.op = "flush" -> DOne(Map(s, LAMBDA x : Flushed(x, s.syncs)), 0)
    [] e.op = "force" -> DOne(Map(s, LAMBDA x : Flushed(x, TRUE)), 0)
    [] e.op = "sync" -> DOne(Map(s, LAMBDA x : [x EXCEPT !.syn = x.file]), 0)
    [] e.op = "file" -> {[s |-> s, r |-> r] : r \in Shown(s.pg[e.p].file)}
    [] e.op = "synced" -> {[s |-> s, r |-> r] : r \in Shown(s.pg[e.p].syn)}
    [] e.op = "reopen" -> DOne(Map(s, LAMBDA x : Flushed(x, TRUE)), 0)
    [] e.op = "crash" -> DOne(Map(s, LAMBDA x : [x EXCEPT !.cur = x.file]), 0)
    [] e.op = "powerloss" -> DOne(Map(s, LAMBDA x : [cur |-> x.syn, file |-> x.syn, syn |-> x.syn]), 0)

DInv(s) == \A p \in DOMAIN s.pg : s.pg[p].cur # {} /\ s.pg[p].cur \subseteq s.pg[p].file
                                  /\ (s.pg[p].file \subseteq s.pg[p].syn \/ s.syncs)
=============================================================================
