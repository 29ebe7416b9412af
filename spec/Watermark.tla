------------------------------ MODULE Watermark ------------------------------
(* The timestamp source: issues increasing timestamps, tracks the read         *)
(* timestamps in use, and reports the smallest of them (or, with none in use,  *)
(* a timestamp up to the next one) as the watermark, which never goes back.    *)
EXTENDS Integers, FiniteSets
WInit == [act |-> {}, next |-> 1, wm |-> 1]
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
WOk(s, w) == w >= s.wm /\ IF s.act # {} THEN w = Least(s.act) ELSE w <= s.next
\* the watermark is brought up to date by every change of the set in use and by commits
Now(s) == [s EXCEPT !.wm = IF s.act = {} THEN s.next ELSE Least(s.act)]
Max2(a, b) == IF a > b THEN a ELSE b
WOutcomes(s, e) ==
  CASE e.op = "next" -> IF e.r >= s.next THEN {[s |-> [s EXCEPT !.next = e.r + 1], r |-> e.r]} ELSE {}
    [] e.op = "reg"  -> IF e.r >= s.next THEN {[s |-> Now([s EXCEPT !.next = e.r + 1, !.act = @ \cup {e.r}]), r |-> e.r]} ELSE {}
    [] e.op = "rem"  -> {[s |-> Now([s EXCEPT !.act = @ \ {e.ts}]), r |-> 0]}
    [] e.op = "unreg" -> LET n == Now([s EXCEPT !.act = @ \ {e.ts}]) IN {[s |-> n, r |-> n.wm]}
    [] e.op = "com"  -> {[s |-> Now([s EXCEPT !.next = Max2(@, e.ts + 1)]), r |-> 0]}
    [] e.op = "comget" -> LET n == Now([s EXCEPT !.next = Max2(@, e.ts + 1)]) IN {[s |-> n, r |-> n.wm]}
    [] e.op = "get"  -> IF WOk(s, e.r) THEN {[s |-> [s EXCEPT !.wm = e.r], r |-> e.r]} ELSE {}
    \* a copy answers like the original and does not disturb it
    [] e.op = "clone" -> {[s |-> s, r |-> <<x, s.next>>] : x \in {y \in s.wm..s.next : WOk(s, y)}}
WSound(s) == (\A x \in s.act : x >= s.wm /\ x < s.next) /\ s.wm <= s.next
=============================================================================
