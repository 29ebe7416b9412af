------------------------------ MODULE Deadlock ------------------------------
(* The waits-for graph (property C03): E, a set of edges <<waiter, holder>>.   *)
(* A deadlock is reported exactly when E has a cycle, and the victim is the    *)
(* youngest (largest id) transaction of some cycle.                            *)
EXTENDS Integers, FiniteSets
RECURSIVE Reach(_, _)
Reach(E, X) == LET Y == X \cup {e[2] : e \in {f \in E : f[1] \in X}} IN IF Y = X THEN X ELSE Reach(E, Y)
Succ(E, v) == {e[2] : e \in {f \in E : f[1] = v}}
Nodes(E) == {e[1] : e \in E}
OnCycle(E, v) == v \in Reach(E, Succ(E, v))
HasCycle(E) == \E v \in Nodes(E) : OnCycle(E, v)
Youngest(E, v) == OnCycle({e \in E : e[1] <= v /\ e[2] <= v}, v)
Victims(E) == {v \in Nodes(E) : Youngest(E, v)}
GInit == [e |-> {}, w |-> FALSE]
GOutcomes(s, c) ==
  CASE c.op = "add" -> {[s |-> [s EXCEPT !.e = @ \cup {<<c.a, c.b>>}], r |-> 0]}
    [] c.op = "rem" -> {[s |-> [s EXCEPT !.e = {x \in @ : x[1] # c.a}], r |-> 0]}
    [] c.op = "watch" -> {[s |-> [s EXCEPT !.w = TRUE], r |-> 0]}
    [] c.op = "cycle" -> IF HasCycle(s.e) THEN {[s |-> s, r |-> v] : v \in Victims(s.e)} ELSE {[s |-> s, r |-> 0]}
    [] c.op = "poll" -> IF s.w /\ HasCycle(s.e) THEN {[s |-> s, r |-> v] : v \in Victims(s.e)} ELSE {[s |-> s, r |-> 0]}
=============================================================================
