---------------------------- MODULE DeadlockMC ----------------------------
(* all graphs over N transactions, and the depth-first search the code uses *)
(* (start nodes and successors in any order): it finds a cycle exactly when  *)
(* there is one, and the largest id on the cycle it closes is a victim.      *)
EXTENDS Deadlock, Sequences, TLC
CONSTANT N
VARIABLES E, path, visited, todo, out
vars == <<E, path, visited, todo, out>>
T == 1..N
Ran(q) == {q[j] : j \in DOMAIN q}
Max(X) == CHOOSE x \in X : \A y \in X : y <= x
Init == E \in SUBSET (T \X T) /\ path = <<>> /\ visited = {} /\ todo = [v \in T |-> Succ(E, v)] /\ out = 0
Start == out = 0 /\ path = <<>> /\ \E v \in Nodes(E) \ visited : path' = <<v>> /\ visited' = visited \cup {v}
         /\ UNCHANGED <<E, todo, out>>
Top == path[Len(path)]
Edge == /\ out = 0 /\ path # <<>> /\ todo[Top] # {}
        /\ \E n \in todo[Top] :
             /\ todo' = [todo EXCEPT ![Top] = @ \ {n}]
             /\ IF n \in Ran(path)
                THEN LET k == CHOOSE j \in DOMAIN path : path[j] = n
                     IN  out' = Max({path[j] : j \in k..Len(path)}) /\ UNCHANGED <<path, visited>>
                ELSE IF n \in visited THEN UNCHANGED <<path, visited, out>>
                ELSE path' = Append(path, n) /\ visited' = visited \cup {n} /\ out' = out
        /\ UNCHANGED E
Back == out = 0 /\ path # <<>> /\ todo[Top] = {} /\ path' = SubSeq(path, 1, Len(path) - 1) /\ UNCHANGED <<E, visited, todo, out>>
Finish == out = 0 /\ path = <<>> /\ Nodes(E) \subseteq visited /\ out' = -1 /\ UNCHANGED <<E, path, visited, todo>>
Next == Start \/ Edge \/ Back \/ Finish
Spec == Init /\ [][Next]_vars
MInv == /\ out > 0 => HasCycle(E) /\ out \in Victims(E)
        /\ out = -1 => ~HasCycle(E)
        /\ HasCycle(E) <=> Victims(E) # {}
=============================================================================
