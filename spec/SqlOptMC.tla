------------------------------ MODULE SqlOptMC ------------------------------
(* The rewriting rules of an optimizer, applied anywhere in a plan and in any order. A state is a
   database, the plan as written and what it was rewritten to; whatever the rewritten plan may
   return, the plan as written allows. *)
EXTENDS Sql
CONSTANTS Dom, MaxA, MaxB, MaxSteps, Wrong     \* Wrong: also apply rules that are not sound, to see them refused
VARIABLES db, was, now, n
vars == <<db, was, now, n>>
V(x) == IF x = 0 THEN Null ELSE IntV(x)
RowSet == SetToSortSeq({<<a, b>> : a \in Dom, b \in Dom}, LAMBDA x, y : SeqCmp(x, y) < 0)
Tabs(m) == UNION {{[i \in 1..k |-> <<V(RowSet[f[i]][1]), V(RowSet[f[i]][2])>>] : f \in {f \in [1..k -> 1..Len(RowSet)] : \A i \in 1..(k - 1) : f[i] <= f[i + 1]}} : k \in 0..m}

C(i) == <<"c", i>>
K(v) == <<"k", v, "Integer">>
Yes == <<"k", True, "Boolean">>
Cmp(op, a, b) == <<"cmp", op, a, b>>
A == <<"scan", 1, "seq">>
B == <<"scan", 2, "seq">>
F(p, x) == <<"filter", p, x>>
Pr(es, x) == <<"project", es, x>>
J(ty, l, r) == <<"join", "nl", ty, Cmp("=", C(0), C(2)), l, r, 2, 2, <<>>, <<>>>>
Down == <<<<C(0), 1>>, <<C(1), 1>>>>
Up == <<<<C(0), 0>>>>
P1 == Cmp(">=", C(0), C(1))
P2 == <<"is", "null", 1, C(1)>>
S1 == Pr(<<C(1), C(0)>>, A)
Bases == {A, F(Yes, A), F(P1, A), F(P2, F(P1, A)), F(P1, F(Yes, F(P2, A))), Pr(<<C(1), K(IntV(1))>>, A), Pr(<<C(1), C(1)>>, S1), Pr(<<C(1), C(0)>>, Pr(<<C(1), P1>>, A)),
          F(P1, S1), Pr(<<C(0), C(1)>>, F(Yes, S1)), J("inner", F(P1, A), B), J("left", F(Yes, A), F(P2, F(P1, B))), J("full", S1, F(P2, B))}
Tops == {x : x \in Bases} \cup {<<"limit", 1, x>> : x \in Bases} \cup {<<"limit", 2, <<"sort", Down, x>>>> : x \in Bases} \cup {<<"limit", 1, <<"sort", Up, x>>>> : x \in Bases}
        \cup {<<"sort", Down, <<"limit", 2, x>>>> : x \in Bases} \cup {<<"distinct", F(Yes, x)>> : x \in Bases} \cup {F(P1, <<"limit", 1, <<"sort", Down, x>>>>) : x \in Bases}

(* the rules, at the root of a plan *)
KeysOf(ks) == [i \in 1..Len(ks) |-> ks[i][1]]
Rules(p) ==
  (IF p[1] = "filter" /\ p[2] = Yes THEN {p[3]} ELSE {})
  \cup (IF p[1] = "filter" /\ p[3][1] = "filter" THEN {F(<<"and", p[2], p[3][2]>>, p[3][3])} ELSE {})
  \cup (IF p[1] = "project" /\ p[3][1] = "project" /\ (\A i \in 1..Len(p[2]) : p[2][i][1] = "c")
          THEN {Pr([i \in 1..Len(p[2]) |-> p[3][2][p[2][i][2] + 1]], p[3][3])} ELSE {})
  \cup (IF p[1] = "limit" /\ p[3][1] = "sort" /\ p[2] > 0 /\ p[3][2] # <<>> /\ (\A i \in 1..Len(p[3][2]) : p[3][2][i][2] = 1)
          THEN {<<"topn", KeysOf(p[3][2]), p[2], p[3][3]>>} ELSE {})
  \cup (IF p = A THEN {<<"iscan", 1, 0, <<>>>>} ELSE {})
Unsound(p) ==
  CASE p[1] = "project" /\ p[3][1] = "project" -> {p[3]}
    [] p[1] = "sort" /\ p[3][1] = "limit" -> {<<"topn", KeysOf(p[2]), p[3][2], p[3][3]>>}
    [] p[1] = "limit" /\ p[3][1] = "sort" -> {<<"topn", KeysOf(p[3][2]), p[2], p[3][3]>>}
    [] p[1] = "filter" /\ p[3][1] = "limit" -> {<<"limit", p[3][2], F(p[2], p[3][3])>>}
    [] p[1] = "join" /\ p[5][1] = "filter" /\ p[3] # "inner" -> {F(p[5][2], [p EXCEPT ![5] = @[3]])}
    [] OTHER -> {}
At(p) == Rules(p) \cup (IF Wrong THEN Unsound(p) ELSE {})
RECURSIVE Rewrites(_)
Rewrites(p) ==
  At(p) \cup
  CASE p[1] \in {"scan", "iscan"} -> {}
    [] p[1] = "join" -> {[p EXCEPT ![5] = x] : x \in Rewrites(p[5])} \cup {[p EXCEPT ![6] = x] : x \in Rewrites(p[6])}
    [] OTHER -> {[p EXCEPT ![Len(p)] = x] : x \in Rewrites(p[Len(p)])}

Init == n = 0 /\ db \in {<<a, b>> : a \in Tabs(MaxA), b \in Tabs(MaxB)} /\ was \in Tops /\ now = was
Next == n < MaxSteps /\ n' = n + 1 /\ UNCHANGED <<db, was>> /\ now' \in Rewrites(now)
Spec == Init /\ [][Next]_vars

(* everything a plan may return: which rows it keeps and in which order is open as far as the plan leaves it so *)
Orderings(rows) == UNION {{[i \in 1..m |-> rows[f[i]]] : f \in {f \in [1..m -> 1..Len(rows)] : \A i, j \in 1..m : f[i] = f[j] => i = j}} : m \in 0..Len(rows)}
May(p, nf) == LET R == Rows(p, db, nf) IN {g \in Orderings(R.rows) : Matches(R, g, nf)}
Refines(p, q) == \A nf \in NullOrders : LET W == Rows(q, db, nf) IN \A g \in May(p, nf) : Matches(W, g, nf)
Sound == now # was => Refines(now, was)
(* the rewriting ends: every rule removes an operator, or turns one into a cheaper one *)
RECURSIVE Cost(_)
Cost(p) == CASE p[1] = "scan" -> 2 [] p[1] = "iscan" -> 1 [] p[1] = "join" -> 1 + Cost(p[5]) + Cost(p[6]) [] OTHER -> 1 + Cost(p[Len(p)])
Ends == [][Wrong \/ Cost(now') < Cost(now)]_now
=============================================================================
