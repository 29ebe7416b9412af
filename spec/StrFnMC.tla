------------------------------ MODULE StrFnMC ------------------------------
(* The functions against the laws that define them, for all short strings    *)
(* over a few characters (a, A, a space, and for LIKE the wildcards and an   *)
(* escape character).                                                        *)
EXTENDS StrFn, TLC, FiniteSets
CONSTANTS L, LP
VARIABLES x, w, p, f, n
Chr == {97, 65, 32}
PChr == {97, 65, 37, 95, 33}
Seqs(C, m) == UNION {[1..k -> C] : k \in 0..m}
Init == /\ x \in Seqs(Chr, L)
        /\ \/ w = <<>> /\ p \in Seqs(PChr, LP) /\ f = 1 /\ n = 0
           \/ p = <<>> /\ w \in Seqs(Chr, 2) /\ f \in (-L - 1)..(L + 1) /\ n \in 0..(L + 1)
Next == UNCHANGED <<x, w, p, f, n>>
Spec == Init /\ [][Next]_<<x, w, p, f, n>>
(* cutting at a position loses and repeats nothing; a start counted from the end is the same position *)
Cut == /\ f \in 1..(Len(x) + 1) => Substring(x, 1, f - 1) \o From(x, f) = x
       /\ Len(Substring(x, f, n)) <= n
       /\ (f < 0 /\ -f <= Len(x)) => From(x, f) = From(x, Len(x) + 1 + f) /\ Len(From(x, f)) = -f
       /\ f > 0 => Substring(x, f, n) = Part(From(x, f), 1, n)
(* the character at the place asked for is w's, all others keep their order *)
Lay == f >= 1 => LET o == Overlay(x, w, f, n)
                     g == IF f > Len(x) THEN Len(x) + 1 ELSE f
                 IN  /\ Part(o, 1, g - 1) = Part(x, 1, g - 1)
                     /\ Part(o, g, g + Len(w) - 1) = w
                     /\ Part(o, g + Len(w), Len(o)) = Part(x, g + n, Len(x))
Find == LET k == Position(w, x)
        IN  /\ k = 0 => \A a, b \in 0..Len(x) : Part(x, a + 1, b) # w
            /\ k > 0 => Substring(x, k, Len(w)) = w /\ \A j \in 1..(k - 1) : Substring(x, j, Len(w)) # w
            /\ w = <<>> => k = 1
Trims == LET C == Ran(w) b == Trim("BOTH", x, C) IN
         /\ \E i, j \in 0..Len(x) : /\ i <= j /\ b = SubSeq(x, i + 1, j)
                                    /\ Ran(SubSeq(x, 1, i)) \cup Ran(SubSeq(x, j + 1, Len(x))) \subseteq C
         /\ b # <<>> => b[1] \notin C /\ b[Len(b)] \notin C
         /\ b = Trim("LEADING", Trim("TRAILING", x, C), C)
Case == /\ Upper(Lower(x)) = Upper(x) /\ Lower(Upper(x)) = Lower(x)
        /\ \A c \in 0..255 : (UpC(c) # c => IsUpper(UpC(c)) /\ LoC(UpC(c)) = c) /\ ~(IsUpper(c) /\ IsLower(c))
(* the language of a pattern, piece by piece *)
RECURSIVE Lang(_, _)
AnyS == Seqs(Chr, L)
Lang(q, e) == IF q = <<>> THEN {<<>>}
              ELSE IF q[1] \in e /\ Len(q) > 1 THEN {t \in {<<q[2]>> \o r : r \in Lang(SubSeq(q, 3, Len(q)), e)} : Len(t) <= L}
              ELSE LET R == Lang(Tail(q), e) IN
                   {t \in IF q[1] = 37 THEN {v \o r : v \in AnyS, r \in R}
                          ELSE IF q[1] = 95 THEN {<<c>> \o r : c \in Chr, r \in R}
                          ELSE {<<q[1]>> \o r : r \in R} : Len(t) <= L}
Likes == (w = <<>> /\ f = 1 /\ n = 0) =>
         /\ \A e \in {{}, {33}, {37}} : Match(x, p, e, 0) <=> x \in Lang(p, e)
         /\ Match(x, p, {33}, 1) <=> Match([j \in DOMAIN x |-> Lo7(x[j])], [j \in DOMAIN p |-> Lo7(p[j])], {33}, 0)
=============================================================================
