------------------------------ MODULE ValuesMC ------------------------------
(* The value specification itself: its arithmetic is arithmetic (checked     *)
(* against TLC's own integers, in a small base so that every carry occurs),  *)
(* its order is a total order, and its rules accept exactly one answer where *)
(* there is one.                                                             *)
EXTENDS Values, TLC, FiniteSets
CONSTANTS N
SmallBase == 4
SmallUnit == <<1, <<1>>>>
VARIABLES x, y, z
Rng == (-N)..N
Init == x \in Rng /\ y \in Rng /\ z \in Rng
Next == UNCHANGED <<x, y, z>>
Spec == Init /\ [][Next]_<<x, y, z>>
B(n) == Big(n)
Sgn(n) == IF n < 0 THEN -1 ELSE IF n > 0 THEN 1 ELSE 0
Quot(p, q) == Sgn(p) * Sgn(q) * ((IF p < 0 THEN -p ELSE p) \div (IF q < 0 THEN -q ELSE q))
Arithmetic ==
    /\ AddB(B(x), B(y)) = B(x + y)
    /\ SubB(B(x), B(y)) = B(x - y)
    /\ MulB(B(x), B(y)) = B(x * y)
    /\ CmpB(B(x), B(y)) = Sgn(x - y)
    /\ y # 0 => (IsQuot(B(z), B(x), B(y)) <=> z = Quot(x, y))
(* values: ints of two types, reals, strings over two letters, NULL, infinities *)
V(n) == IF n = N THEN [t |-> "Decimal", c |-> "inf", s |-> 1, d |-> <<>>, x |-> "inf"]
        ELSE IF n = -N THEN [t |-> "Float", c |-> "inf", s |-> -1, d |-> <<>>, x |-> "-inf"]
        ELSE IF n = 0 THEN [t |-> "Integer", c |-> "null", s |-> 0, d |-> <<>>, x |-> "null"]
        ELSE [t |-> IF n % 2 = 0 THEN "Integer" ELSE "Decimal", c |-> "num", s |-> B(n)[1], d |-> B(n)[2], x |-> ToString(n)]
Str(n) == LET k == n + N IN [t |-> IF k % 2 = 0 THEN "VarChar" ELSE "Char", c |-> "str", s |-> 0,
              d |-> IF k < 3 THEN <<>> ELSE IF k % 3 = 0 THEN <<k>> ELSE <<k % 5, k % 3>>, x |-> ToString(k)]
Total(f(_)) ==
    LET a == f(x) b == f(y) c == f(z)
    IN  (a.c # "null" /\ b.c # "null" /\ c.c # "null") =>
        /\ Comparable(a, b) /\ Order(a, b) = -Order(b, a)
        /\ (Order(a, b) <= 0 /\ Order(b, c) <= 0 => Order(a, c) <= 0)
        /\ (Order(a, b) <= 0 /\ Order(b, c) < 0 => Order(a, c) < 0)
TotalNum == Total(V)
TotalStr == Total(Str)
Tfs == {"T", "F", "N"}
(* one answer only *)
Decided ==
    LET a == V(x) b == V(y)
        All == IF z = 0 /\ x < 3 /\ y < 3 /\ x > -3 /\ y > -3 THEN [1..6 -> Tfs] ELSE {}
    IN Cardinality({r \in All : CmpOk(a, b, r \o Mirror(r))}) = (IF All = {} THEN 0 ELSE 1)
=============================================================================
