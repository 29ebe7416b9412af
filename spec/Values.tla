------------------------------- MODULE Values -------------------------------
(* SQL values: what comparing, computing with, converting and storing them    *)
(* must give.  A value is [t |-> type, c |-> class, s, d, x]:                 *)
(*   c = "num"  the exact number <<s, d>> / 2^FracBits (all numeric types)    *)
(*   c = "ord"  an ordinal <<s, d>> of a non-numeric type (dates, booleans..) *)
(*   c = "str"  the sequence of bytes d                                       *)
(*   c = "inf"  an infinity of sign s;  c = "nan"; c = "null"                 *)
(*   c = "odd"  anything else, identified by its token x alone                *)
(* x is a token holding the complete contents (type, payload, NULL-ness).     *)
EXTENDS BigNum
FracBits == 20
IntTypes == {"TinyInt", "SmallInt", "Integer", "BigInt"}
RealTypes == {"Float", "Decimal"}
NumTypes == IntTypes \cup RealTypes
StrTypes == {"VarChar", "Char"}
Width(t) == CASE t = "TinyInt" -> 8 [] t = "SmallInt" -> 16 [] t = "Integer" -> 32 [] OTHER -> 64
Unit == IF FracBits = 20 THEN <<1, <<8576, 104>>>> ELSE Pow2(FracBits)
Hi(t) == Pow2(Width(t) - 1)     \* first number above the range
Num(v) == <<v.s, v.d>>          \* scaled by Unit
IsNum(v) == v.c \in {"num", "inf"}
InRange(n, t) == CmpB(n, Hi(t)) < 0 /\ CmpB(n, Neg(Hi(t))) >= 0
(* the integer value of an integer-typed value *)
IsIntVal(v, n) == v.c = "num" /\ Num(v) = MulB(n, Unit)

RECURSIVE CmpSeq(_, _, _)
CmpSeq(p, q, k) == IF k > Len(p) THEN IF k > Len(q) THEN 0 ELSE -1
                   ELSE IF k > Len(q) THEN 1
                   ELSE IF p[k] < q[k] THEN -1 ELSE IF p[k] > q[k] THEN 1 ELSE CmpSeq(p, q, k + 1)

(* which values may be compared with one another *)
Comparable(a, b) ==
    \/ IsNum(a) /\ IsNum(b)
    \/ a.c = "ord" /\ b.c = "ord" /\ a.t = b.t
    \/ a.c = "str" /\ b.c = "str" /\ (a.t = b.t \/ {a.t, b.t} \subseteq StrTypes)
NumOrd(a, b) == IF a.c = "num" /\ b.c = "num" THEN CmpB(Num(a), Num(b))
                ELSE LET x == IF a.c = "inf" THEN a.s ELSE 0
                         y == IF b.c = "inf" THEN b.s ELSE 0
                     IN IF x < y THEN -1 ELSE IF x > y THEN 1 ELSE 0
Order(a, b) == IF IsNum(a) THEN NumOrd(a, b)
               ELSE IF a.c = "ord" THEN CmpB(Num(a), Num(b)) ELSE CmpSeq(a.d, b.d, 1)

Tf(p) == IF p THEN "T" ELSE "F"
(* =, <>, <, <=, >, >= *)
Six(o) == <<Tf(o = 0), Tf(o # 0), Tf(o < 0), Tf(o <= 0), Tf(o > 0), Tf(o >= 0)>>
Unknown6 == <<"N", "N", "N", "N", "N", "N">>
Mirror(r) == <<r[1], r[2], r[5], r[6], r[3], r[4]>>

(* r: the six comparisons of (a, b), then those of (b, a) *)
CmpOk(a, b, r) ==
    LET ab == SubSeq(r, 1, 6)
        ba == SubSeq(r, 7, 12)
    IN IF a.c = "null" \/ b.c = "null" THEN ab = Unknown6 /\ ba = Unknown6
       ELSE IF Comparable(a, b) THEN ab = Six(Order(a, b)) /\ ba = Six(Order(b, a))
       ELSE IF a.t = b.t /\ a.c = "odd" /\ b.c = "odd"
            THEN /\ ab[1] = Tf(a.x = b.x) /\ ab[2] = Tf(a.x # b.x) /\ ba = Mirror(ab)
       ELSE ba = Mirror(ab)

(* equality as grouping uses it, hashing, and the sort order *)
(* r = <<a = b, hash(a) = hash(b), order of (a, b), order of (b, a)>> *)
Flip(o) == CASE o = "L" -> "G" [] o = "G" -> "L" [] OTHER -> o
OrdName(o) == IF o < 0 THEN "L" ELSE IF o > 0 THEN "G" ELSE "E"
HeqOk(a, b, r) ==
    /\ r[1] = "T" => r[2] = "T"
    /\ r[4] = Flip(r[3])
    /\ (r[1] = "T") <=> (r[3] = "E")
    /\ IF a.c = "null" /\ b.c = "null" THEN r[1] = "T"
       ELSE IF a.c = "null" THEN r[3] = "L"
       ELSE IF b.c = "null" THEN r[3] = "G"
       ELSE IF a.t = b.t /\ Comparable(a, b) THEN r[3] = OrdName(Order(a, b))
       ELSE IF a.t = b.t THEN r[1] = Tf(a.x = b.x)
       ELSE TRUE

(* integer arithmetic: the exact result, or an error *)
Wider(t, u) == IF Width(t) >= Width(u) THEN t ELSE u
Exact(op, x, y) == CASE op = "add" -> AddB(x, y) [] op = "sub" -> SubB(x, y) [] OTHER -> MulB(x, y)
AbsB(x) == IF x[1] < 0 THEN Neg(x) ELSE x
(* q = x / y rounded towards zero *)
IsQuot(q, x, y) == LET rem == SubB(x, MulB(q, y))
                   IN /\ CmpB(AbsB(rem), AbsB(y)) < 0 /\ (rem[1] = 0 \/ rem[1] = x[1])
(* m = x mod y, with the sign of x: witnessed by the quotient the code's own division gives *)
IsRem(m, x, y, q) == /\ AddB(MulB(q, y), m) = x /\ CmpB(AbsB(m), AbsB(y)) < 0 /\ (m[1] = 0 \/ m[1] = x[1])
(* a, b and a result r = [err |-> BOOLEAN, v |-> value]; must: an error is only right when there is no result *)
ArithOk(op, a, b, r, must) ==
    IF a.c = "null" \/ b.c = "null" THEN IF must THEN r.v.c = "null" /\ ~r.err ELSE r.err \/ r.v.c = "null"
    ELSE IF a.t \in IntTypes /\ b.t \in IntTypes
    THEN LET W == Wider(a.t, b.t)
             x == Num(a)
             y == Num(b)
         IN IF op \in {"add", "sub", "mul"}
            THEN LET n == IF op = "mul" THEN MulB(x, y) ELSE Exact(op, x, y)    \* scaled by Unit (twice for mul)
                     sc == IF op = "mul" THEN MulB(Unit, Unit) ELSE Unit
                     fits == CmpB(n, MulB(Hi(W), sc)) < 0 /\ CmpB(n, Neg(MulB(Hi(W), sc))) >= 0
                 IN IF r.err THEN ~must \/ ~fits
                    ELSE r.v.t \in IntTypes /\ r.v.c = "num" /\ (IF op = "mul" THEN MulB(Num(r.v), Unit) = n ELSE Num(r.v) = n)
            ELSE IF op = "div"
            THEN IF y[1] = 0 THEN r.err
                 ELSE IF r.err THEN ~must \/ (x = Neg(MulB(Hi(W), Unit)) /\ y = Neg(Unit))
                 ELSE /\ r.v.t \in IntTypes /\ r.v.c = "num"
                      /\ LET rem == SubB(MulB(x, Unit), MulB(Num(r.v), y))
                         IN CmpB(AbsB(rem), AbsB(MulB(y, Unit))) < 0 /\ (rem[1] = 0 \/ rem[1] = x[1])
            ELSE (* mod; r.q is the integer quotient the recorder computed, checked here *)
                 IF y[1] = 0 THEN r.err \/ r.v.c = "null"
                 ELSE IF r.err \/ r.v.c = "null" THEN ~must \/ a.t # b.t
                 ELSE /\ r.v.t \in IntTypes /\ r.v.c = "num" /\ CmpB(AbsB(Num(r.v)), AbsB(y)) < 0
                      /\ (r.v.s = 0 \/ r.v.s = a.s)
                      /\ AddB(MulB(<<r.q.s, r.q.d>>, y), Num(r.v)) = x
    ELSE IF a.t = "Decimal" /\ b.t = "Decimal" /\ a.c = "num" /\ b.c = "num" /\ op \in {"add", "sub", "mul"}
    THEN (* exact whenever the exact result has few enough digits *)
         LET n == IF op = "mul" THEN MulB(Num(a), Num(b)) ELSE MulB(Exact(op, Num(a), Num(b)), Unit)
         IN CmpB(AbsB(n), Pow2(53)) < 0 => ~r.err /\ r.v.t = "Decimal" /\ r.v.c = "num" /\ MulB(Num(r.v), Unit) = n
    ELSE TRUE

(* conversion: the same value (whole part, for integers from reals) or an error *)
CastOk(a, t, r) ==
    IF a.c = "null" THEN r.err \/ (r.v.c = "null" /\ (a.t = t \/ r.v.t = t))
    ELSE IF a.t = t THEN ~r.err /\ r.v.x = a.x
    ELSE IF a.t \in IntTypes /\ t \in IntTypes
    THEN IF CmpB(Num(a), MulB(Hi(t), Unit)) < 0 /\ CmpB(Num(a), Neg(MulB(Hi(t), Unit))) >= 0
         THEN ~r.err /\ r.v.t = t /\ r.v.c = "num" /\ Num(r.v) = Num(a)
         ELSE r.err
    ELSE IF a.t \in RealTypes /\ t \in IntTypes
    THEN IF r.err THEN a.c # "num" \/ CmpB(AbsB(Num(a)), MulB(SubB(Hi(t), Big(1)), Unit)) > 0
         ELSE /\ r.v.t = t /\ r.v.c = "num" /\ a.c \in {"num", "odd"}
              /\ a.c = "num" => CmpB(AbsB(SubB(Num(a), Num(r.v))), Unit) < 0
    ELSE IF a.t \in IntTypes /\ t = "Decimal"
    THEN ~r.err /\ r.v.t = t /\ (CmpB(AbsB(Num(a)), MulB(Pow2(53), Unit)) <= 0 => r.v.c = "num" /\ Num(r.v) = Num(a))
    ELSE IF a.t \in IntTypes /\ t = "Float"
    THEN ~r.err /\ r.v.t = t /\ (CmpB(AbsB(Num(a)), MulB(Pow2(24), Unit)) <= 0 => r.v.c = "num" /\ Num(r.v) = Num(a))
    ELSE IF a.t = "Float" /\ t = "Decimal" THEN ~r.err /\ r.v.t = t /\ r.v.c = a.c /\ (a.c = "num" => Num(r.v) = Num(a))
    ELSE IF {a.t, t} \subseteq StrTypes THEN ~r.err /\ r.v.t = t /\ r.v.d = a.d
    ELSE r.err \/ r.v.t = t

(* to text and back *)
ViaTextOk(a, r) == IF a.t \in IntTypes /\ a.c = "num" THEN ~r.err /\ r.v.x = a.x ELSE TRUE

(* LEAST and GREATEST *)
MinOk(a, b, v, mx) ==
    IF a.c = "null" \/ b.c = "null" THEN v.c = "null"
    ELSE IF Comparable(a, b)
    THEN LET o == Order(a, b)
             w == IF mx THEN (IF o > 0 THEN {a.x} ELSE IF o < 0 THEN {b.x} ELSE {a.x, b.x})
                  ELSE (IF o < 0 THEN {a.x} ELSE IF o > 0 THEN {b.x} ELSE {a.x, b.x})
         IN v.x \in w
    ELSE TRUE

Ok(e) == CASE e.op = "cmp" -> CmpOk(e.a, e.b, e.r)
           [] e.op = "heq" -> HeqOk(e.a, e.b, e.r)
           [] e.op = "minmax" -> MinOk(e.a, e.b, e.r.min, FALSE) /\ MinOk(e.a, e.b, e.r.max, TRUE)
           [] e.op \in {"add", "sub", "mul", "div", "mod"} -> ArithOk(e.op, e.a, e.b, e.r, e.must = 1)
           [] e.op = "cast" -> CastOk(e.a, e.to, e.r)
           [] e.op = "text" -> ViaTextOk(e.a, e.r)
           (* storing: what is read back is what was written *)
           [] e.op = "bytes" -> e.a.c # "null" => e.r.x = e.a.x
           [] e.op = "tuple" -> e.r = e.toks /\ e.len = e.used
           [] OTHER -> FALSE
VInit == [u |-> 0]
VOutcomes(s, e) == IF Ok(e) THEN {[s |-> s, r |-> e.r]} ELSE {}
=============================================================================
