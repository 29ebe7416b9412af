------------------------------- MODULE BigNum -------------------------------
(* Exact integers of any size: <<sign, magnitude>>, the magnitude a sequence  *)
(* of digits in base 10000, least significant first, without leading zeros.   *)
EXTENDS Integers, Sequences
Base == 10000
Zero == <<0, <<>>>>

RECURSIVE Strip(_)
Strip(d) == IF d = <<>> THEN d ELSE IF d[Len(d)] = 0 THEN Strip(SubSeq(d, 1, Len(d) - 1)) ELSE d
Mk(sg, d) == LET m == Strip(d) IN IF m = <<>> THEN Zero ELSE <<sg, m>>
Dig(d, k) == IF k <= Len(d) THEN d[k] ELSE 0
Max2(x, y) == IF x > y THEN x ELSE y

RECURSIVE CmpFrom(_, _, _)
CmpFrom(p, q, k) == IF k = 0 THEN 0 ELSE IF p[k] < q[k] THEN -1 ELSE IF p[k] > q[k] THEN 1 ELSE CmpFrom(p, q, k - 1)
CmpMag(p, q) == IF Len(p) < Len(q) THEN -1 ELSE IF Len(p) > Len(q) THEN 1 ELSE CmpFrom(p, q, Len(p))
CmpB(x, y) == IF x[1] < y[1] THEN -1 ELSE IF x[1] > y[1] THEN 1
              ELSE IF x[1] = 0 THEN 0 ELSE x[1] * CmpMag(x[2], y[2])

RECURSIVE AddFrom(_, _, _, _)
AddFrom(p, q, k, c) == IF k > Max2(Len(p), Len(q)) THEN IF c = 0 THEN <<>> ELSE <<c>>
                       ELSE LET t == Dig(p, k) + Dig(q, k) + c IN <<t % Base>> \o AddFrom(p, q, k + 1, t \div Base)
RECURSIVE SubFrom(_, _, _, _)
SubFrom(p, q, k, b) == IF k > Len(p) THEN <<>>
                       ELSE LET t == p[k] - Dig(q, k) - b IN <<t % Base>> \o SubFrom(p, q, k + 1, IF t < 0 THEN 1 ELSE 0)
RECURSIVE MulDig(_, _, _, _)
MulDig(p, m, k, c) == IF k > Len(p) THEN IF c = 0 THEN <<>> ELSE <<c>>
                      ELSE LET t == p[k] * m + c IN <<t % Base>> \o MulDig(p, m, k + 1, t \div Base)
RECURSIVE MulMag(_, _, _)
MulMag(p, q, k) == IF k > Len(q) THEN <<>> ELSE AddFrom(MulDig(p, q[k], 1, 0), <<0>> \o MulMag(p, q, k + 1), 1, 0)

Neg(x) == <<-x[1], x[2]>>
AddB(x, y) == IF x[1] = 0 THEN y ELSE IF y[1] = 0 THEN x
              ELSE IF x[1] = y[1] THEN Mk(x[1], AddFrom(x[2], y[2], 1, 0))
              ELSE CASE CmpMag(x[2], y[2]) = 0 -> Zero
                     [] CmpMag(x[2], y[2]) > 0 -> Mk(x[1], SubFrom(x[2], y[2], 1, 0))
                     [] OTHER -> Mk(y[1], SubFrom(y[2], x[2], 1, 0))
SubB(x, y) == AddB(x, Neg(y))
MulB(x, y) == IF x[1] = 0 \/ y[1] = 0 THEN Zero ELSE Mk(x[1] * y[1], MulMag(x[2], y[2], 1))

RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN <<1, <<1>>>> ELSE MulB(<<1, <<2>>>>, Pow2(n - 1))
RECURSIVE ToMag(_)
ToMag(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o ToMag(n \div Base)
Big(n) == IF n = 0 THEN Zero ELSE IF n < 0 THEN <<-1, ToMag(-n)>> ELSE <<1, ToMag(n)>>
=============================================================================
