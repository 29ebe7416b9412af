------------------------------- MODULE StrFn -------------------------------
(* SQL string functions and the LIKE predicate (property V02).  A string is   *)
(* a sequence of characters (Unicode code points); positions count from 1.   *)
EXTENDS Integers, Sequences
Ran(q) == {q[j] : j \in DOMAIN q}
(* the part of s from position a to position b *)
Part(s, a, b) == LET lo == IF a < 1 THEN 1 ELSE a
                     hi == IF b > Len(s) THEN Len(s) ELSE b
                 IN  IF lo > hi THEN <<>> ELSE SubSeq(s, lo, hi)
(* SUBSTRING: a negative start counts from the end, 0 and a start before the first character mean the first *)
Start(s, f) == IF f > 0 THEN f ELSE IF f < 0 /\ -f <= Len(s) THEN Len(s) + f + 1 ELSE 1
From(s, f) == Part(s, Start(s, f), Len(s))
Substring(s, f, n) == IF n <= 0 THEN <<>> ELSE Part(s, Start(s, f), Start(s, f) + n - 1)
(* TRIM: the longest run of characters of C is cut off the sides asked for *)
Space == {32, 9, 10, 13}
RECURSIVE TrimL(_, _), TrimR(_, _)
TrimL(s, C) == IF s # <<>> /\ s[1] \in C THEN TrimL(Tail(s), C) ELSE s
TrimR(s, C) == IF s # <<>> /\ s[Len(s)] \in C THEN TrimR(SubSeq(s, 1, Len(s) - 1), C) ELSE s
Trim(side, s, C) == CASE side = "LEADING" -> TrimL(s, C)
                      [] side = "TRAILING" -> TrimR(s, C)
                      [] OTHER -> TrimR(TrimL(s, C), C)
(* POSITION: where w first occurs in s, 0 if nowhere *)
At(w, s, j) == j + Len(w) - 1 <= Len(s) /\ SubSeq(s, j, j + Len(w) - 1) = w
Position(w, s) == IF \E j \in 1..(Len(s) + 1) : At(w, s, j)
                  THEN CHOOSE j \in 1..(Len(s) + 1) : At(w, s, j) /\ \A k \in 1..(j - 1) : ~At(w, s, k)
                  ELSE 0
(* OVERLAY: n characters of s from position f on are replaced by w (w is appended when f is past the end) *)
Overlay(s, w, f, n) == IF f > Len(s) THEN s \o w ELSE Part(s, 1, f - 1) \o w \o Part(s, f + n, Len(s))
(* letters: ASCII and Latin-1 *)
IsUpper(c) == c \in (65..90) \cup (192..214) \cup (216..222)
IsLower(c) == c \in (97..122) \cup (224..246) \cup (248..254)
UpC(c) == IF IsLower(c) THEN c - 32 ELSE c
LoC(c) == IF IsUpper(c) THEN c + 32 ELSE c
Upper(s) == [j \in DOMAIN s |-> UpC(s[j])]
Lower(s) == [j \in DOMAIN s |-> LoC(s[j])]
(* LIKE: % any run of characters, _ one character, e (if any) takes the next character literally *)
Lo7(c) == IF c \in 65..90 THEN c + 32 ELSE c
Same(a, b, ci) == a = b \/ (ci = 1 /\ Lo7(a) = Lo7(b))
RECURSIVE Match(_, _, _, _)
Match(s, p, e, ci) ==
    IF p = <<>> THEN s = <<>>
    ELSE IF p[1] \in e /\ Len(p) > 1
         THEN s # <<>> /\ Same(s[1], p[2], ci) /\ Match(Tail(s), SubSeq(p, 3, Len(p)), e, ci)
    ELSE IF p[1] = 37 THEN Match(s, Tail(p), e, ci) \/ (s # <<>> /\ Match(Tail(s), p, e, ci))
    ELSE s # <<>> /\ (p[1] = 95 \/ Same(s[1], p[1], ci)) /\ Match(Tail(s), Tail(p), e, ci)
--------------------------------------------------------------------------
Str(s) == [k |-> "str", v |-> s]
Num(n) == [k |-> "int", v |-> <<n>>]
Err == [k |-> "err", v |-> <<>>]
NullR == [k |-> "null", v |-> <<>>]
(* the result of command c: an error is only right for an OVERLAY outside the string's positions *)
Value(c) ==
  LET a == c.a
      n == Len(a)
  IN CASE c.op = "sub" -> Str(IF n = 3 THEN Substring(a[1].s, a[2].i, a[3].i) ELSE From(a[1].s, a[2].i))
       [] c.op = "trim" -> Str(Trim(c.side, a[1].s, IF n = 2 THEN Ran(a[2].s) ELSE Space))
       [] c.op = "pos" -> Num(Position(a[1].s, a[2].s))
       [] c.op = "over" -> IF a[3].i < 1 \/ (n = 4 /\ a[4].i < 0) THEN Err
                           ELSE Str(Overlay(a[1].s, a[2].s, a[3].i, IF n = 4 THEN a[4].i ELSE Len(a[2].s)))
       [] c.op = "upper" -> Str(Upper(a[1].s))
       [] c.op = "lower" -> Str(Lower(a[1].s))
       [] c.op = "like" -> [k |-> "bool", v |-> <<IF Match(a[1].s, a[2].s, Ran(c.esc), c.ci) <=> c.neg = 0 THEN 1 ELSE 0>>]
Result(c) == IF \E j \in DOMAIN c.a : c.a[j].k = "n" THEN NullR ELSE Value(c)
SInit == 0
SOutcomes(s, c) == {[s |-> s, r |-> Result(c)]}
=============================================================================
