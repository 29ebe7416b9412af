-------------------------------- MODULE Sql --------------------------------
(* What a query over tables means: values with NULL, three-valued logic, expressions, and the
   relational operators, evaluated over a database of rows. A query result is described by the
   rows it may contain and what is known about their order, so that everything SQL leaves open
   (the order of unsorted rows, which of several equal-ranked rows a LIMIT keeps, whether NULLs
   sort first or last) stays open.

   A value is <<kind, payload>>: <<0,<<>>>> NULL, <<1,<<n>>>> integer, <<2,codepoints>> text,
   <<3,<<0 or 1>>>> boolean, <<4,<<thousandths>>>> real, <<5,<<total in thousandths,count>>>> an
   average, <<-1,<<>>>> an evaluation error. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt

Scale == 1000
Null == <<0, <<>>>>
Err == <<-1, <<>>>>
Bool(b) == <<3, <<IF b THEN 1 ELSE 0>>>>
True == Bool(TRUE)
False == Bool(FALSE)
IntV(n) == <<1, <<n>>>>
IsNull(v) == v[1] = 0
IsErr(v) == v[1] = -1
IsNum(v) == v[1] \in {1, 4}
Num(v) == IF v[1] = 1 THEN v[2][1] * Scale ELSE v[2][1]

SgnOf(n) == IF n < 0 THEN -1 ELSE IF n > 0 THEN 1 ELSE 0
Mn(a, b) == IF a < b THEN a ELSE b
Mx(a, b) == IF a < b THEN b ELSE a

(* order of two sequences of numbers, shorter first *)
SeqCmp(a, b) ==
  LET n == Mn(Len(a), Len(b))
      D == {i \in 1..n : a[i] # b[i]}
  IN IF D = {} THEN SgnOf(Len(a) - Len(b)) ELSE LET i == Min(D) IN SgnOf(a[i] - b[i])

(* order of two values of one kind, neither NULL *)
AvgOf(v) == IF v[1] = 5 THEN v[2] ELSE <<Num(v), 1>>
Ord(a, b) == IF a[1] = 5 \/ b[1] = 5 THEN LET x == AvgOf(a) y == AvgOf(b) d == x[1] * y[2] - y[1] * x[2]
                                          IN IF a[1] # b[1] /\ Mx(d, -d) <= x[2] * y[2] THEN 0 ELSE SgnOf(d)   \* an average was rounded to be seen
             ELSE IF IsNum(a) /\ IsNum(b) THEN SgnOf(Num(a) - Num(b)) ELSE SeqCmp(a[2], b[2])
Kind(v) == IF v[1] \in {4, 5} THEN 1 ELSE v[1]
Comparable(a, b) == Kind(a) = Kind(b)

(* the equality of DISTINCT and GROUP BY: NULL is the same as NULL *)
Same(a, b) ==
  \/ IsNull(a) /\ IsNull(b)
  \/ a[1] # 0 /\ b[1] # 0 /\ Comparable(a, b) /\ Ord(a, b) = 0
SameRow(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Same(a[i], b[i])

-----------------------------------------------------------------------------
(* three-valued logic *)
And3(a, b) == IF a = False \/ b = False THEN False ELSE IF IsNull(a) \/ IsNull(b) THEN Null ELSE True
Or3(a, b) == IF a = True \/ b = True THEN True ELSE IF IsNull(a) \/ IsNull(b) THEN Null ELSE False
Not3(a) == IF IsNull(a) THEN Null ELSE Bool(a = False)
Neg3(neg, a) == IF neg = 1 THEN Not3(a) ELSE a

Cmp3(op, a, b) ==
  IF IsErr(a) \/ IsErr(b) THEN Err
  ELSE IF IsNull(a) \/ IsNull(b) THEN Null
  ELSE IF ~Comparable(a, b) THEN Err
  ELSE LET o == Ord(a, b) IN
       Bool(CASE op = "=" -> o = 0 [] op = "<>" -> o # 0 [] op = "<" -> o < 0
              [] op = "<=" -> o <= 0 [] op = ">" -> o > 0 [] op = ">=" -> o >= 0)

(* LIKE: % any run, _ one character; es is the escape character, 0 for none *)
RECURSIVE LikeM(_, _, _, _, _)
LikeM(s, p, i, j, es) ==
  IF j > Len(p) THEN i > Len(s)
  ELSE IF es # 0 /\ p[j] = es /\ j < Len(p) THEN i <= Len(s) /\ s[i] = p[j + 1] /\ LikeM(s, p, i + 1, j + 2, es)
  ELSE IF p[j] = 37 THEN \E k \in i..(Len(s) + 1) : LikeM(s, p, k, j + 1, es)
  ELSE i <= Len(s) /\ (p[j] = 95 \/ s[i] = p[j]) /\ LikeM(s, p, i + 1, j + 1, es)
Lower(s) == [i \in 1..Len(s) |-> IF s[i] \in 65..90 THEN s[i] + 32 ELSE s[i]]

TruncDiv(a, b) == LET q == (IF a < 0 THEN -a ELSE a) \div (IF b < 0 THEN -b ELSE b) IN IF (a < 0) # (b < 0) THEN -q ELSE q
Arith(op, a, b) ==
  IF IsErr(a) \/ IsErr(b) THEN Err
  ELSE IF IsNull(a) \/ IsNull(b) THEN Null
  ELSE IF a[1] = 1 /\ b[1] = 1
       THEN CASE op = "+" -> IntV(a[2][1] + b[2][1]) [] op = "-" -> IntV(a[2][1] - b[2][1])
              [] op = "*" -> IntV(a[2][1] * b[2][1])
              [] op = "/" -> IF b[2][1] = 0 THEN Err ELSE IntV(TruncDiv(a[2][1], b[2][1]))
       ELSE CASE op = "+" -> <<4, <<Num(a) + Num(b)>>>> [] op = "-" -> <<4, <<Num(a) - Num(b)>>>>
              [] OTHER -> Err

(* expressions: see vlib/sqlgen.py for the same grammar on the generating side *)
RECURSIVE Ev(_, _), CaseOf(_, _, _, _), InOf(_, _, _, _, _), CoalOf(_, _, _)
Ev(e, row) ==
  CASE e[1] = "c" -> row[e[2] + 1]
    [] e[1] = "k" -> e[2]
    [] e[1] = "cmp" -> Cmp3(e[2], Ev(e[3], row), Ev(e[4], row))
    [] e[1] = "ar" -> Arith(e[2], Ev(e[3], row), Ev(e[4], row))
    [] e[1] = "neg" -> LET v == Ev(e[2], row) IN IF IsErr(v) \/ IsNull(v) THEN v ELSE <<v[1], <<-v[2][1]>>>>
    [] e[1] = "and" -> LET a == Ev(e[2], row) b == Ev(e[3], row) IN IF IsErr(a) \/ IsErr(b) THEN Err ELSE And3(a, b)
    [] e[1] = "or" -> LET a == Ev(e[2], row) b == Ev(e[3], row) IN IF IsErr(a) \/ IsErr(b) THEN Err ELSE Or3(a, b)
    [] e[1] = "not" -> LET a == Ev(e[2], row) IN IF IsErr(a) THEN Err ELSE Not3(a)
    [] e[1] = "is" -> LET a == Ev(e[4], row) IN
         IF IsErr(a) THEN Err
         ELSE LET x == CASE e[2] = "null" -> IsNull(a) [] e[2] = "unknown" -> IsNull(a)
                         [] e[2] = "true" -> a = True [] e[2] = "false" -> a = False
              IN Bool(IF e[3] = 1 THEN ~x ELSE x)
    [] e[1] = "dist" -> LET a == Ev(e[3], row) b == Ev(e[4], row) IN     \* IS [NOT] DISTINCT FROM
         IF IsErr(a) \/ IsErr(b) THEN Err ELSE Bool(IF e[2] = 1 THEN Same(a, b) ELSE ~Same(a, b))
    [] e[1] = "btw" -> LET a == Ev(e[3], row) lo == Cmp3(">=", a, Ev(e[4], row)) hi == Cmp3("<=", a, Ev(e[5], row)) IN
         IF IsErr(lo) \/ IsErr(hi) THEN Err ELSE Neg3(e[2], And3(lo, hi))
    [] e[1] = "in" -> LET v == InOf(Ev(e[3], row), e[4], 1, False, row) IN IF IsErr(v) THEN Err ELSE Neg3(e[2], v)
    [] e[1] = "like" -> LET a == Ev(e[4], row) p == Ev(e[5], row) IN
         IF IsErr(a) \/ IsErr(p) THEN Err
         ELSE IF IsNull(a) \/ IsNull(p) THEN Null
         ELSE Neg3(e[2], Bool(IF e[3] = 1 THEN LikeM(Lower(a[2]), Lower(p[2]), 1, 1, e[6]) ELSE LikeM(a[2], p[2], 1, 1, e[6])))
    [] e[1] = "case" -> CaseOf(e, IF e[2] = <<>> THEN True ELSE Ev(e[2], row), 1, row)
    [] e[1] = "coal" -> CoalOf(e[2], 1, row)
CaseOf(e, base, i, row) ==
  IF i > Len(e[3]) THEN IF e[4] = <<>> THEN Null ELSE Ev(e[4], row)
  ELSE LET w == Ev(e[3][i][1], row)
           hit == IF e[2] = <<>> THEN w ELSE Cmp3("=", base, w)
       IN IF IsErr(hit) THEN Err ELSE IF hit = True THEN Ev(e[3][i][2], row) ELSE CaseOf(e, base, i + 1, row)
InOf(a, list, i, acc, row) ==
  IF i > Len(list) THEN acc
  ELSE LET c == Cmp3("=", a, Ev(list[i], row)) IN IF IsErr(c) THEN Err ELSE InOf(a, list, i + 1, Or3(acc, c), row)
CoalOf(list, i, row) ==
  IF i > Len(list) THEN Null
  ELSE LET v == Ev(list[i], row) IN IF IsErr(v) THEN Err ELSE IF ~IsNull(v) THEN v ELSE CoalOf(list, i + 1, row)

-----------------------------------------------------------------------------
(* rows *)
Filter(rows, T(_)) == SelectSeq(rows, T)
CountRow(rows, x) == Cardinality({i \in 1..Len(rows) : SameRow(x, rows[i])})
BagEq(want, got) == Len(want) = Len(got) /\ \A i \in 1..Len(want) : CountRow(want, want[i]) = CountRow(got, want[i])
PartOf(got, want) == \A i \in 1..Len(got) :
  LET x == got[i]
      n == Cardinality({j \in 1..Len(want) : SameRow(want[j], x)})
      m == Cardinality({j \in 1..Len(got) : SameRow(got[j], x)})
  IN m <= n
Nulls(n) == [i \in 1..n |-> Null]
DistinctRows(rows) == LET keep == {i \in 1..Len(rows) : ~\E j \in 1..(i - 1) : SameRow(rows[j], rows[i])}
                      IN [k \in 1..Cardinality(keep) |-> rows[SetToSortSeq(keep, <)[k]]]

(* sort keys: a sequence of <<expression, descending>>; nf = <<NULLs first ascending?, descending?>> *)
KeyCmp(a, b, desc, nf) ==
  LET first == IF desc = 1 THEN nf[2] ELSE nf[1] IN
  IF IsNull(a) /\ IsNull(b) THEN 0
  ELSE IF IsNull(a) THEN (IF first THEN -1 ELSE 1)
  ELSE IF IsNull(b) THEN (IF first THEN 1 ELSE -1)
  ELSE IF desc = 1 THEN -Ord(a, b) ELSE Ord(a, b)
RowCmp(keys, nf, x, y) ==
  LET D == {i \in 1..Len(keys) : KeyCmp(Ev(keys[i][1], x), Ev(keys[i][1], y), keys[i][2], nf) # 0} IN
  IF D = {} THEN 0 ELSE LET i == Min(D) IN KeyCmp(Ev(keys[i][1], x), Ev(keys[i][1], y), keys[i][2], nf)
SortRows(rows, keys, nf) ==
  LET ix == SetToSortSeq(1..Len(rows), LAMBDA i, j : LET c == RowCmp(keys, nf, rows[i], rows[j]) IN c < 0 \/ (c = 0 /\ i < j))
  IN [i \in 1..Len(rows) |-> rows[ix[i]]]
Total(rows, keys, nf) == \A i \in 1..(Len(rows) - 1) : RowCmp(keys, nf, rows[i], rows[i + 1]) = 0 => SameRow(rows[i], rows[i + 1])

(* aggregates over a group of rows *)
RECURSIVE SumTo(_, _)
SumTo(vs, i) == IF i = 0 THEN 0 ELSE SumTo(vs, i - 1) + Num(vs[i])
Agg(fn, e, rows) ==
  LET all == [i \in 1..Len(rows) |-> Ev(e, rows[i])]
      vs == SelectSeq(all, LAMBDA v : ~IsNull(v))
      Best(better(_, _)) == LET i == CHOOSE i \in 1..Len(vs) : \A j \in 1..Len(vs) : ~better(vs[j], vs[i]) IN vs[i]
  IN IF \E i \in 1..Len(all) : IsErr(all[i]) THEN Err
     ELSE CASE fn = "count*" -> IntV(Len(rows))
            [] fn = "count" -> IntV(Len(vs))
            [] OTHER -> IF vs = <<>> THEN Null
                        ELSE CASE fn = "sum" -> IF \A i \in 1..Len(vs) : vs[i][1] = 1 THEN IntV(SumTo(vs, Len(vs)) \div Scale) ELSE <<4, <<SumTo(vs, Len(vs))>>>>
                               [] fn = "avg" -> <<5, <<SumTo(vs, Len(vs)), Len(vs)>>>>
                               [] fn = "min" -> Best(LAMBDA a, b : Ord(a, b) < 0)
                               [] fn = "max" -> Best(LAMBDA a, b : Ord(a, b) > 0)

-----------------------------------------------------------------------------
(* What a plan may return: rows, in the known order, of which positions lo+1..hi are returned.
   o = "bag": nothing is known about the order; "keys": ordered by k, ties in any order;
   "exact": exactly this sequence. er: some expression fails. un: not determined (a plan that
   computes further with a choice SQL leaves open). *)
Res(er, rows, o, k) == [er |-> er, rows |-> rows, o |-> o, k |-> k, lo |-> 0, hi |-> Len(rows), un |-> FALSE]
Full(A) == A.lo = 0 /\ A.hi = Len(A.rows)
Det(A, nf) == Full(A) \/ A.o = "exact" \/ (A.o = "keys" /\ Total(A.rows, A.k, nf))
Got(A) == SubSeq(A.rows, A.lo + 1, A.hi)
OrdOf(A, nf) == IF A.o = "exact" \/ (A.o = "keys" /\ Total(A.rows, A.k, nf)) THEN "exact" ELSE "bag"

RECURSIVE Rows(_, _, _)
Rows(p, db, nf) ==
  CASE p[1] = "scan" -> Res(FALSE, db[p[2]], "bag", <<>>)
    [] p[1] = "iscan" ->      \* a scan through an index, for the rows for which every predicate holds
         LET I == db[p[2]] Holds(x) == \A j \in 1..Len(p[4]) : Ev(p[4][j], x) = True
         IN Res(\E i \in 1..Len(I) : \E j \in 1..Len(p[4]) : IsErr(Ev(p[4][j], I[i])), SelectSeq(I, Holds), "bag", <<>>)
    [] p[1] = "values" -> LET rs == [i \in 1..Len(p[2]) |-> [j \in 1..Len(p[2][i]) |-> Ev(p[2][i][j], <<>>)]]
                          IN Res(\E i \in 1..Len(rs) : \E j \in 1..Len(rs[i]) : IsErr(rs[i][j]), rs, "exact", <<>>)
    [] p[1] = "join" ->
         LET A == Rows(p[5], db, nf) B == Rows(p[6], db, nf)
             L == Got(A) R == Got(B) ty == p[3]
             On(l, r) == Ev(p[4], l \o r)
             hit == {<<i, j>> \in (1..Len(L)) \X (1..Len(R)) : ty = "cross" \/ On(L[i], R[j]) = True}
             seqh == SetToSortSeq(hit, LAMBDA a, b : a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2]))
             inner == [k \in 1..Len(seqh) |-> L[seqh[k][1]] \o R[seqh[k][2]]]
             lone == SetToSortSeq({i \in 1..Len(L) : \A j \in 1..Len(R) : <<i, j>> \notin hit}, <)
             rone == SetToSortSeq({j \in 1..Len(R) : \A i \in 1..Len(L) : <<i, j>> \notin hit}, <)
             lpad == IF ty \in {"left", "full"} THEN [k \in 1..Len(lone) |-> L[lone[k]] \o Nulls(p[8])] ELSE <<>>
             rpad == IF ty \in {"right", "full"} THEN [k \in 1..Len(rone) |-> Nulls(p[7]) \o R[rone[k]]] ELSE <<>>
             er == A.er \/ B.er \/ (ty # "cross" /\ \E i \in 1..Len(L) : \E j \in 1..Len(R) : IsErr(On(L[i], R[j])))
         IN [Res(er, inner \o lpad \o rpad, "bag", <<>>) EXCEPT !.un = A.un \/ B.un \/ ~Det(A, nf) \/ ~Det(B, nf)]
    [] OTHER ->
         LET A == Rows(p[Len(p)], db, nf)
             I == Got(A)
             un == A.un \/ ~Det(A, nf)
         IN
         CASE p[1] = "filter" ->
                [Res(A.er \/ \E i \in 1..Len(I) : IsErr(Ev(p[2], I[i])), SelectSeq(I, LAMBDA x : Ev(p[2], x) = True), OrdOf(A, nf), <<>>) EXCEPT !.un = un]
           [] p[1] = "project" ->
                LET rs == [i \in 1..Len(I) |-> [j \in 1..Len(p[2]) |-> Ev(p[2][j], I[i])]]
                IN [Res(A.er \/ \E i \in 1..Len(rs) : \E j \in 1..Len(rs[i]) : IsErr(rs[i][j]), rs, OrdOf(A, nf), <<>>) EXCEPT !.un = un]
           [] p[1] = "sort" ->
                [Res(A.er \/ \E i \in 1..Len(I) : \E j \in 1..Len(p[2]) : IsErr(Ev(p[2][j][1], I[i])), SortRows(I, p[2], nf), "keys", p[2]) EXCEPT !.un = un]
           [] p[1] = "topn" ->
                LET ks == [i \in 1..Len(p[2]) |-> <<p[2][i], 1>>]
                    S == [Res(A.er, SortRows(I, ks, nf), "keys", ks) EXCEPT !.un = un]
                IN [S EXCEPT !.hi = Mn(Len(I), p[3])]
           [] p[1] = "limit" -> [A EXCEPT !.hi = Mn(A.hi, A.lo + p[2])]
           [] p[1] = "offset" -> [A EXCEPT !.lo = Mn(A.hi, A.lo + p[2])]
           [] p[1] = "distinct" -> [Res(A.er, DistinctRows(I), "bag", <<>>) EXCEPT !.un = un]
           [] p[1] = "agg" ->
                LET G(r) == [i \in 1..Len(p[2]) |-> Ev(p[2][i], r)]
                    gs == DistinctRows([i \in 1..Len(I) |-> G(I[i])])
                    Row(g) == g \o [a \in 1..Len(p[3]) |-> Agg(p[3][a][1], p[3][a][2], SelectSeq(I, LAMBDA r : SameRow(G(r), g)))]
                    rs == IF p[2] = <<>> THEN <<Row(<<>>)>> ELSE [i \in 1..Len(gs) |-> Row(gs[i])]
                IN [Res(A.er \/ \E i \in 1..Len(rs) : \E j \in 1..Len(rs[i]) : IsErr(rs[i][j]), rs, "bag", <<>>) EXCEPT !.un = un]
           [] p[1] = "topg" ->
                LET G(r) == [i \in 1..Len(p[3]) |-> Ev(p[3][i], r)]
                    gs == DistinctRows([i \in 1..Len(I) |-> G(I[i])])
                    ks == [i \in 1..Len(p[2]) |-> <<p[2][i], 1>>]
                    Of(g) == SortRows(SelectSeq(I, LAMBDA r : SameRow(G(r), g)), ks, nf)
                    Take(g) == SubSeq(Of(g), 1, Mn(p[4], Len(Of(g))))
                IN [Res(A.er, FlattenSeq([i \in 1..Len(gs) |-> Take(gs[i])]), "bag", <<>>)
                     EXCEPT !.un = un \/ \E i \in 1..Len(gs) : ~Total(Of(gs[i]), ks, nf) /\ p[4] < Len(Of(gs[i]))]

(* is `got` a result the plan may return? *)
Matches(A, got, nf) ==
  \/ A.un
  \/ /\ Len(got) = A.hi - A.lo
     /\ CASE A.o = "exact" -> \A i \in 1..Len(got) : SameRow(A.rows[A.lo + i], got[i])
          [] Full(A) /\ A.o = "bag" -> BagEq(A.rows, got)
          [] OTHER -> /\ IF Full(A) THEN BagEq(A.rows, got) ELSE PartOf(got, A.rows)
                      /\ A.o = "keys" => \A i \in 1..Len(got) : RowCmp(A.k, nf, got[i], A.rows[A.lo + i]) = 0

NullOrders == BOOLEAN \X BOOLEAN
(* does the plan contain an operator that may stop before it has seen every row? *)
RECURSIVE Lazy(_)
Lazy(p) == CASE p[1] \in {"scan", "iscan", "values"} -> FALSE
             [] p[1] = "join" -> Lazy(p[5]) \/ Lazy(p[6])
             [] OTHER -> p[1] = "limit" \/ Lazy(p[Len(p)])
(* res = <<1, rows>> for a result and <<0, <<>>>> for a reported error *)
ResultOk(p, db, res) ==
  \E nf \in NullOrders :
    LET A == Rows(p, db, nf) IN
    IF res[1] = 0 THEN A.er ELSE (A.er => Lazy(p)) /\ Matches(A, res[2], nf)
=============================================================================
