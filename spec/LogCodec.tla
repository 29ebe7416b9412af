------------------------------ MODULE LogCodec ------------------------------
(* Log records as bytes (property R03).  recs is what was written: fields,     *)
(* offset and length of each record, and whether its bytes are still those      *)
(* written.                                                                    *)
(* A scan returns the complete records before the damage, and stops there.     *)
EXTENDS Integers, Sequences
COne(s, r) == {[s |-> s, r |-> r]}
CInit == [recs |-> <<>>, cut |-> FALSE]
(* what decoding shows of a record: the fields its kind has *)
Shown(f) == CASE f[1] \in 1..4 -> <<f[1], f[2], f[3], f[4], f[5], f[6], f[7], f[8], -9, -9, 1>>
              [] f[1] = 5 -> <<f[1], f[2], f[3], f[4], f[5], f[6], f[7], f[8], f[9], f[10], 1>>
              [] f[1] = 9 -> <<f[1], f[2], f[3], f[4], f[5], -9, -9, -9, f[9] % 7, -9, 1>>
              [] OTHER -> <<f[1], f[2], f[3], f[4], -9, -9, -9, -9, -9, -9, 0>>
End(s) == IF s.recs = <<>> THEN 0 ELSE s.recs[Len(s.recs)].off + s.recs[Len(s.recs)].len
Good(s, j) == s.recs[j].ok
RECURSIVE From(_, _)
From(s, j) == IF j > Len(s.recs) \/ ~Good(s, j) THEN <<>> ELSE <<Shown(s.recs[j].f)>> \o From(s, j + 1)
(* where a scan from record j ends *)
Stop(s, j) == LET n == Len(From(s, j)) IN IF n = 0 THEN (IF j > Len(s.recs) THEN End(s) ELSE s.recs[j].off) ELSE s.recs[j + n - 1].off + s.recs[j + n - 1].len
COutcomes(s, e) ==
  CASE e.op = "put" -> IF e.r[1] = End(s) /\ e.r[2] > 0 /\ ~s.cut
                       THEN COne([s EXCEPT !.recs = Append(@, [f |-> e.f, off |-> e.r[1], len |-> e.r[2], ok |-> TRUE])], e.r)
                       ELSE {}
    [] e.op = "scan" -> \* zero padding after the last record may be skipped, nothing else
         LET j == IF "at" \in DOMAIN e THEN e.at ELSE 1
         IN  IF e.r[2] >= Stop(s, j) THEN COne(s, <<From(s, j), e.r[2]>>) ELSE {}
    [] e.op = "read" -> COne(s, IF Good(s, e.at) THEN Shown(s.recs[e.at].f) ELSE <<>>)
    [] e.op = "decode" -> COne(s, IF e.flip = 0 /\ e.cut >= s.recs[e.at].len THEN Shown(s.recs[e.at].f) ELSE <<>>)
    [] e.op = "junk" -> COne(s, FALSE)
    [] e.op = "damage" -> COne([s EXCEPT !.recs = [j \in DOMAIN @ |-> [@[j] EXCEPT !.ok = e.r[j]]], !.cut = TRUE], e.r)
CInv(s) == \A j \in DOMAIN s.recs : j > 1 => s.recs[j].off = s.recs[j - 1].off + s.recs[j - 1].len
=============================================================================
