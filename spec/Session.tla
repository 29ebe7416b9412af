------------------------------ MODULE Session ------------------------------
(* Client sessions (property S01).  A table maps keys to values (0: no row); *)
(* client c writes only its own keys, c*10+1 .. c*10+9, so that no statement *)
(* waits for or loses to another client's.                                   *)
(*   db       the committed table                                            *)
(*   cl[c]    on: connected; tx: in an explicit transaction; iso: the         *)
(*            session's isolation level; snap: the committed table at BEGIN;  *)
(*            w: the transaction's writes (-1: none); dead: an error has      *)
(*            aborted the transaction, which now only waits to be ended       *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Clients, Keys
Own(c) == {k \in Keys : k \div 10 = c}
NoW == [k \in Keys |-> -1]
Empty == [k \in Keys |-> 0]
Over(t, w) == [k \in Keys |-> IF w[k] = -1 THEN t[k] ELSE w[k]]
Off == [on |-> FALSE, tx |-> FALSE, iso |-> "RC", snap |-> Empty, w |-> NoW, dead |-> FALSE]
SInit == [db |-> Empty, cl |-> [c \in Clients |-> Off]]
(* what client c sees *)
View(s, c) ==
  LET x == s.cl[c]
      base == IF x.tx /\ x.iso \in {"RR", "SE", "SN"} THEN x.snap ELSE s.db
      dirty == [k \in Keys |-> IF x.iso = "RU" /\ (k \div 10) \in Clients /\ s.cl[k \div 10].tx /\ s.cl[k \div 10].w[k] # -1
                               THEN s.cl[k \div 10].w[k] ELSE base[k]]
  IN  Over(dirty, x.w)
RECURSIVE RowsFrom(_, _, _)
RowsFrom(t, K, lo) == LET R == {k \in K : k >= lo /\ t[k] # 0}
                      IN  IF R = {} THEN <<>>
                          ELSE LET k == CHOOSE y \in R : \A z \in R : y <= z IN <<<<k, t[k]>>>> \o RowsFrom(t, K, k + 1)
Res(ok, rows) == [ok |-> ok, rows |-> rows]
Did(s) == {[s |-> s, r |-> Res(1, <<>>)]}
Refused(s) == {[s |-> s, r |-> Res(0, <<>>)]}
Put(s, c, x) == [s EXCEPT !.cl[c] = x]
End(s, c) == Put(s, c, [s.cl[c] EXCEPT !.tx = FALSE, !.w = NoW, !.dead = FALSE, !.snap = Empty])
(* a statement that fails changes nothing; inside a transaction it may also abort the transaction *)
Fail(s, c) == Refused(s) \cup (IF s.cl[c].tx THEN Refused(Put(s, c, [s.cl[c] EXCEPT !.w = NoW, !.dead = TRUE])) ELSE {})
(* a statement that writes u (-1: not) takes effect at once, or at COMMIT *)
Write(s, c, u) == IF s.cl[c].tx THEN Put(s, c, [s.cl[c] EXCEPT !.w = Over(@, u)]) ELSE [s EXCEPT !.db = Over(@, u)]
One(k, v) == [NoW EXCEPT ![k] = v]
SOutcomes(s, e) ==
  LET c == e.c
      x == s.cl[c]
      see == View(s, c)
  IN
  CASE e.op = "open" -> Did(Put(s, c, [Off EXCEPT !.on = TRUE]))
    [] e.op = "close" -> Did(Put(s, c, Off))
    [] ~x.on -> Refused(s)
    [] e.op = "begin" -> IF x.tx THEN Refused(s)
                         ELSE UNION {Did(Put(s, c, [x EXCEPT !.tx = TRUE, !.iso = l, !.snap = s.db])) :
                                     l \in IF e.iso = "" THEN {"RC", x.iso} ELSE {e.iso}}
    [] e.op = "commit" -> IF ~x.tx THEN Refused(s)
                          ELSE IF x.dead THEN Refused(End(s, c))
                          ELSE Did(End([s EXCEPT !.db = Over(@, x.w)], c))
    [] e.op = "rollback" -> IF ~x.tx THEN Refused(s) ELSE Did(End(s, c))
    [] x.dead -> Refused(s)
    [] e.op = "ins" -> IF see[e.k] # 0 THEN Fail(s, c) ELSE Did(Write(s, c, One(e.k, e.v)))
    [] e.op = "ins2" -> IF see[e.k] # 0 \/ see[e.k2] # 0 \/ e.k = e.k2 THEN Fail(s, c)
                        ELSE Did(Write(s, c, [One(e.k, e.v) EXCEPT ![e.k2] = e.v]))
    [] e.op = "upd" -> Did(IF see[e.k] = 0 THEN s ELSE Write(s, c, One(e.k, e.v)))
    [] e.op = "updall" -> Did(Write(s, c, [k \in Keys |-> IF k \in Own(c) /\ see[k] # 0 THEN see[k] + e.v ELSE -1]))
    [] e.op = "del" -> Did(IF see[e.k] = 0 THEN s ELSE Write(s, c, One(e.k, 0)))
    [] e.op = "sel" -> {[s |-> s, r |-> Res(1, RowsFrom(see, Keys, 0))]}
    [] e.op = "selk" -> {[s |-> s, r |-> Res(1, RowsFrom(see, {e.k}, 0))]}
    [] e.op = "bad" -> Fail(s, c)
=============================================================================
