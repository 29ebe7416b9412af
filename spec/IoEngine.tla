------------------------------ MODULE IoEngine ------------------------------
(* The disk I/O engine: a priority queue of operations, workers that take     *)
(* the best one and run it against the database file and the log file, and a  *)
(* tracker that decides the fate of every operation exactly once.             *)
EXTENDS Integers, Sequences, FiniteSets
------------------------------------------------------------------------------
(* --- the queue: higher priority first, earlier submission first within one - *)
BestAt(q) == CHOOSE k \in DOMAIN q : \A j \in DOMAIN q :
                \/ q[j].pr < q[k].pr
                \/ q[j].pr = q[k].pr /\ (q[k].t < q[j].t \/ (q[k].t = q[j].t /\ k <= j))
Without(q, k) == SubSeq(q, 1, k - 1) \o SubSeq(q, k + 1, Len(q))
RECURSIVE Order(_)
Order(q) == IF q = <<>> THEN <<>> ELSE LET k == BestAt(q) IN <<q[k]>> \o Order(Without(q, k))
Ids(q) == [k \in DOMAIN q |-> q[k].id]

QInit == [q |-> <<>>, t |-> 0]
QO(st, r) == [s |-> st, r |-> r]
(* An insertion is stamped with its submission time and then pushed.           *)
QHidden(s, e) == IF e.op = "enq" /\ "t" \notin DOMAIN e
                 THEN {[s |-> [s EXCEPT !.t = @ + 1], e |-> [op |-> "enq", id |-> e.id, pr |-> e.pr, r |-> e.r, t |-> s.t]]}
                 ELSE {}
QPush(s, e) == QO([s EXCEPT !.q = Append(@, [id |-> e.id, pr |-> e.pr, t |-> e.t])], 0)
QOutcomes(s, e) ==
  CASE e.op = "enq" -> IF "t" \in DOMAIN e THEN {QPush(s, e)} ELSE {}
    [] e.op = "deq" -> IF s.q = <<>> THEN {QO(s, -1)}
                       ELSE {QO([s EXCEPT !.q = Without(@, BestAt(@))], s.q[BestAt(s.q)].id)}
    [] e.op = "size" -> {QO(s, Len(s.q))}
    [] e.op = "empty" -> {QO(s, IF s.q = <<>> THEN 1 ELSE 0)}
    [] e.op = "peek" -> {QO(s, IF s.q = <<>> THEN -1 ELSE s.q[BestAt(s.q)].pr)}
    [] e.op = "drain" -> {QO([s EXCEPT !.q = <<>>], Ids(Order(s.q)))}
    [] e.op = "clear" -> {QO([s EXCEPT !.q = <<>>], Len(s.q))}
------------------------------------------------------------------------------
(* --- running one operation -------------------------------------------------- *)
(* db: versions of pages 0..; log: bytes; f: failures planned per file         *)
FilesInit == [db |-> <<>>, log |-> <<>>, fdb |-> 0, flog |-> 0, sdb |-> 0, slog |-> 0]
OkR(v) == <<0, v>>
ErrR == <<1, <<>>>>
XO(f, r) == [f |-> f, r |-> r]
Max2(a, b) == IF a > b THEN a ELSE b
PutAt(sq, off, d) == [k \in 1..Max2(Len(sq), off + Len(d)) |->
                        IF k > off /\ k <= off + Len(d) THEN d[k - off] ELSE IF k <= Len(sq) THEN sq[k] ELSE 0]
Fail(f, w) == IF f[w] > 0 THEN {[f EXCEPT ![w] = @ - 1]} ELSE {}
Exec(f, c) ==
  CASE c.a = "rp" -> IF c.p \in 0..(Len(f.db) - 1) THEN XO(f, OkR(<<f.db[c.p + 1]>>)) ELSE XO(f, ErrR)
    [] c.a = "wp" -> IF c.p < 0 \/ c.v < 0 THEN XO(f, ErrR)
                     ELSE IF f.fdb > 0 THEN XO([f EXCEPT !.fdb = @ - 1], ErrR)
                     ELSE XO([f EXCEPT !.db = PutAt(@, c.p, <<c.v>>)], OkR(<<>>))
    [] c.a = "al" -> IF c.d # <<>> /\ f.flog > 0 THEN XO([f EXCEPT !.flog = @ - 1], ErrR)
                     ELSE XO([f EXCEPT !.log = @ \o c.d], OkR(<<Len(f.log)>>))
    [] c.a = "wl" -> IF c.d = <<>> THEN XO(f, OkR(<<>>))
                     ELSE IF f.flog > 0 THEN XO([f EXCEPT !.flog = @ - 1], ErrR)
                     ELSE XO([f EXCEPT !.log = PutAt(@, c.p, c.d)], OkR(<<>>))
    [] c.a = "rl" -> IF c.v = 0 THEN XO(f, OkR(<<>>))
                     ELSE IF c.p + c.v <= Len(f.log) THEN XO(f, OkR(SubSeq(f.log, c.p + 1, c.p + c.v)))
                     ELSE XO(f, ErrR)
    [] c.a = "sy" -> IF f.sdb > 0 THEN XO([f EXCEPT !.sdb = @ - 1], ErrR) ELSE XO(f, OkR(<<>>))
    [] c.a = "sl" -> IF f.slog > 0 THEN XO([f EXCEPT !.slog = @ - 1], ErrR) ELSE XO(f, OkR(<<>>))
------------------------------------------------------------------------------
(* --- one client planning batches for one worker ------------------------------ *)
(* op[k]: the k-th submission: the command, whether it is pending, its result  *)
EInit == [f |-> FilesInit, q |-> <<>>, op |-> <<>>]
EO(s, r) == [s |-> s, r |-> r]
PendingOps(s) == {k \in DOMAIN s.op : s.op[k].st = "p"}
(* run the first n of the operations l (best first); result: what completed    *)
RECURSIVE RunN(_, _, _)
RunN(s, l, n) ==
  IF n = 0 THEN [s |-> s, done |-> <<>>]
  ELSE LET k == Head(l).id
           rest == Tail(l)
       IN IF s.op[k].st # "p" THEN RunN(s, rest, n - 1)
          ELSE LET x == Exec(s.f, s.op[k].c)
                   s1 == [s EXCEPT !.f = x.f, !.op[k].st = "d", !.op[k].r = x.r]
                   y == RunN(s1, rest, n - 1)
               IN [s |-> y.s, done |-> <<<<k, x.r[1], IF s.op[k].c.a \in {"rp", "rl", "al"} THEN x.r[2] ELSE <<>>>>>> \o y.done]
Ran(s, n) == LET l == Order(s.q)
                 y == RunN(s, l, n)
             IN EO([y.s EXCEPT !.q = SubSeq(l, n + 1, Len(l))], y.done)
CancelThem(s, K) == [s EXCEPT !.op = [k \in DOMAIN @ |-> IF k \in K THEN [@[k] EXCEPT !.st = "c", !.r = ErrR] ELSE @[k]]]
EOutcomes(s, e) ==
  CASE e.op = "submit" ->
         {EO([s EXCEPT !.op = Append(@, [c |-> e.c, st |-> "p", r |-> <<9, <<>>>>]),
                       !.q = Append(@, [id |-> Len(s.op) + 1, pr |-> e.pr, t |-> Len(s.op)])], 0)}
    [] e.op = "run" -> {x \in {Ran(s, n) : n \in 0..Len(s.q)} : PendingOps(x.s) = {}}   \* cancelled entries may stay behind
    [] e.op = "halt" -> {Ran(s, n) : n \in 0..Len(s.q)}
    [] e.op \in {"cancelall", "clear"} ->
         {EO([CancelThem(s, PendingOps(s)) EXCEPT !.q = <<>>], Cardinality(PendingOps(s)))}
    [] e.op = "cancel" ->
         IF e.k \in PendingOps(s) THEN {EO(CancelThem(s, {e.k}), 1)} ELSE {EO(s, 0)}
    [] e.op = "qsize" -> {EO(s, Len(s.q))}
    [] e.op = "pending" -> {EO(s, Cardinality(PendingOps(s)))}
    [] e.op = "get" -> {EO(s, IF e.k \in DOMAIN s.op THEN s.op[e.k].r ELSE <<9, <<>>>>)}
    [] e.op = "fault" -> {EO([s EXCEPT !.f[e.w] = e.n], 0)}
    [] e.op = "direct" -> LET x == Exec(s.f, e.c) IN {EO([s EXCEPT !.f = x.f], x.r)}
    [] e.op = "truncate" -> {EO([s EXCEPT !.f.log = IF Len(@) > e.n THEN SubSeq(@, 1, e.n) ELSE @], 0)}
    [] e.op = "dbsize" -> {EO(s, Len(s.f.db))}
------------------------------------------------------------------------------
(* --- many clients, many workers ---------------------------------------------- *)
(* cx: some client is cancelling everything; n: operations cancelled by it;    *)
(* g: operations reported cancelled that may still take effect                *)
CInit == [f |-> FilesInit, cx |-> FALSE, n |-> 0, g |-> {}]
Changes(c) == c.a \in {"wp", "al", "wl"}
COutcomes(s, e) ==
  CASE e.op = "do" ->
         LET x == Exec(s.f, e.m)
         IN {EO([s EXCEPT !.f = x.f], x.r)}
            \cup (IF ~s.cx THEN {}
                  ELSE {EO([s EXCEPT !.n = @ + 1], ErrR)}
                       \cup (IF Changes(e.m) THEN {EO([s EXCEPT !.n = @ + 1, !.g = @ \cup {e.m}], ErrR)} ELSE {}))
    [] e.op = "cxbegin" -> {EO([s EXCEPT !.cx = TRUE, !.n = 0], 0)}
    [] e.op = "cxend" -> {EO([s EXCEPT !.cx = FALSE], s.n)}
    [] e.op = "cx" -> {EO(s, 0)}
    [] e.op = "pending" -> {EO(s, 0)}
CHidden(s, e) == {[s |-> [s EXCEPT !.f = Exec(@, c).f, !.g = @ \ {c}], e |-> e] : c \in s.g}
------------------------------------------------------------------------------
(* --- the tracker -------------------------------------------------------------- *)
(* A result is <<0, v>> success, <<1, v>> failure, <<2, v>> cancelled,         *)
(* <<3, 0>> timed out, <<4, 0>> unknown operation, <<5, 0>> the wait timed out, *)
(* <<9, 0>> not yet.                                                          *)
TkInit == [op |-> <<>>, w |-> <<>>, ev |-> <<>>, x |-> 0]
NotYet == <<9, 0>>
IsPending(s, k) == k \in DOMAIN s.op /\ s.op[k].r = NotYet
Expired(s) == {k \in DOMAIN s.op : IsPending(s, k) /\ s.op[k].to = 1}
(* Several operations may be decided by one command, in any order.             *)
Perms(S) == {f \in [1..Cardinality(S) -> S] : \A a, b \in 1..Cardinality(S) : a # b => f[a] # f[b]}
DecideAll(s, K, r) == {[s EXCEPT !.op = [k \in DOMAIN @ |-> IF k \in K THEN [@[k] EXCEPT !.r = r] ELSE @[k]],
                                 !.ev = @ \o [a \in DOMAIN f |-> <<f[a], r[1], r[2]>>]] : f \in Perms(K)}
WaitResult(s, w) ==
  IF \E k \in w.ks : k \notin 1..w.known THEN <<<<0, 4, 0>>>>
  ELSE IF \A k \in w.ks : ~IsPending(s, k) THEN LET SortedKs == CHOOSE f \in Perms(w.ks) : \A a, b \in DOMAIN f : a < b => f[a] < f[b]
                                               IN [a \in DOMAIN SortedKs |-> <<SortedKs[a], s.op[SortedKs[a]].r[1], s.op[SortedKs[a]].r[2]>>]
  ELSE IF w.late THEN <<<<0, 5, 0>>>>
  ELSE <<>>
Settle(s) == [s EXCEPT !.w = [h \in DOMAIN @ |-> IF @[h].r = <<>> THEN [s.w[h] EXCEPT !.r = WaitResult(s, s.w[h])] ELSE @[h]]]
(* time passes: waits with a short limit give up                                *)
Elapse(s) == Settle([s EXCEPT !.w = [h \in DOMAIN @ |-> IF @[h].short = 1 THEN [@[h] EXCEPT !.late = TRUE] ELSE @[h]]])
TkO(S, r) == {[s |-> Settle(st), r |-> r] : st \in S}
TkOutcomes(s, e) ==
  CASE e.op = "start" -> TkO({[s EXCEPT !.op = Append(@, [r |-> NotYet, to |-> e.to])]}, 1)
    [] e.op \in {"complete", "fail", "cancel"} ->
         IF IsPending(s, e.k)
         THEN TkO(DecideAll(s, {e.k}, <<CASE e.op = "complete" -> 0 [] e.op = "fail" -> 1 [] e.op = "cancel" -> 2, e.v>>), 0)
         ELSE TkO({s}, 1)
    [] e.op = "status" -> TkO({s}, IF e.k \notin DOMAIN s.op THEN 9
                                   ELSE IF s.op[e.k].r[1] \in {0, 1, 3} THEN 1 ELSE 0)
    [] e.op = "ispending" -> TkO({s}, IF IsPending(s, e.k) THEN 1 ELSE 0)
    [] e.op = "recv" -> TkO({s}, IF e.k \notin DOMAIN s.op THEN NotYet
                                 ELSE IF s.op[e.k].r[1] = 2 THEN <<2, 0>> ELSE s.op[e.k].r)
    [] e.op = "cancelall" -> LET K == {k \in DOMAIN s.op : IsPending(s, k)} IN TkO(DecideAll(s, K, <<2, e.v>>), Cardinality(K))
    [] e.op = "timeouts" -> TkO(DecideAll(s, Expired(s), <<3, 0>>), Cardinality(Expired(s)))
    [] e.op = "adv" -> TkO({Elapse(s)}, 0)
    [] e.op = "tick" -> TkO(DecideAll(Elapse(s), Expired(s), <<3, 0>>), 0)
    [] e.op = "wait" -> TkO({[s EXCEPT !.w = Append(@, [ks |-> {e.ks[a] : a \in DOMAIN e.ks}, short |-> e.short, late |-> FALSE,
                                                       known |-> Len(s.op), r |-> <<>>])]}, 0)
    [] e.op = "poll" -> TkO({s}, IF e.h \in DOMAIN s.w THEN s.w[e.h].r ELSE <<>>)
    [] e.op = "events" -> TkO({[s EXCEPT !.ev = <<>>]}, s.ev)
    [] e.op = "burst" -> TkO({[s EXCEPT !.x = @ + e.n]}, 0)
    [] e.op = "stats" -> TkO({s}, <<Cardinality({k \in DOMAIN s.op : IsPending(s, k)}),
                                    s.x + Cardinality({k \in DOMAIN s.op : s.op[k].r[1] \in {0, 1, 3}}),
                                    Cardinality({k \in DOMAIN s.op : s.op[k].r[1] = 2}),
                                    Cardinality(Expired(s))>>)
(* Concurrent clients of the tracker: a wait returns only once there is a      *)
(* result, and with that result; cancelling or timing out "all" decides one    *)
(* operation at a time of those pending at some moment.                        *)
(* The tracker's own sweep may time out an expired operation at any moment.    *)
Sweep(s, e) == UNION {{[s |-> st, e |-> e] : st \in DecideAll(s, {k}, <<3, 0>>)} : k \in Expired(s)}
TcHidden(s, e) == Sweep(s, e) \cup
  IF e.op \notin {"cancelall", "timeouts"} THEN {}
  ELSE IF "K" \notin DOMAIN e
       THEN {[s |-> s, e |-> [op |-> e.op, r |-> e.r, v |-> IF e.op = "cancelall" THEN e.v ELSE 0, n |-> 0,
                              K |-> IF e.op = "timeouts" THEN Expired(s) ELSE {k \in DOMAIN s.op : IsPending(s, k)}]]}
  ELSE LET r == IF e.op = "timeouts" THEN <<3, 0>> ELSE <<2, e.v>>
       IN UNION {IF IsPending(s, k) THEN {[s |-> st, e |-> [e EXCEPT !.K = @ \ {k}, !.n = @ + 1]] : st \in DecideAll(s, {k}, r)}
                 ELSE {[s |-> s, e |-> [e EXCEPT !.K = @ \ {k}]]} : k \in e.K}
TcOutcomes(s, e) ==
  CASE e.op \in {"cancelall", "timeouts"} -> IF "K" \in DOMAIN e /\ e.K = {} THEN {[s |-> s, r |-> e.n]} ELSE {}
    [] e.op = "await" -> IF IsPending(s, e.k) THEN {} ELSE {[s |-> s, r |-> IF e.k \in DOMAIN s.op THEN s.op[e.k].r ELSE <<4, 0>>]}
    [] OTHER -> TkOutcomes(s, e)
=============================================================================
