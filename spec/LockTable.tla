----------------------------- MODULE LockTable -----------------------------
(* Multi-granularity lock manager (properties C01, C02).                      *)
(* Resources: tables 1..9; a row r of table t is 10*t + r.  State:            *)
(*   q[res]   the request queue: <<[t, m, g]>> (transaction, mode, granted)   *)
(*   up[res]  the transaction whose lock upgrade is waiting (0: none)         *)
(*   st[t]    transaction state, iso[t] its isolation level                   *)
(* Locks are granted when every other transaction's granted lock is           *)
(* compatible and no other transaction's upgrade is waiting; otherwise the    *)
(* request is queued (and the call returns FALSE), to be granted when the     *)
(* locks in its way are released.                                             *)
EXTENDS Integers, Sequences, FiniteSets
Modes == {"IS", "IX", "S", "SIX", "X"}
Compat(a, b) == CASE a = "IS" -> b # "X"
                  [] a = "IX" -> b \in {"IS", "IX"}
                  [] a = "S" -> b \in {"IS", "S"}
                  [] a = "SIX" -> b = "IS"
                  [] a = "X" -> FALSE
\* a transaction holding the modes H needs nothing more for mode m
Covers(H, m) == CASE m = "IS" -> H # {}
                  [] m = "IX" -> H \cap {"IX", "SIX", "X"} # {}
                  [] m = "S" -> H \cap {"S", "SIX", "X"} # {}
                  [] m = "SIX" -> "SIX" \in H \/ "X" \in H \/ {"S", "IX"} \subseteq H
                  [] m = "X" -> "X" \in H
Held(q, t) == {q[j].m : j \in {x \in DOMAIN q : q[x].t = t /\ q[x].g}}
Waits(q, t) == {q[j].m : j \in {x \in DOMAIN q : q[x].t = t /\ ~q[x].g}}
Blockers(q, up, t, m) == {q[j].t : j \in {x \in DOMAIN q : q[x].g /\ q[x].t # t /\ ~Compat(q[x].m, m)}}
                         \cup (IF up # 0 /\ up # t THEN {up} ELSE {})
Settle(q, up) == IF up # 0 /\ Waits(q, up) = {} THEN 0 ELSE up
DropCovered(q, t) == SelectSeq(q, LAMBDA e : e.t # t \/ e.g \/ ~Covers(Held(q, t), e.m))
Request(q, up, t, m) ==           \* <<queue, upgrader, granted?>>
  IF Covers(Held(q, t), m) THEN <<q, up, TRUE>>
  ELSE IF Blockers(q, up, t, m) = {}
       THEN LET q1 == DropCovered(Append(q, [t |-> t, m |-> m, g |-> TRUE]), t) IN <<q1, Settle(q1, up), TRUE>>
       ELSE LET q1 == IF m \in Waits(q, t) THEN q ELSE Append(q, [t |-> t, m |-> m, g |-> FALSE])
            IN  <<q1, IF up = 0 /\ Held(q, t) # {} THEN t ELSE up, FALSE>>
Grantable(q, up) == {j \in DOMAIN q : ~q[j].g /\ Blockers(q, up, q[j].t, q[j].m) = {}}
RECURSIVE Wake(_, _)
Wake(q, up0) ==                   \* grant what can be granted, oldest request first
  LET up == Settle(q, up0)
      G == Grantable(q, up)
  IN  IF G = {} THEN <<q, up>>
      ELSE LET j == CHOOSE j \in G : \A k \in G : j <= k
               q1 == DropCovered([q EXCEPT ![j].g = TRUE], q[j].t)
           IN  Wake(q1, up)
Release(q, up, t) == Wake(SelectSeq(q, LAMBDA e : ~(e.t = t /\ e.g)), up)       \* give back t's granted locks
Purge(q, up, t) == Wake(SelectSeq(q, LAMBDA e : e.t # t), IF up = t THEN 0 ELSE up)

(* ---- isolation rules ---- *)
Valid(iso, st, m) ==              \* "" if a request is admitted, the reason otherwise
  CASE st \in {"ABORTED", "TAINTED"} -> "TransactionAborted"
    [] st = "COMMITTED" -> "TransactionCommitted"
    [] iso = "RU" /\ m \in {"S", "IS", "SIX"} -> "LockSharedOnReadUncommitted"
    [] iso = "RU" /\ st = "SHRINKING" -> "LockOnShrinking"
    [] iso = "RC" /\ st = "SHRINKING" /\ m \notin {"S", "IS"} -> "LockOnShrinking"
    [] iso = "RR" /\ st = "SHRINKING" -> "LockOnShrinking"
    [] OTHER -> ""
AfterLock(iso, st, m) == IF iso = "SNAP" /\ m \in {"S", "X"} THEN "SHRINKING" ELSE st
AfterUnlock(iso, st, m) == IF m = "X" \/ (m = "S" /\ iso \in {"RR", "SER", "SNAP"}) THEN "SHRINKING" ELSE st

LInit(isos, nt, nr) ==
  LET res == (1..nt) \cup {10 * t + r : t \in 1..nt, r \in 1..nr}
  IN  [q |-> [x \in res |-> <<>>], up |-> [x \in res |-> 0], iso |-> isos, st |-> [t \in DOMAIN isos |-> "RUNNING"], nt |-> nt]
Tables(s) == 1..s.nt
Rows(s, tb) == {x \in DOMAIN s.q : x \div 10 = tb}
(* ---- waits-for ---- *)
Edges(s) == UNION {UNION {{<<s.q[x][j].t, b>> : b \in Blockers(s.q[x], s.up[x], s.q[x][j].t, s.q[x][j].m)} :
                          j \in {k \in DOMAIN s.q[x] : ~s.q[x][k].g}} : x \in DOMAIN s.q}
RECURSIVE Reach(_, _)
Reach(E, X) == LET Y == X \cup {e[2] : e \in {f \in E : f[1] \in X}} IN IF Y = X THEN X ELSE Reach(E, Y)
\* v is the youngest transaction of some cycle
VictimIn(E, v) == LET F == {e \in E : e[1] <= v /\ e[2] <= v} IN v \in Reach(F, {e[2] : e \in {f \in F : f[1] = v}})
Victims(s) == {v \in DOMAIN s.st : VictimIn(Edges(s), v)}

(* ---- what can be seen from outside ---- *)
Mask(H) == (IF H # {} THEN 1 ELSE 0) + (IF H \cap {"IX", "SIX", "X"} # {} THEN 2 ELSE 0)
           + (IF H \cap {"S", "SIX", "X"} # {} THEN 4 ELSE 0) + (IF "X" \in H THEN 8 ELSE 0)
View(s) == [tb \in Tables(s) |-> [t \in DOMAIN s.st |-> Mask(Held(s.q[tb], t))]]
Set(s, x, qu) == [s EXCEPT !.q[x] = qu[1], !.up[x] = qu[2]]
Fail(s, t, why) == {[s |-> [s EXCEPT !.st[t] = "ABORTED"], c |-> why]}
Ask(s, e, x) ==                   \* the request passed validation
  LET r == Request(s.q[x], s.up[x], e.t, e.m)
      s1 == [Set(s, x, r) EXCEPT !.st[e.t] = AfterLock(s.iso[e.t], @, e.m)]
  IN  {[s |-> s1, c |-> IF r[3] THEN "yes" ELSE "wait"]}
      \cup (IF ~r[3] /\ e.t \in Victims(s1) THEN {[s |-> [s1 EXCEPT !.st[e.t] = "ABORTED"], c |-> "wait"]} ELSE {})
TableModesFor(m) == IF m = "X" THEN {"X", "IX", "SIX"} ELSE {"S", "IS", "SIX"}
RECURSIVE PurgeAll(_, _, _)
PurgeAll(s, t, X) == IF X = {} THEN s
                     ELSE LET x == CHOOSE y \in X : TRUE IN PurgeAll(Set(s, x, Purge(s.q[x], s.up[x], t)), t, X \ {x})
Act(s, e) ==
  CASE e.op = "lockT" ->
         LET v == Valid(s.iso[e.t], s.st[e.t], e.m) IN IF v # "" THEN {[s |-> s, c |-> v]} ELSE Ask(s, e, e.tb)
    [] e.op = "lockR" ->
         LET v == Valid(s.iso[e.t], s.st[e.t], e.m)
             s1 == [s EXCEPT !.st[e.t] = AfterLock(s.iso[e.t], @, e.m)]
         IN  IF v # "" THEN {[s |-> s, c |-> v]}
             ELSE IF e.m \notin {"S", "X"} THEN Fail(s1, e.t, "IntentionLockOnRow")
             ELSE IF Held(s.q[e.tb], e.t) \cap TableModesFor(e.m) = {} THEN Fail(s1, e.t, "TableLockNotPresent")
             ELSE Ask(s, e, e.row)
    [] e.op = "unlockT" ->
         IF Held(s.q[e.tb], e.t) = {} THEN Fail(s, e.t, "NoLockHeld")
         ELSE IF \E x \in Rows(s, e.tb) : Held(s.q[x], e.t) # {} THEN Fail(s, e.t, "TableUnlockedBeforeRows")
         ELSE {[s |-> [Set(s, e.tb, Release(s.q[e.tb], s.up[e.tb], e.t)) EXCEPT !.st[e.t] = AfterUnlock(s.iso[e.t], @, e.m)], c |-> "yes"]}
    [] e.op = "unlockR" ->
         IF Held(s.q[e.row], e.t) = {} THEN Fail(s, e.t, "NoLockHeld")
         ELSE {[s |-> [Set(s, e.row, Release(s.q[e.row], s.up[e.row], e.t)) EXCEPT !.st[e.t] = AfterUnlock(s.iso[e.t], @, e.m)], c |-> "yes"]}
    [] e.op = "force" -> {[s |-> PurgeAll(s, e.t, DOMAIN s.q), c |-> "yes"]}
    [] e.op = "state" -> {[s |-> [s EXCEPT !.st[e.t] = e.to], c |-> "yes"]}
    [] e.op = "all" -> {[s |-> [s EXCEPT !.q = [x \in DOMAIN @ |-> <<>>], !.up = [x \in DOMAIN @ |-> 0]], c |-> "yes"]}
    [] e.op = "dead" -> IF e.t \in Victims(s) THEN {[s |-> [s EXCEPT !.st[e.t] = "ABORTED"], c |-> "victim"]}
                        ELSE {[s |-> s, c |-> "no"]}
LOutcomes(s, e) == {[s |-> o.s, r |-> [c |-> o.c, st |-> o.s.st, v |-> View(o.s)]] : o \in Act(s, e)}

(* ---- the bare lock table (LockStateManager): no isolation rules ---- *)
HasT(s) == [tb \in Tables(s) |-> [t \in DOMAIN s.st |-> IF Held(s.q[tb], t) # {} THEN 1 ELSE 0]]
RECURSIVE RowList(_, _, _)
RowList(s, X, t) == IF X = {} THEN <<>>
                    ELSE LET x == CHOOSE y \in X : \A z \in X : y <= z
                         IN  (IF Held(s.q[x], t) # {} THEN <<x>> ELSE <<>>) \o RowList(s, X \ {x}, t)
HasR(s) == [tb \in Tables(s) |-> [t \in DOMAIN s.st |-> RowList(s, Rows(s, tb), t)]]
Bare(s, e) ==
  CASE e.op \in {"lockT", "lockR"} ->
         LET x == IF e.op = "lockT" THEN e.tb ELSE e.row
             r == Request(s.q[x], s.up[x], e.t, e.m)
         IN  <<Set(s, x, r), IF r[3] THEN "yes" ELSE "wait">>
    [] e.op \in {"unlockT", "unlockR"} ->
         LET x == IF e.op = "unlockT" THEN e.tb ELSE e.row
         IN  IF Held(s.q[x], e.t) = {} THEN <<s, "NoLockHeld">> ELSE <<Set(s, x, Release(s.q[x], s.up[x], e.t)), "yes">>
    [] e.op = "force" -> <<PurgeAll(s, e.t, DOMAIN s.q), "yes">>
BareOutcomes(s, e) == LET o == Bare(s, e) IN {[s |-> o[1], r |-> [c |-> o[2], t |-> HasT(o[1]), w |-> HasR(o[1])]]}

Inv1(s) == \A x \in DOMAIN s.q :
  /\ \A i \in DOMAIN s.q[x], j \in DOMAIN s.q[x] :
        s.q[x][i].g /\ s.q[x][j].g /\ s.q[x][i].t # s.q[x][j].t => Compat(s.q[x][i].m, s.q[x][j].m)
  /\ Grantable(s.q[x], s.up[x]) = {}                      \* nobody waits for nothing
  /\ s.up[x] # 0 => Waits(s.q[x], s.up[x]) # {}
=============================================================================
