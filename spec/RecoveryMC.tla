----------------------------- MODULE RecoveryMC -----------------------------
(* The recovery algorithm against what recovery promises.  Rows live on       *)
(* pages; a page reaches the disk at any time after the log records of the     *)
(* changes on it; the log is lost beyond some point; recovery repeats history  *)
(* (rolling back where the log says a transaction rolled back), undoes the     *)
(* losers and logs that it did.  A crash may come right after recovery, with   *)
(* any of the pages it changed on disk, and with its abort records lost.       *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS T, K, MaxLog, MaxCrash
R == INSTANCE Recovery
VARIABLES abs,    \* the specification's state
          log,    \* the actual log: [op, t, k, old, new, prev, own]
          last,   \* per transaction: index of its last record, 0 if it is not running
          mem, disk, synced, crashes
vars == <<abs, log, last, mem, disk, synced, crashes>>
None == <<>>
Init == /\ abs = R!RInit /\ log = <<>> /\ last = [t \in T |-> 0]
        /\ mem = [k \in K |-> None] /\ disk = [k \in K |-> None]
        /\ synced = 0 /\ crashes = 0
Entry(op, t, k, old, new) == [op |-> op, t |-> t, k |-> k, old |-> old, new |-> new, prev |-> last[t], own |-> FALSE]
Put(op, t, k, old, new) == log' = Append(log, Entry(op, t, k, old, new)) /\ last' = [last EXCEPT ![t] = Len(log) + 1]
Room == Len(log) < MaxLog
RECURSIVE Undo(_, _, _)
Undo(lg, m, j) == IF j = 0 \/ lg[j].op = "B" THEN m
                  ELSE Undo(lg, IF lg[j].op = "W" THEN [m EXCEPT ![lg[j].k] = lg[j].old] ELSE m, lg[j].prev)
Begin(t) == /\ abs.up /\ last[t] = 0 /\ Room /\ Put("B", t, 0, None, None)
            /\ abs' = (CHOOSE o \in R!ROutcomes(abs, [op |-> "begin", t |-> t]) : TRUE).s
            /\ UNCHANGED <<mem, disk, synced, crashes>>
Write(t, k) == /\ abs.up /\ last[t] # 0 /\ Room /\ R!Free(abs, k, t)
               /\ \E v \in {<<Len(log) + 1, 0>>} \cup (IF mem[k] = None THEN {} ELSE {None}) :
                    /\ Put("W", t, k, mem[k], v) /\ mem' = [mem EXCEPT ![k] = v]
                    /\ abs' = R!Add(abs, R!Rec("W", t, k, v))
               /\ UNCHANGED <<disk, synced, crashes>>
Commit(t) == /\ abs.up /\ last[t] # 0 /\ Room
             /\ log' = Append(log, Entry("C", t, 0, None, None)) /\ last' = [last EXCEPT ![t] = 0]
             /\ synced' = Len(log')
             /\ abs' = (CHOOSE o \in R!ROutcomes(abs, [op |-> "commit", t |-> t]) : TRUE).s
             /\ UNCHANGED <<mem, disk, crashes>>
Abort(t) == /\ abs.up /\ last[t] # 0 /\ Room
            /\ mem' = Undo(log, mem, last[t])
            /\ log' = Append(log, Entry("A", t, 0, None, None)) /\ last' = [last EXCEPT ![t] = 0]
            /\ abs' = (CHOOSE o \in R!ROutcomes(abs, [op |-> "abort", t |-> t]) : TRUE).s
            /\ UNCHANGED <<disk, synced, crashes>>
(* the last record of the transactions themselves, as opposed to recovery's *)
Theirs == LET S == {j \in DOMAIN log : ~log[j].own} IN IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
Flush(k) == /\ abs.up /\ disk[k] # mem[k] /\ disk' = [disk EXCEPT ![k] = mem[k]]
            /\ synced' = IF Theirs > synced THEN Theirs ELSE synced
            /\ abs' = [abs EXCEPT !.dur = Len(abs.log)]
            /\ UNCHANGED <<log, last, mem, crashes>>
Count(n) == Cardinality({j \in 1..n : ~log[j].own})
Crash == /\ abs.up /\ crashes < MaxCrash
         /\ \E n \in synced..Len(log) :
              /\ log' = SubSeq(log, 1, n) /\ synced' = n
              /\ abs' = R!Crash(abs, Count(n))
         /\ mem' = disk /\ last' = [t \in T |-> 0] /\ crashes' = crashes + 1
         /\ UNCHANGED disk
(* redo: state of memory and open transactions after replaying the log up to n *)
RECURSIVE Redo(_)
Redo(n) == IF n = 0 THEN [m |-> disk, open |-> [t \in T |-> 0]]
           ELSE LET p == Redo(n - 1)
                    r == log[n]
                IN  CASE r.op = "C" -> [p EXCEPT !.open[r.t] = 0]
                      [] r.op = "A" -> [m |-> Undo(log, p.m, p.open[r.t]), open |-> [p.open EXCEPT ![r.t] = 0]]
                      [] r.op = "W" -> [m |-> [p.m EXCEPT ![r.k] = r.new], open |-> [p.open EXCEPT ![r.t] = n]]
                      [] OTHER -> [p EXCEPT !.open[r.t] = n]
RECURSIVE UndoAll(_, _, _)
UndoAll(m, open, L) == IF L = {} THEN m
                       ELSE LET t == CHOOSE x \in L : TRUE IN UndoAll(Undo(log, m, open[t]), open, L \ {t})
RECURSIVE AbortRecs(_, _)
AbortRecs(open, L) == IF L = {} THEN <<>>
                      ELSE LET t == CHOOSE x \in L : TRUE
                           IN <<[op |-> "A", t |-> t, k |-> 0, old |-> None, new |-> None, prev |-> open[t], own |-> TRUE]>> \o AbortRecs(open, L \ {t})
Recover == /\ ~abs.up
           /\ LET p == Redo(Len(log))
                  losers == {t \in T : p.open[t] # 0}
              IN  /\ mem' = UndoAll(p.m, p.open, losers)
                  /\ log' = log \o AbortRecs(p.open, losers)
           /\ abs' = R!Recovered(abs)
           /\ UNCHANGED <<last, disk, synced, crashes>>
Next == \/ \E t \in T : Begin(t) \/ Commit(t) \/ Abort(t) \/ \E k \in K : Write(t, k)
        \/ \E k \in K : Flush(k)
        \/ Crash \/ Recover
Spec == Init /\ [][Next]_vars
(* every row holds what the specification says, whenever the system is up *)
RowsRight == abs.up => \A k \in K : mem[k] = R!Val(abs, k)
(* recovering again, from whatever is on disk, gives the same rows *)
Again == abs.up /\ (\A t \in T : last[t] = 0) =>
            LET p == Redo(Len(log)) IN \A k \in K : UndoAll(p.m, p.open, {t \in T : p.open[t] # 0})[k] = mem[k]
LogKnown == abs.dur <= Len(abs.log) /\ synced <= Len(log)
=============================================================================
