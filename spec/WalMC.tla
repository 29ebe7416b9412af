------------------------------- MODULE WalMC -------------------------------
(* The log manager's design against the log its clients may rely on: appends  *)
(* number a record and queue it (holding the lock until a commit is durable), *)
(* the flusher takes a batch up to a commit, writes it record by record and   *)
(* syncs; a write or a sync may fail, which stops the flusher for good; the   *)
(* process may be shut down or die with any part of what was not synced.      *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxRec, MaxRestart, Faults, Resume
W == INSTANCE Wal
VARIABLES abs, next, queue, batch, file, synced, pers, commit, stop, closed, restarts
vars == <<abs, next, queue, batch, file, synced, pers, commit, stop, closed, restarts>>
Init == /\ abs = W!WInit /\ next = 0 /\ queue = <<>> /\ batch = [rs |-> <<>>, n |-> 0, on |-> FALSE]
        /\ file = <<>> /\ synced = 0 /\ pers = -1 /\ commit = 0 /\ stop = FALSE /\ closed = FALSE /\ restarts = 0
(* the specification takes one of its steps *)
Does(e) == abs' \in {o.s : o \in W!WOutcomes(abs, e)}
Id == next + 1 + 100 * restarts
Append1(kind) ==
  /\ commit = 0 /\ next < MaxRec
  /\ IF closed
     THEN Does([op |-> "append", kind |-> kind, id |-> Id, r |-> -1]) /\ UNCHANGED <<queue, commit>>
     ELSE /\ queue' = Append(queue, <<Id, next, kind>>)
          /\ IF kind = "c" THEN commit' = Id /\ UNCHANGED abs
             ELSE Does([op |-> "append", kind |-> kind, id |-> Id, r |-> next]) /\ UNCHANGED commit
  /\ next' = next + 1
  /\ UNCHANGED <<batch, file, synced, pers, stop, closed, restarts>>
CommitDone == /\ commit # 0
              /\ \/ pers # -1 /\ pers >= next - 1 /\ Does([op |-> "append", kind |-> "c", id |-> commit, r |-> next - 1])
                 \/ (pers = -1 \/ pers < next - 1) /\ stop /\ Does([op |-> "append", kind |-> "c", id |-> commit, r |-> -1])
              /\ commit' = 0
              /\ UNCHANGED <<next, queue, batch, file, synced, pers, stop, closed, restarts>>
FirstCommit == {j \in DOMAIN queue : queue[j][3] = "c"}
Take1 == /\ ~closed /\ ~batch.on /\ queue # <<>> /\ ~stop
         /\ \E n \in 1..Len(queue) :
              /\ \A j \in FirstCommit : n <= j
              /\ batch' = [rs |-> SubSeq(queue, 1, n), n |-> 0, on |-> TRUE] /\ queue' = SubSeq(queue, n + 1, Len(queue))
         /\ UNCHANGED <<abs, next, file, synced, pers, commit, stop, closed, restarts>>
WriteOne == /\ batch.on /\ batch.n < Len(batch.rs)
            /\ file' = Append(file, <<batch.rs[batch.n + 1][1], batch.rs[batch.n + 1][2]>>)
            /\ batch' = [batch EXCEPT !.n = @ + 1]
            /\ UNCHANGED <<abs, next, queue, synced, pers, commit, stop, closed, restarts>>
Sync == /\ batch.on /\ batch.n = Len(batch.rs)
        /\ synced' = Len(file) /\ pers' = batch.rs[Len(batch.rs)][2] /\ batch' = [rs |-> <<>>, n |-> 0, on |-> FALSE]
        /\ UNCHANGED <<abs, next, queue, file, commit, stop, closed, restarts>>
Fail == /\ Faults /\ batch.on /\ abs.bad
        /\ stop' = TRUE /\ batch' = [rs |-> <<>>, n |-> 0, on |-> FALSE]
        /\ UNCHANGED <<abs, next, queue, file, synced, pers, commit, closed, restarts>>
Close == /\ stop /\ ~closed /\ ~batch.on /\ closed' = TRUE
         /\ UNCHANGED <<abs, next, queue, batch, file, synced, pers, commit, stop, restarts>>
Break == Faults /\ ~abs.bad /\ Does([op |-> "fault"]) /\ UNCHANGED <<next, queue, batch, file, synced, pers, commit, stop, closed, restarts>>
(* shutting down writes what is queued, unless the device failed before *)
Shutdown == /\ commit = 0 /\ ~batch.on /\ ~closed /\ ~stop
            /\ LET all == [j \in DOMAIN queue |-> <<queue[j][1], queue[j][2]>>]
               IN  /\ file' = file \o all /\ synced' = Len(file')
                   /\ pers' = IF queue = <<>> THEN pers ELSE queue[Len(queue)][2]
            /\ queue' = <<>> /\ stop' = TRUE /\ closed' = TRUE
            /\ Does([op |-> "shutdown"])
            /\ UNCHANGED <<next, batch, commit, restarts>>
Restart == /\ commit = 0 /\ restarts < MaxRestart
           /\ \E n \in synced..Len(file) :
                /\ file' = SubSeq(file, 1, n) /\ synced' = n
                /\ next' = IF n = 0 THEN 0 ELSE IF Resume THEN file[n][2] + 1 ELSE 0
                /\ pers' = IF n = 0 THEN -1 ELSE file[n][2]
                /\ Does([op |-> "crash"]) /\ abs'.log = SubSeq(file, 1, n)
           /\ queue' = <<>> /\ batch' = [rs |-> <<>>, n |-> 0, on |-> FALSE] /\ stop' = FALSE /\ closed' = FALSE
           /\ restarts' = restarts + 1 /\ UNCHANGED commit
Next == \/ Append1("c") \/ Append1("u") \/ CommitDone \/ Take1 \/ WriteOne \/ Sync \/ Fail \/ Close \/ Break \/ Shutdown \/ Restart
Spec == Init /\ [][Next]_vars
(* what the specification allows to be seen of the durable part, the file and the reported position; the record of a commit still in *)
(* progress may be in the file already *)
Pend(a) == IF commit = 0 THEN {a} ELSE {a} \cup {o.s : o \in W!WOutcomes(a, [op |-> "append", kind |-> "c", id |-> commit, r |-> next - 1])}
              \cup {[a EXCEPT !.log = Append(@, <<commit, next - 1>>), !.top = next - 1]}
Seen == \E a \in Pend(abs) : W!Shows(a, SubSeq(file, 1, synced)) \/ (a # abs /\ W!Shows([a EXCEPT !.dur = abs.dur], SubSeq(file, 1, synced)))
SeenFile == \E a \in Pend(abs) : W!Shows(a, file) \/ W!Shows([a EXCEPT !.dur = abs.dur], file)
PersOk == \E a \in Pend(abs) : pers >= W!Known(abs) /\ pers <= a.top
PersHolds == pers # -1 => synced > 0 /\ file[synced][2] >= pers
(* no step of the implementation is without a counterpart: an append that finished is a step of the specification *)
Sane == W!WInv(abs)
(* the specification does not block the implementation *)
Follows == /\ commit # 0 /\ (pers >= next - 1 \/ stop) => ENABLED CommitDone
           /\ commit = 0 /\ next < MaxRec => ENABLED Append1("u")
           /\ commit = 0 /\ ~batch.on /\ ~closed /\ ~stop => ENABLED Shutdown
           /\ commit = 0 /\ restarts < MaxRestart => \A n \in synced..Len(file) : \E o \in W!WOutcomes(abs, [op |-> "crash"]) : o.s.log = SubSeq(file, 1, n)
=============================================================================
