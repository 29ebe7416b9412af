----------------------------- MODULE DurableMC -----------------------------
(* The way of rows to the disk. A table is a chain of pages of two rows each; *)
(* a page is read and changed in the pool, leaves it for the disk manager's   *)
(* buffer when evicted or flushed, the buffer is drained into the file, the   *)
(* file is synced - all at any moment. A commit flushes the pages it wrote    *)
(* and the links not yet durable, drains and syncs. A crash may leave of any  *)
(* page what was last synced or what is in the file. Whatever a commit has    *)
(* acknowledged is there then, and a scan from the first page reaches it.     *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS NP, NT, MaxW, Pool, Skip     \* Skip: a step that commits leave out, to see that it is needed
VARIABLES mem, in, buf, file, disk,    \* a page: [row, next] or none; in: resident pages
          last, own, com, st, wr,      \* last page; uncommitted writer and committed value of a row; transactions
          todo, links, taken,          \* pages a commit has still to flush; volatile links; those a commit takes care of
          ver, ack, nw                 \* all values a row had; how many of them a later one acknowledged has replaced
vars == <<mem, in, buf, file, disk, last, own, com, st, wr, todo, links, taken, ver, ack, nw>>
P == 1..NP
T == 1..NT
Row == P \X {1, 2}
None == [row |-> <<-1, -1>>, next |-> 0]
Empty == [row |-> <<0, 0>>, next |-> 0]
Now(p) == IF p \in in THEN mem[p] ELSE IF buf[p] # None THEN buf[p] ELSE file[p]

Init == /\ mem = [p \in P |-> IF p = 1 THEN Empty ELSE None] /\ in = {1}
        /\ buf = [p \in P |-> None] /\ file = buf /\ disk = buf
        /\ last = 1 /\ own = [r \in Row |-> 0] /\ com = own /\ st = [t \in T |-> "run"] /\ wr = [t \in T |-> {}]
        /\ todo = wr /\ links = {} /\ taken = wr
        /\ ver = [r \in Row |-> <<>>] /\ ack = [r \in Row |-> 0] /\ nw = [t \in T |-> 0]

(* ---- pages move ---- *)
Load(p) == /\ p \notin in /\ p <= last /\ Cardinality(in) < Pool
           /\ mem' = [mem EXCEPT ![p] = Now(p)] /\ in' = in \cup {p}
           /\ UNCHANGED <<buf, file, disk, last, own, com, st, wr, todo, links, taken, ver, ack, nw>>
Evict(p) == /\ p \in in /\ in' = in \ {p} /\ buf' = [buf EXCEPT ![p] = mem[p]] /\ mem' = [mem EXCEPT ![p] = None]
            /\ UNCHANGED <<file, disk, last, own, com, st, wr, todo, links, taken, ver, ack, nw>>
Drain(p) == /\ buf[p] # None /\ file' = [file EXCEPT ![p] = buf[p]] /\ buf' = [buf EXCEPT ![p] = None]
            /\ UNCHANGED <<mem, in, disk, last, own, com, st, wr, todo, links, taken, ver, ack, nw>>
Sync == /\ disk # file /\ disk' = file
        /\ UNCHANGED <<mem, in, buf, file, last, own, com, st, wr, todo, links, taken, ver, ack, nw>>

(* ---- transactions write ---- *)
Write(t, r, p, m) ==        \* m: the pages with the row's page made ready
  /\ mem' = [m EXCEPT ![p].row[r[2]] = t]
  /\ own' = [own EXCEPT ![r] = t] /\ wr' = [wr EXCEPT ![t] = @ \cup {r}] /\ nw' = [nw EXCEPT ![t] = @ + 1]
  /\ ver' = [ver EXCEPT ![r] = Append(@, t)]
May(t) == st[t] = "run" /\ nw[t] < MaxW
Free(p) == {i \in {1, 2} : mem[p].row[i] = 0}
Insert(t) ==
  /\ May(t) /\ last \in in
  /\ IF Free(last) # {}
     THEN LET i == CHOOSE i \in Free(last) : \A j \in Free(last) : i <= j IN
          Write(t, <<last, i>>, last, mem) /\ UNCHANGED <<last, in, links>>
     ELSE /\ last < NP /\ Cardinality(in) < Pool
          /\ Write(t, <<last + 1, 1>>, last + 1, [mem EXCEPT ![last].next = 1, ![last + 1] = Empty])
          /\ last' = last + 1 /\ in' = in \cup {last + 1} /\ links' = links \cup {last}
  /\ UNCHANGED <<buf, file, disk, com, st, todo, taken, ack>>
Update(t, r) ==
  /\ May(t) /\ r[1] \in in /\ mem[r[1]].row[r[2]] > 0 /\ own[r] \in {0, t} /\ (own[r] = 0 => com[r] > 0)
  /\ Write(t, r, r[1], mem)
  /\ UNCHANGED <<in, buf, file, disk, last, com, st, todo, links, taken, ack>>
\* a rolled back insertion leaves a dead row, value NT + 1
Undo(t, r) ==
  /\ st[t] \in {"run", "undo"} /\ r \in wr[t] /\ r[1] \in in
  /\ LET v == IF com[r] = 0 THEN NT + 1 ELSE com[r] IN
     mem' = [mem EXCEPT ![r[1]].row[r[2]] = v] /\ ver' = [ver EXCEPT ![r] = Append(@, v)]
  /\ own' = [own EXCEPT ![r] = 0] /\ wr' = [wr EXCEPT ![t] = @ \ {r}]
  /\ st' = [st EXCEPT ![t] = IF wr[t] = {r} THEN "aborted" ELSE "undo"]
  /\ UNCHANGED <<in, buf, file, disk, last, com, todo, links, taken, ack, nw>>

(* ---- and commit ---- *)
Commit(t) ==
  /\ st[t] = "run" /\ wr[t] # {}
  /\ com' = [r \in Row |-> IF r \in wr[t] THEN t ELSE com[r]] /\ own' = [r \in Row |-> IF r \in wr[t] THEN 0 ELSE own[r]]
  /\ taken' = [taken EXCEPT ![t] = IF Skip = "links" THEN {} ELSE links]
  /\ todo' = [todo EXCEPT ![t] = IF Skip = "pages" THEN {} ELSE {r[1] : r \in wr[t]} \cup UNION {{p, p + 1} : p \in taken'[t]}]
  /\ st' = [st EXCEPT ![t] = "flush"]
  /\ UNCHANGED <<mem, in, buf, file, disk, last, wr, links, ver, ack, nw>>
Flush(t, p) ==
  /\ st[t] = "flush" /\ p \in todo[t] /\ p \in in
  /\ buf' = [buf EXCEPT ![p] = mem[p]] /\ todo' = [todo EXCEPT ![t] = @ \ {p}]
  /\ UNCHANGED <<mem, in, file, disk, last, own, com, st, wr, links, taken, ver, ack, nw>>
DrainAll(t) ==
  /\ st[t] = "flush" /\ todo[t] = {} /\ st' = [st EXCEPT ![t] = "drained"]
  /\ IF Skip = "drain" THEN UNCHANGED <<file, buf>>
     ELSE file' = [p \in P |-> IF buf[p] # None THEN buf[p] ELSE file[p]] /\ buf' = [p \in P |-> None]
  /\ UNCHANGED <<mem, in, disk, last, own, com, wr, todo, links, taken, ver, ack, nw>>
\* the values of a row by t are those t wrote and those that rollbacks of others restored: all are what t committed
Acked(r, t) == LET S == {i \in DOMAIN ver[r] : ver[r][i] = t} IN CHOOSE i \in S : \A j \in S : i <= j
Done(t) ==
  /\ st[t] = "drained" /\ st' = [st EXCEPT ![t] = "done"]
  /\ disk' = (IF Skip = "sync" THEN disk ELSE file)
  /\ links' = links \ taken[t] /\ taken' = [taken EXCEPT ![t] = {}]
  /\ ack' = [r \in Row |-> IF r \in wr[t] /\ Acked(r, t) > ack[r] THEN Acked(r, t) ELSE ack[r]]
  /\ wr' = [wr EXCEPT ![t] = {}]
  /\ UNCHANGED <<mem, in, buf, file, last, own, com, todo, ver, nw>>
Next == \/ \E p \in P : Load(p) \/ Evict(p) \/ Drain(p)
        \/ Sync
        \/ \E t \in T : Insert(t) \/ Commit(t) \/ DrainAll(t) \/ Done(t) \/ (\E p \in P : Flush(t, p)) \/ (\E r \in Row : Update(t, r) \/ Undo(t, r))
Spec == Init /\ [][Next]_vars

(* ---- a crash now ---- *)
Left(p) == {disk[p], file[p]}
Later(r) == {ver[r][i] : i \in {i \in DOMAIN ver[r] : i >= ack[r]}}
Survives == \A r \in Row : ack[r] > 0 => /\ \A x \in Left(r[1]) : x # None /\ x.row[r[2]] \in Later(r)
                                         /\ \A p \in 1..(r[1] - 1) : \A x \in Left(p) : x # None /\ x.next = 1
\* and without a crash nothing is lost either
Kept == \A r \in Row : (own[r] # 0 => Now(r[1]).row[r[2]] = own[r]) /\ (own[r] = 0 /\ com[r] # 0 => Now(r[1]).row[r[2]] = com[r])
        /\ (own[r] # 0 => st[own[r]] \in {"run", "undo"})
=============================================================================
