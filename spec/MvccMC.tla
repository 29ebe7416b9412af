------------------------------- MODULE MvccMC -------------------------------
(* How versions are kept: the newest version of a row sits in the table, the  *)
(* older ones in the undo logs of the transactions that replaced them, chained *)
(* by links; commit stamps the rows one after the other while nobody can begin,*)
(* abort restores them one after the other, garbage collection drops links,    *)
(* and finished transactions (with their logs) are pruned.  Checked against    *)
(* the version lists of Mvcc.tla (hist), for every reader and every level.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NT, NR, MaxW, GcKeepsRunning, StampUnderLock
Txns == 1..NT
Rows == 1..NR
Max == 1000
Gone == -1
None == [t |-> 0, i |-> 0]
Empty == [by |-> 0, c |-> 0, val |-> Gone, idx |-> 0]
VARIABLES top, logs, link, st, rts, cts, reg, map, nxt, stamping, rolling, ws, nw, hist
vars == <<top, logs, link, st, rts, cts, reg, map, nxt, stamping, rolling, ws, nw, hist>>

Watermark == IF reg = {} THEN nxt ELSE CHOOSE x \in {rts[t] : t \in reg} : \A y \in reg : x <= rts[y]
Init == /\ top = [k \in Rows |-> IF k = 1 THEN [by |-> 0, c |-> 1, val |-> 0, idx |-> 0] ELSE Empty]
        /\ hist = [k \in Rows |-> IF k = 1 THEN <<[by |-> 0, c |-> 1, val |-> 0]>> ELSE <<>>]
        /\ logs = [t \in Txns |-> <<>>] /\ link = [k \in Rows |-> None]
        /\ st = [t \in Txns |-> "NEW"] /\ rts = [t \in Txns |-> 0] /\ cts = [t \in Txns |-> 0]
        /\ reg = {} /\ map = {} /\ nxt = 2 /\ stamping = [t |-> 0, left |-> {}]
        /\ rolling = [t \in Txns |-> {}] /\ ws = [t \in Txns |-> {}] /\ nw = [t \in Txns |-> 0]

Free == ~StampUnderLock \/ stamping.t = 0                \* the running-transactions lock is free
Begin(t) == /\ st[t] = "NEW" /\ Free /\ (t > 1 => st[t - 1] # "NEW")
            /\ st' = [st EXCEPT ![t] = "RUN"] /\ rts' = [rts EXCEPT ![t] = nxt] /\ nxt' = nxt + 1
            /\ reg' = reg \cup {t} /\ map' = map \cup {t}
            /\ UNCHANGED <<top, logs, link, cts, stamping, rolling, ws, nw, hist>>
Insert(t, k) == /\ st[t] = "RUN" /\ hist[k] = <<>> /\ top[k] = Empty /\ nw[t] < MaxW
                /\ top' = [top EXCEPT ![k] = [by |-> t, c |-> 0, val |-> t, idx |-> 0]]
                /\ hist' = [hist EXCEPT ![k] = <<[by |-> t, c |-> 0, val |-> t]>>]
                /\ ws' = [ws EXCEPT ![t] = @ \cup {k}] /\ nw' = [nw EXCEPT ![t] = @ + 1]
                /\ UNCHANGED <<logs, link, st, rts, cts, reg, map, nxt, stamping, rolling>>
\* update (v >= 0) or delete (v = Gone); one step: the row's version latch is held throughout
Write(t, k, v) ==
  /\ st[t] = "RUN" /\ nw[t] < MaxW /\ top[k] # Empty /\ top[k].val # Gone
  /\ top[k].c # 0 \/ top[k].by = t
  /\ logs' = [logs EXCEPT ![t] = Append(@, [ts |-> top[k].c, val |-> top[k].val, pt |-> top[k].by, pi |-> top[k].idx])]
  /\ link' = [link EXCEPT ![k] = [t |-> t, i |-> Len(logs[t]) + 1]]
  /\ top' = [top EXCEPT ![k] = [by |-> t, c |-> 0, val |-> v, idx |-> Len(logs[t]) + 1]]
  /\ hist' = [hist EXCEPT ![k] = <<[by |-> t, c |-> 0, val |-> v]>> \o (IF Head(hist[k]).c = 0 THEN Tail(hist[k]) ELSE hist[k])]
  /\ ws' = [ws EXCEPT ![t] = @ \cup {k}] /\ nw' = [nw EXCEPT ![t] = @ + 1]
  /\ UNCHANGED <<st, rts, cts, reg, map, nxt, stamping, rolling>>
Pruned(rg, m, s, n) == LET w == IF rg = {} THEN n ELSE CHOOSE x \in {rts[t] : t \in rg} : \A y \in rg : x <= rts[y]
                       IN {t \in m : (s[t] = "RUN") \/ (s[t] = "COM" /\ cts[t] >= w) \/ (s[t] = "ABT" /\ rts[t] >= w)}
Publish(t) == /\ st[t] = "RUN" /\ stamping.t = 0
              /\ st' = [st EXCEPT ![t] = "COM"] /\ cts' = [cts EXCEPT ![t] = nxt] /\ nxt' = nxt + 1
              /\ reg' = reg \ {t} /\ stamping' = [t |-> t, left |-> ws[t]]
              /\ UNCHANGED <<top, logs, link, rts, map, rolling, ws, nw, hist>>
StampRow(k) == LET t == stamping.t IN
              /\ t # 0 /\ k \in stamping.left
              /\ stamping' = [stamping EXCEPT !.left = @ \ {k}]
              /\ top' = IF top[k].by = t /\ top[k].c = 0 THEN [top EXCEPT ![k].c = cts[t]] ELSE top
              /\ hist' = IF hist[k] # <<>> /\ Head(hist[k]).by = t /\ Head(hist[k]).c = 0 THEN [hist EXCEPT ![k][1].c = cts[t]] ELSE hist
              /\ UNCHANGED <<logs, link, st, rts, cts, reg, map, nxt, rolling, ws, nw>>
Stamped == /\ stamping.t # 0 /\ stamping.left = {} /\ stamping' = [t |-> 0, left |-> {}]
           /\ UNCHANGED <<top, logs, link, st, rts, cts, reg, map, nxt, rolling, ws, nw, hist>>
Prune == /\ Free /\ map' = Pruned(reg, map, st, nxt) /\ map' # map
         /\ UNCHANGED <<top, logs, link, st, rts, cts, reg, nxt, stamping, rolling, ws, nw, hist>>
Claim(t) == /\ st[t] = "RUN" /\ Free
            /\ st' = [st EXCEPT ![t] = "ABT"] /\ rolling' = [rolling EXCEPT ![t] = ws[t]]
            /\ UNCHANGED <<top, logs, link, rts, cts, reg, map, nxt, stamping, ws, nw, hist>>
RECURSIVE Back(_, _)
Back(t, i) == LET l == logs[t][i] IN IF l.ts = 0 /\ l.pt = t THEN (IF l.pi = 0 THEN None ELSE Back(t, l.pi)) ELSE [t |-> t, i |-> i]
RollRow(t, k) ==
  /\ st[t] = "ABT" /\ k \in rolling[t]
  /\ rolling' = [rolling EXCEPT ![t] = @ \ {k}]
  /\ LET b == IF top[k].idx = 0 THEN None ELSE Back(t, top[k].idx)
     IN  IF b = None THEN /\ top' = [top EXCEPT ![k] = [by |-> t, c |-> 0, val |-> Gone, idx |-> 0]]
                          /\ link' = [link EXCEPT ![k] = None]
         ELSE LET l == logs[t][b.i] IN
              /\ top' = [top EXCEPT ![k] = [by |-> l.pt, c |-> l.ts, val |-> l.val, idx |-> l.pi]]
              /\ link' = [link EXCEPT ![k] = IF l.pi = 0 THEN None ELSE [t |-> l.pt, i |-> l.pi]]
  /\ hist' = [hist EXCEPT ![k] = Tail(@)]
  /\ UNCHANGED <<logs, st, rts, cts, reg, map, nxt, stamping, ws, nw>>
Rolled(t) == /\ st[t] = "ABT" /\ rolling[t] = {} /\ t \in reg /\ Free /\ reg' = reg \ {t} /\ map' = map \cup {t}
             /\ UNCHANGED <<top, logs, link, st, rts, cts, nxt, stamping, rolling, ws, nw, hist>>
Droppable(x) == \/ x = None \/ x.t \notin map
                \/ (st[x.t] = "COM" /\ cts[x.t] <= Watermark)
                \/ (~GcKeepsRunning /\ rts[x.t] <= Watermark)
Gc == /\ Free /\ link' = [k \in Rows |-> IF Droppable(link[k]) THEN None ELSE link[k]] /\ link' # link
      /\ UNCHANGED <<top, logs, st, rts, cts, reg, map, nxt, stamping, rolling, ws, nw, hist>>
Next == \/ \E t \in Txns : Begin(t) \/ Publish(t) \/ Claim(t) \/ Rolled(t) \/ \E k \in Rows : Insert(t, k) \/ Write(t, k, t + 10 * nw[t]) \/ Write(t, k, Gone) \/ RollRow(t, k)
        \/ \E k \in Rows : StampRow(k)
        \/ Stamped \/ Prune \/ Gc
Spec == Init /\ [][Next]_vars

(* ---- what a reader finds, and what it must find ---- *)
RECURSIVE Walk(_, _, _, _)
Walk(v, nextlink, t, ts) ==
  IF v.by = t \/ (v.c # 0 /\ v.c <= ts) THEN v.val
  ELSE IF nextlink = None \/ nextlink.t \notin map THEN Gone
  ELSE LET l == logs[nextlink.t][nextlink.i]
       IN  Walk([by |-> l.pt, c |-> l.ts, val |-> l.val], IF l.pi = 0 THEN None ELSE [t |-> l.pt, i |-> l.pi], t, ts)
Found(t, k, ts) == IF top[k] = Empty THEN Gone ELSE Walk([by |-> top[k].by, c |-> top[k].c, val |-> top[k].val], link[k], t, ts)
RECURSIVE Right(_, _, _)
Right(v, t, ts) == IF v = <<>> THEN Gone ELSE IF Head(v).by = t \/ (Head(v).c # 0 /\ Head(v).c <= ts) THEN Head(v).val ELSE Right(Tail(v), t, ts)
ReadsRight == \A t \in Txns : st[t] = "RUN" => \A k \in Rows :
                /\ Found(t, k, rts[t]) = Right(hist[k], t, rts[t])      \* snapshot levels
                /\ Found(t, k, Max) = Right(hist[k], t, Max)            \* READ COMMITTED
LatestRight == \A k \in Rows : top[k].val = IF hist[k] = <<>> THEN Gone ELSE Head(hist[k]).val
\* a snapshot never changes under its reader, except by its own writes
Stable == [][\A t \in Txns, k \in Rows : st[t] = "RUN" /\ st'[t] = "RUN" /\ nw'[t] = nw[t] =>
               Found(t, k, rts[t])' = Found(t, k, rts[t])]_vars
\* somebody who begins now sees the same finished transactions in all rows
WholeCommits == Free => \A k \in Rows : top[k].c = 0 /\ top[k].val # Gone => st[top[k].by] # "COM"
WmMonotone == [][reg # {} => Watermark' >= Watermark]_vars
=============================================================================
