----------------------------- MODULE BufferPool -----------------------------
(* The buffer pool (property B01).  Pages 0..next-1 exist; each has its       *)
(* current content val, the content on disk (Absent if none), and a dirty     *)
(* bit.  res is the set of pages in the pool, h maps the handles (page        *)
(* guards) clients hold to pages.  Which unpinned page is evicted is left     *)
(* open: that is property B02.                                               *)
EXTENDS Integers, Sequences, FiniteSets
Absent == -1
BInit(pool, hs) == [pool |-> pool, next |-> 0, pg |-> <<>>, res |-> {}, h |-> [x \in hs |-> [p |-> -1, w |-> FALSE]], fresh |-> FALSE]

RECURSIVE Mask(_)
Mask(S) == IF S = {} THEN 0 ELSE LET p == CHOOSE x \in S : TRUE IN 2^p + Mask(S \ {p})
(* pg is a sequence: page p is pg[p+1] *)
Pg(s, p) == s.pg[p + 1]
Pinned(s) == {s.h[x].p : x \in DOMAIN s.h} \ {-1}
Exists(s, p) == p >= 0 /\ p < s.next
Out(s, v) == [s |-> s, r |-> [v |-> v, m |-> Mask(s.res)]]
Set(s, p, x) == [s EXCEPT !.pg[p + 1] = x]
WriteBack(x) == [x EXCEPT !.disk = x.val, !.dirty = FALSE]

(* the states in which a frame has been made available: evict only if full,  *)
(* never a page somebody holds; a dirty victim is written back first         *)
FramesFor(s) ==
  IF Cardinality(s.res) < s.pool THEN {s}
  ELSE {LET x == Pg(s, v)
            t == IF x.dirty THEN [Set(s, v, WriteBack(x)) EXCEPT !.fresh = FALSE] ELSE s
        IN [t EXCEPT !.res = @ \ {v}] : v \in s.res \ Pinned(s)}

Hold(s, hd, p) == [s EXCEPT !.h[hd] = [p |-> p, w |-> FALSE]]
(* bring page p in; a page never written to disk cannot be brought back, or  *)
(* comes back blank *)
Come(s, p, D(_)) ==  \* D(v) for the successful outcome
  UNION {LET x == Pg(t, p)
             v == IF x.disk = Absent THEN 0 ELSE x.disk
             ok == [Set(t, p, [val |-> v, disk |-> x.disk, dirty |-> FALSE]) EXCEPT !.res = @ \cup {p}]
         IN  {D([s |-> ok, v |-> v, in |-> TRUE])} \cup (IF x.disk = Absent THEN {D([s |-> t, v |-> -1, in |-> FALSE])} ELSE {})
         : t \in FramesFor(s)}
Fetch(s, p, hd) ==   \* the outcomes [s, v, in] of fetching p into handle hd
  IF ~Exists(s, p) THEN {[s |-> s, v |-> -1]}
  ELSE IF p \in s.res THEN {[s |-> Hold(s, hd, p), v |-> Pg(s, p).val]}
  ELSE IF FramesFor(s) = {} THEN {[s |-> s, v |-> -1]}
  ELSE Come(s, p, LAMBDA o : [s |-> IF o.in THEN Hold(o.s, hd, p) ELSE o.s, v |-> o.v])

(* batch: resident pages are pinned first, then the missing ones come in     *)
RECURSIVE HoldAll(_, _, _, _)
HoldAll(s, ps, k, hd) == IF k > Len(ps) THEN s
                         ELSE HoldAll(IF ps[k] \in s.res THEN Hold(s, hd + k - 1, ps[k]) ELSE s, ps, k + 1, hd)
RECURSIVE LoadMissing(_, _, _, _, _)
LoadMissing(s, ps, miss, hd, acc) ==   \* acc: values so far; miss: positions that were missing
  LET k == Len(acc) + 1
  IN  IF k > Len(ps) THEN {[s |-> s, v |-> acc]}
      ELSE IF k \notin miss THEN LoadMissing(s, ps, miss, hd, Append(acc, Pg(s, ps[k]).val))
      ELSE UNION {LoadMissing(o.s, ps, miss, hd, Append(acc, o.v)) : o \in Fetch(s, ps[k], hd + k - 1)}
Batch(s, ps, hd) ==
  LET miss == {k \in DOMAIN ps : ps[k] \notin s.res}
      s1 == HoldAll(s, ps, 1, hd)
  IN  LoadMissing(s1, ps, miss, hd, <<>>)
      \cup (IF \E k \in miss : Pg(s, ps[k]).disk = Absent   \* the read of the whole batch may fail
            THEN {[s |-> s1, v |-> [k \in DOMAIN ps |-> IF k \in miss THEN -1 ELSE Pg(s, ps[k]).val]]} ELSE {})

Blank == [val |-> 0, disk |-> Absent, dirty |-> FALSE]
FlushAll(s, S) == [s EXCEPT !.pg = [k \in DOMAIN @ |-> IF k - 1 \in S THEN WriteBack(@[k]) ELSE @[k]], !.fresh = FALSE]
Need(s) == {p \in s.res : Pg(s, p).dirty /\ Pg(s, p).val # Pg(s, p).disk}
Min(a, b) == IF a < b THEN a ELSE b
OnDisk(x) == IF x.disk = Absent THEN {-1, 0} ELSE {x.disk}

BOutcomes(s, e) ==
  CASE e.op = "new" ->
         IF FramesFor(s) = {} THEN {Out(s, -1)}
         ELSE {Out(Hold([t EXCEPT !.pg = Append(@, Blank), !.next = @ + 1, !.res = @ \cup {t.next}], e.h, t.next), t.next) : t \in FramesFor(s)}
    [] e.op = "fetch" -> {Out(o.s, o.v) : o \in Fetch(s, e.p, e.h)}
    [] e.op = "fetchbad" ->   \* wrong page type: refused, but may have made room
         {Out(s, -1)} \cup (IF Exists(s, e.p) /\ e.p \notin s.res THEN {Out(t, -1) : t \in FramesFor(s)} ELSE {})
    [] e.op = "batch" -> {Out(o.s, o.v) : o \in Batch(s, e.ps, e.h)}
    [] e.op = "write" ->
         LET p == s.h[e.h].p IN
         IF p = -1 THEN {Out(s, -1)}
         ELSE {Out([Set(s, p, [Pg(s, p) EXCEPT !.val = e.v, !.dirty = TRUE]) EXCEPT !.h[e.h].w = TRUE], 0)}
    [] e.op = "wpage" ->
         {Out(IF e.p \in s.res THEN Set(s, e.p, [Pg(s, e.p) EXCEPT !.val = e.v, !.dirty = TRUE]) ELSE s, 0)}
    [] e.op = "read" -> {Out(s, IF s.h[e.h].p = -1 THEN -1 ELSE Pg(s, s.h[e.h].p).val)}
    [] e.op = "drop" ->
         LET x == s.h[e.h] IN
         IF x.p = -1 THEN {Out(s, -1)}
         ELSE LET t == [s EXCEPT !.h[e.h] = [p |-> -1, w |-> FALSE]]
              IN  {Out(IF x.w THEN Set(t, x.p, [Pg(t, x.p) EXCEPT !.dirty = TRUE]) ELSE t, 0)}
    [] e.op = "flush" -> IF e.p \in s.res THEN {Out([Set(s, e.p, WriteBack(Pg(s, e.p))) EXCEPT !.fresh = FALSE], 0)} ELSE {Out(s, -1)}
    [] e.op = "flushall" -> {Out([FlushAll(s, s.res) EXCEPT !.fresh = TRUE], 0)}
    [] e.op = "flushdirty" ->   \* at least the pages that need it (up to n), nothing but resident ones
         {Out(FlushAll(s, S), Cardinality(S)) :
            S \in {T \in SUBSET s.res : Cardinality(T) <= e.n /\ Cardinality(T) >= Min(e.n, Cardinality(Need(s)))
                                        /\ (Cardinality(T) < e.n => Need(s) \subseteq T)}}
    [] e.op = "delete" ->
         IF e.p \notin s.res THEN {Out(s, 2)}
         ELSE IF e.p \in Pinned(s) THEN {Out(s, 1)}
         ELSE {Out([Set(s, e.p, [Pg(s, e.p) EXCEPT !.val = IF @ = Pg(s, e.p).disk THEN @ ELSE Pg(s, e.p).disk, !.dirty = FALSE]) EXCEPT !.res = @ \ {e.p}], 0)}
    [] e.op = "disk" -> IF ~Exists(s, e.p) THEN {Out(s, v) : v \in {-1, 0}} ELSE {Out(s, v) : v \in OnDisk(Pg(s, e.p))}
    [] e.op = "file" ->   \* only a durable flush promises the file's content
         IF s.fresh /\ Exists(s, e.p) THEN {Out(s, v) : v \in OnDisk(Pg(s, e.p))} ELSE {Out(s, e.r.v)}
    [] e.op = "free" -> {Out(s, s.pool - Cardinality(s.res))}

BInv(s) == /\ Cardinality(s.res) <= s.pool                       \* never more pages than frames
           /\ Pinned(s) \subseteq s.res                            \* a held page stays
           /\ \A p \in 0..s.next - 1 :                             \* nothing written is ever lost
                LET x == Pg(s, p) IN
                /\ p \notin s.res => x.val = x.disk \/ (x.disk = Absent /\ x.val \in {0, Absent})
                /\ p \in s.res /\ ~x.dirty => x.val = x.disk \/ (x.disk = Absent /\ x.val = 0)
=============================================================================
