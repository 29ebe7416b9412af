----------------------------- MODULE HeapPageMC -----------------------------
(* Design of a slotted page with write-back: slots hold (offset, size, metadata length, value); metadata grows from the  *)
(* front, tuples from the back.  Every slot reserves the longest metadata, a slot never shrinks, growing a row lays all  *)
(* slots out afresh, and the page image is rebuilt on every change, so eviction and reload change nothing.  Checked:     *)
(* slots never overlap each other or the metadata, rolling back to any value a row ever had always has room, and what    *)
(* the page (and its image on disk) answers is the abstract map of Heap.tla.                                             *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt
CONSTANTS PS,            \* page size
          MaxMeta,       \* longest metadata
          Sizes,         \* value sizes
          MaxRows
VARIABLES mem,           \* <<>> or a sequence of slots [off, size, ml, v]
          loaded,        \* is the page in memory
          disk,          \* its image
          abs, caps      \* the abstract rows, and the largest size each ever had
vars == <<mem, loaded, disk, abs, caps>>
Init == mem = <<>> /\ loaded = TRUE /\ disk = <<>> /\ abs = <<>> /\ caps = <<>>
Low(m) == FoldSeq(LAMBDA x, acc : IF x.off < acc THEN x.off ELSE acc, PS, m)
Sum(m) == FoldSeq(LAMBDA x, acc : x.size + acc, 0, m)
Ins(v, ml) == /\ loaded /\ Len(mem) < MaxRows
              /\ Low(mem) - v >= (Len(mem) + 1) * MaxMeta
              /\ mem' = Append(mem, [off |-> Low(mem) - v, size |-> v, ml |-> ml, v |-> v])
              /\ abs' = Append(abs, v) /\ caps' = Append(caps, v)
              /\ UNCHANGED <<loaded, disk>>
Relaid(m, k, v, ml) ==
  LET sz(i) == IF i = k THEN v ELSE m[i].size
      off(i) == PS - FoldSeq(LAMBDA x, acc : x + acc, 0, [j \in 1..i |-> sz(j)])
  IN  [i \in DOMAIN m |-> [off |-> off(i), size |-> sz(i), ml |-> IF i = k THEN ml ELSE m[i].ml, v |-> IF i = k THEN v ELSE m[i].v]]
Fits(m, k, v) == v <= m[k].size \/ Sum(m) - m[k].size + v + Len(m) * MaxMeta <= PS
Upd(k, v, ml) == /\ loaded /\ k \in DOMAIN mem /\ Fits(mem, k, v)
                 /\ mem' = IF v <= mem[k].size THEN [mem EXCEPT ![k].v = v, ![k].ml = ml] ELSE Relaid(mem, k, v, ml)
                 /\ abs' = [abs EXCEPT ![k] = v]
                 /\ caps' = [caps EXCEPT ![k] = IF v > @ THEN v ELSE @]
                 /\ UNCHANGED <<loaded, disk>>
Evict == loaded /\ loaded' = FALSE /\ disk' = mem /\ mem' = <<>> /\ UNCHANGED <<abs, caps>>
Load == ~loaded /\ loaded' = TRUE /\ mem' = disk /\ UNCHANGED <<disk, abs, caps>>
Next == \/ \E v \in Sizes, ml \in 1..MaxMeta : Ins(v, ml) \/ \E k \in 1..MaxRows : Upd(k, v, ml)
        \/ Evict \/ Load
Spec == Init /\ [][Next]_vars
Img == IF loaded THEN mem ELSE disk
Meta(m) == FoldSeq(LAMBDA x, acc : x.ml + acc, 0, m)
NoOverlap == /\ \A i, j \in DOMAIN Img : i < j => Img[i].off + Img[i].size <= Img[j].off \/ Img[j].off + Img[j].size <= Img[i].off
             /\ \A i \in DOMAIN Img : Img[i].off >= Meta(Img) /\ Img[i].off + Img[i].size <= PS /\ Img[i].v <= Img[i].size
Refines == Len(Img) = Len(abs) /\ \A i \in DOMAIN abs : Img[i].v = abs[i]
RollbackFits == \A i \in DOMAIN Img : \A v \in Sizes : v <= caps[i] => Fits(Img, i, v)
PInv == NoOverlap /\ Refines /\ RollbackFits
=============================================================================
