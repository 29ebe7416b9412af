-------------------------------- MODULE Wal --------------------------------
(* The write-ahead log for its clients (property R01): the sequence of records *)
(* in the order their sequence numbers were given, of which a prefix of at     *)
(* least dur records is durable.  An entry is <<id, lsn>>.                     *)
(* ack: how far the log has been reported durable; run: the flusher runs; bad: the device may fail; after a failure or an      *)
(* orderly shutdown appends are refused (-1).  part: in a process that saw a   *)
(* failure, a refused record may still have reached the device.                *)
EXTENDS Integers, Sequences, FiniteSets
WOne(s, r) == {[s |-> s, r |-> r]}
WInit == [log |-> <<>>, dur |-> 0, ack |-> 0, run |-> TRUE, bad |-> FALSE, top |-> -1, part |-> <<>>]
Upto(s, p) == Cardinality({j \in DOMAIN s.log : s.log[j][2] <= p})
WMax(a, b) == IF a > b THEN a ELSE b
IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Known(s) == IF s.ack = 0 THEN -1 ELSE s.log[s.ack][2]

(* A refused commit record (one at most: appends wait for it) may have reached the device, after the records appended before it. *)
Part(s, id) == IF s.part = <<>> THEN <<id, Len(s.log)>> ELSE s.part
(* r is the sequence number reported, -1 when the append was refused *)
WAppend(s, e, r) ==
  IF r = -1
  THEN IF ~s.run THEN WOne(s, -1)
       ELSE IF s.bad THEN WOne([s EXCEPT !.part = IF e.kind = "c" THEN Part(s, e.id) ELSE @], -1)
       ELSE {}
  ELSE IF s.run /\ r > s.top
       THEN LET l == Append(s.log, <<e.id, r>>)
            IN  WOne([s EXCEPT !.log = l, !.top = r, !.dur = IF e.kind = "c" THEN Len(l) ELSE @, !.ack = IF e.kind = "c" THEN Len(l) ELSE @], r)
       ELSE {}
PartRec(s) == <<s.part[1], IF s.part[2] = 0 THEN 0 ELSE s.log[s.part[2]][2] + 1>>
(* what a look at the device may show: a prefix with everything known durable; then possibly the one record whose commit was refused *)
Shows(s, d) == \/ Len(d) >= s.dur /\ IsPrefix(d, s.log)
               \/ /\ s.part # <<>> /\ Len(d) = s.part[2] + 1 /\ SubSeq(d, 1, s.part[2]) = SubSeq(s.log, 1, s.part[2])
                  /\ d[Len(d)] = PartRec(s)
(* after a restart whatever is found there is the log *)
Found(s) == {SubSeq(s.log, 1, m) : m \in s.dur..Len(s.log)}

WOutcomes(s, e) ==
  CASE e.op = "append" -> WAppend(s, e, e.r)
    [] e.op = "next" -> IF e.r > s.top THEN WOne(s, e.r) ELSE {}
    [] e.op = "persistent" -> \* at least what is known durable, no more than what was appended, and what it claims holds
         IF e.r >= Known(s) /\ e.r <= s.top THEN WOne([s EXCEPT !.dur = WMax(@, Upto(s, e.r)), !.ack = Upto(s, e.r)], e.r) ELSE {}
    [] e.op = "disk" -> IF Shows(s, e.r) THEN WOne([s EXCEPT !.dur = WMax(@, IF IsPrefix(e.r, s.log) THEN Len(e.r) ELSE s.part[2])], e.r) ELSE {}
    [] e.op = "wait" -> WOne(s, 0)
    [] e.op = "fault" -> WOne([s EXCEPT !.bad = TRUE], 0)
    [] e.op = "shutdown" -> WOne([s EXCEPT !.run = FALSE, !.dur = IF s.bad THEN @ ELSE Len(s.log), !.ack = IF s.bad THEN @ ELSE Len(s.log)], 0)
    [] e.op \in {"crash", "restart"} ->
         {[s |-> [s EXCEPT !.log = l, !.dur = Len(l), !.ack = 0, !.run = TRUE, !.bad = FALSE, !.part = <<>>,
                           !.top = IF l = <<>> THEN -1 ELSE l[Len(l)][2]], r |-> TRUE]
          : l \in Found(s) \cup (IF s.part = <<>> THEN {} ELSE {Append(SubSeq(s.log, 1, s.part[2]), PartRec(s))})}
WInv(s) == /\ s.ack <= s.dur /\ s.dur <= Len(s.log)
           /\ \A j, k \in DOMAIN s.log : j < k => s.log[j][2] < s.log[k][2]
=============================================================================
