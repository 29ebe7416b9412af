-------------------------------- MODULE LruK --------------------------------
(* The LRU-K replacement policy of the buffer pool (property B02).           *)
EXTENDS Integers, Sequences, FiniteSets

(* state: k, the access history of every known frame (at most the last k     *)
(* times), the set of evictable frames, a logical clock                      *)
LInit(k) == [k |-> k, hist |-> <<>>, ev |-> {}, clk |-> 1]

Known(s) == DOMAIN s.hist

Last(q, k) == IF Len(q) > k THEN SubSeq(q, Len(q) - k + 1, Len(q)) ELSE q

Upd(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Del(f, x)    == [y \in DOMAIN f \ {x} |-> f[y]]

(* v is a legal victim: frames with fewer than k accesses first, the fewest   *)
(* accesses first among them; ties, and frames with k accesses, by the        *)
(* oldest remembered access (which is the k-th most recent one)               *)
Better(s, a, b) ==   \* a must go before b
    LET na == Len(s.hist[a])  nb == Len(s.hist[b])
    IN  \/ na < s.k /\ nb >= s.k
        \/ na < s.k /\ nb < s.k /\ (na < nb \/ (na = nb /\ s.hist[a][1] < s.hist[b][1]))
        \/ na >= s.k /\ nb >= s.k /\ s.hist[a][1] < s.hist[b][1]

Victims(s) == {v \in s.ev : \A w \in s.ev \ {v} : ~Better(s, w, v)}

B(x) == IF x THEN 1 ELSE 0
One(s, r) == {[s |-> s, r |-> r]}

LOutcomes(s, e) ==
  CASE e.op = "access" ->
         One([s EXCEPT !.hist = Upd(s.hist, e.f, Last(Append(IF e.f \in Known(s) THEN s.hist[e.f] ELSE <<>>, s.clk), s.k)),
                       !.clk = @ + 1], 0)
    [] e.op = "set" ->
         IF e.f \notin Known(s) \/ (e.f \in s.ev) = (e.b = 1)
         THEN One(s, 0)
         ELSE One([s EXCEPT !.ev = IF e.b = 1 THEN @ \cup {e.f} ELSE @ \ {e.f}], 1)
    [] e.op = "evict" ->
         IF s.ev = {} THEN One(s, -1)
         ELSE {[s |-> [s EXCEPT !.ev = @ \ {v}], r |-> v] : v \in Victims(s)}
    [] e.op = "remove" ->   \* only an evictable frame is forgotten
         IF e.f \in s.ev THEN One([s EXCEPT !.ev = @ \ {e.f}, !.hist = Del(@, e.f)], 0)
         ELSE One(s, 0)
    [] e.op = "frames" -> One(s, Cardinality(Known(s)))
    [] e.op = "evictable" -> One(s, Cardinality(s.ev))

LCmds(F) == [op : {"access", "remove"}, f : F] \cup [op : {"set"}, f : F, b : {0, 1}] \cup [op : {"evict"}]

(* properties of the policy itself *)
LType(s) == /\ s.ev \subseteq Known(s)
            /\ \A f \in Known(s) : Len(s.hist[f]) \in 1..s.k
LVictimExists(s) == s.ev # {} => Cardinality(Victims(s)) = 1
LNoStarve(s) == \A v \in Victims(s) : \A w \in s.ev :
                   Len(s.hist[w]) < s.k => Len(s.hist[v]) < s.k
=============================================================================
