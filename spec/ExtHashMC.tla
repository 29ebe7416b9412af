----------------------------- MODULE ExtHashMC -----------------------------
(* The structural design: directory (ExtDir) + bucket contents.  Checks that  *)
(* the structure always represents the abstract map: every key sits in the    *)
(* bucket its hash selects, buckets are within capacity, nothing is lost, and *)
(* an insert is refused exactly when ExtHash says so.                         *)
EXTENDS ExtDir, TLC
CONSTANTS Max, Cap, NK
VARIABLES d, c, m, ref, nb
A == INSTANCE ExtHash
vars == <<d, c, m, ref, nb>>
K == 0..NK - 1
H(k) == k                     \* distinct low bits; colliding classes arise because NK > 2^Max
B(dd, k) == dd.bk[(H(k) % 2^dd.gd) + 1]
Init == d = DirInit(Max) /\ c = (100 :> {}) /\ m = {} /\ ref = "none" /\ nb = 101
Live(dd) == {dd.bk[x] : x \in DOMAIN dd.bk}
RECURSIVE Ins(_, _, _, _)
Ins(dd, cc, k, b) ==          \* <<directory, contents, inserted?, next bucket id>>
  LET bb == B(dd, k) IN
  IF Cardinality(cc[bb]) < Cap THEN <<dd, [cc EXCEPT ![bb] = @ \cup {k}], TRUE, b>>
  ELSE LET x == H(k) % 2^dd.gd IN
       IF dd.ld[x + 1] = Max THEN <<dd, cc, FALSE, b>>
       ELSE LET nd == DSplit(dd, x, b)
                nc == [y \in Live(nd) |-> IF y = bb THEN {j \in cc[bb] : B(nd, j) = bb}
                                          ELSE IF y = b THEN {j \in cc[bb] : B(nd, j) = b} ELSE cc[y]]
            IN  Ins(nd, nc, k, b + 1)
Norm(dd, cc) == \* bucket ids are renamed by the first slot that uses them, to keep the space finite
  LET f(b) == 100 + (CHOOSE x \in DOMAIN dd.bk : dd.bk[x] = b /\ \A y \in DOMAIN dd.bk : dd.bk[y] = b => x <= y) - 1
  IN  <<[dd EXCEPT !.bk = [x \in DOMAIN @ |-> f(@[x])]], [b \in {f(x) : x \in Live(dd)} |-> cc[CHOOSE x \in Live(dd) : f(x) = b]]>>
InsertN(k) == /\ k \notin m
              /\ LET r == Ins(d, c, k, 1000)
                     n == Norm(r[1], r[2])
                     st == [m |-> [j \in K |-> IF j \in m THEN 1 ELSE -1], hs |-> [j \in K |-> H(j)], cap |-> Cap, max |-> Max]
                 IN  /\ d' = n[1] /\ c' = n[2]
                     /\ m' = IF r[3] THEN m \cup {k} ELSE m
                     /\ ref' = IF r[3] = ~A!Refused(st, k, H(k)) THEN "ok" ELSE "bad"
              /\ nb' = nb
Remove(k) == LET b == B(d, k)
                 c1 == [c EXCEPT ![b] = @ \ {k}]
                 d1 == IF k \in c[b] /\ c1[b] = {} THEN DMerge(d, H(k) % 2^d.gd) ELSE d
                 n == Norm(d1, [x \in Live(d1) |-> c1[x]])
             IN  /\ d' = n[1] /\ c' = n[2] /\ m' = m \ {k} /\ ref' = "ok" /\ nb' = nb
Next == \E k \in K : InsertN(k) \/ Remove(k)
Spec == Init /\ [][Next]_vars
MInv == /\ DInv(d) /\ ref # "bad"
        /\ DOMAIN c = Live(d)
        /\ UNION {c[b] : b \in DOMAIN c} = m
        /\ \A b \in DOMAIN c : Cardinality(c[b]) <= Cap /\ \A k \in c[b] : B(d, k) = b
=============================================================================
