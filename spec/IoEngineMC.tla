----------------------------- MODULE IoEngineMC -----------------------------
(* The engine as built: clients register an operation with the tracker and    *)
(* push it on the queue; workers pop the best operation, ask the tracker      *)
(* whether it is still pending, run it and report its result; cancellation,   *)
(* time-outs, stopping and restarting the workers happen at any moment; a     *)
(* client may wait for an operation through the tracker's event channel.      *)
(* SubFirst: a waiter subscribes to events before it looks at the status.     *)
EXTENDS IoEngine, TLC
CONSTANTS Ops, Prios, Workers, SubFirst, Stops
VARIABLES q, st, res, runs, wk, stopping, stops, ww, fate
vars == <<q, st, res, runs, wk, stopping, stops, ww, fate>>
Idle == [a |-> "idle", k |-> 0]
Init == /\ q = <<>>
        /\ st = [k \in Ops |-> "new"]
        /\ res = [k \in Ops |-> "none"]
        /\ runs = [k \in Ops |-> 0]
        /\ fate = [k \in Ops |-> 0]
        /\ wk = [w \in Workers |-> Idle]
        /\ stopping = FALSE
        /\ stops = 0
        /\ ww = [a |-> "off", k |-> 0, got |-> "none"]
(* each decision is broadcast to whoever is subscribed                        *)
Tell(k, r) == ww' = IF ww.a \in {"sub", "armed"} /\ ww.k = k THEN [ww EXCEPT !.got = r] ELSE ww
Decide(k, r) == /\ st' = [st EXCEPT ![k] = "decided"]
                /\ res' = [res EXCEPT ![k] = r]
                /\ fate' = [fate EXCEPT ![k] = @ + 1]
                /\ Tell(k, r)
Register(k) == /\ st[k] = "new" /\ st' = [st EXCEPT ![k] = "registered"]
               /\ UNCHANGED <<q, res, runs, wk, stopping, stops, ww, fate>>
Queued(k) == \E a \in DOMAIN q : q[a].id = k
Push(k) == /\ st[k] = "registered"
           /\ \E p \in Prios : q' = Append(q, [id |-> k, pr |-> p, t |-> k])
           /\ st' = [st EXCEPT ![k] = "pending"]
           /\ UNCHANGED <<res, runs, wk, stopping, stops, ww, fate>>
Pop(w) == /\ wk[w].a = "idle" /\ ~stopping /\ q # <<>>
          /\ LET b == BestAt(q) IN wk' = [wk EXCEPT ![w] = [a |-> "popped", k |-> q[b].id]] /\ q' = Without(q, b)
          /\ UNCHANGED <<st, res, runs, stopping, stops, ww, fate>>
Check(w) == /\ wk[w].a = "popped"
            /\ wk' = [wk EXCEPT ![w] = IF st[wk[w].k] = "decided" THEN Idle ELSE [@ EXCEPT !.a = "exec"]]
            /\ UNCHANGED <<q, st, res, runs, stopping, stops, ww, fate>>
Run(w) == /\ wk[w].a = "exec"
          /\ runs' = [runs EXCEPT ![wk[w].k] = @ + 1]
          /\ wk' = [wk EXCEPT ![w].a = "ran"]
          /\ UNCHANGED <<q, st, res, stopping, stops, ww, fate>>
Report(w) == /\ wk[w].a = "ran"
             /\ wk' = [wk EXCEPT ![w] = Idle]
             /\ IF st[wk[w].k] = "decided" THEN UNCHANGED <<st, res, ww, fate>> ELSE Decide(wk[w].k, "done")
             /\ UNCHANGED <<q, runs, stopping, stops>>
Cancel(k) == /\ st[k] = "pending" /\ Decide(k, "cancelled") /\ UNCHANGED <<q, runs, wk, stopping, stops>>
Timeout(k) == /\ st[k] = "pending" /\ Decide(k, "timeout") /\ UNCHANGED <<q, runs, wk, stopping, stops>>
Stop == /\ ~stopping /\ stops < Stops /\ stopping' = TRUE /\ stops' = stops + 1
        /\ UNCHANGED <<q, st, res, runs, wk, ww, fate>>
Restart == /\ stopping /\ \A w \in Workers : wk[w].a = "idle"
           /\ stopping' = FALSE /\ UNCHANGED <<q, st, res, runs, wk, stops, ww, fate>>
(* the waiter                                                                  *)
W(x) == ww' = x /\ UNCHANGED <<q, st, res, runs, wk, stopping, stops, fate>>
Look(k) == IF st[k] = "decided" THEN [a |-> "end", k |-> k, got |-> res[k]] ELSE [a |-> "armed", k |-> k, got |-> "none"]
WStart(k) == ww.a = "off" /\ st[k] # "new"
             /\ IF SubFirst THEN W([a |-> "sub", k |-> k, got |-> "none"])
                ELSE W(IF st[k] = "decided" THEN Look(k) ELSE [a |-> "looked", k |-> k, got |-> "none"])
WLook == ww.a = "sub" /\ W(IF st[ww.k] = "decided" THEN Look(ww.k) ELSE [ww EXCEPT !.a = "armed"])
WSub == ww.a = "looked" /\ W([ww EXCEPT !.a = "armed"])
WGot == ww.a = "armed" /\ ww.got # "none" /\ W([ww EXCEPT !.a = "end"])
Next == \/ \E k \in Ops : Register(k) \/ Push(k) \/ Cancel(k) \/ Timeout(k) \/ WStart(k)
        \/ \E w \in Workers : Pop(w) \/ Check(w) \/ Run(w) \/ Report(w)
        \/ Stop \/ Restart \/ WLook \/ WSub \/ WGot
Fair == /\ \A k \in Ops : WF_vars(Register(k)) /\ WF_vars(Push(k))
        /\ \A w \in Workers : WF_vars(Pop(w) \/ Check(w) \/ Run(w) \/ Report(w))
        /\ WF_vars(Restart) /\ WF_vars(WLook) /\ WF_vars(WSub) /\ WF_vars(WGot)
Spec == Init /\ [][Next]_vars /\ Fair
Once == \A k \in Ops : runs[k] <= 1 /\ fate[k] <= 1
Own == \A k \in Ops : res[k] = "done" => runs[k] = 1
NoneLost == \A k \in Ops : st[k] = "pending" => Queued(k) \/ \E w \in Workers : wk[w].k = k
NotTwice == \A k \in Ops : Cardinality({a \in DOMAIN q : q[a].id = k}) + Cardinality({w \in Workers : wk[w].k = k}) <= 1
Final == [][\A k \in Ops : fate[k] = 1 => res'[k] = res[k]]_vars
WaitRight == ww.a = "end" => ww.got = res[ww.k]
BestFirst == [][\A w \in Workers : wk[w].a = "idle" /\ wk'[w].a = "popped" =>
                   LET p == CHOOSE a \in DOMAIN q : q[a].id = wk'[w].k
                   IN \A a \in DOMAIN q : q[a].pr < q[p].pr \/ (q[a].pr = q[p].pr /\ q[p].t <= q[a].t)]_vars
AllDecided == \A k \in Ops : <>(st[k] = "decided")
WaiterServed == (ww.a \in {"sub", "looked", "armed"}) ~> (ww.a = "end")
=============================================================================
