------------------------------- MODULE DiskMC -------------------------------
(* Design of the disk manager: three cache tiers (only "some tier may hold a *)
(* copy" matters), a write staging buffer, the file and its durable image.   *)
(* Checked: it refines the page registers of module Disk, i.e. every read    *)
(* returns the last accepted write, every flush puts it in the file, and a   *)
(* crash loses nothing that was flushed (or, for a power loss, synced).      *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Pages, MaxV, Cap, Syncs
VARIABLES cache, staged, file, synced,   \* implementation state
          abs,                            \* the abstract registers (module Disk)
          n
D == INSTANCE Disk
vars == <<cache, staged, file, synced, abs, n>>
Nil == -1
Tiers == {"hot", "cold"}
Init == /\ cache = [t \in Tiers |-> [p \in Pages |-> Nil]]
        /\ staged = [p \in Pages |-> Nil]
        /\ file = [p \in Pages |-> 0] /\ synced = file
        /\ abs = D!DInit(Pages, Syncs) /\ n = 0
Do(e, r) == \E o \in D!DOutcomes(abs, e) : o.r = r /\ abs' = o.s
Size == Cardinality({p \in Pages : staged[p] # Nil})
(* what a read sees: first tier holding the page, else staging, else file *)
Seen(p) == IF cache["hot"][p] # Nil THEN cache["hot"][p]
           ELSE IF cache["cold"][p] # Nil THEN cache["cold"][p]
           ELSE IF staged[p] # Nil THEN staged[p] ELSE file[p]
(* storing a page refreshes every tier that holds it, and may add it to one *)
Stored(c, p, v, T) == [t \in Tiers |-> [c[t] EXCEPT ![p] = IF @ # Nil \/ t \in T THEN v ELSE @]]
Drained == [p \in Pages |-> IF staged[p] # Nil THEN staged[p] ELSE file[p]]
Write(p) == /\ n < MaxV
            /\ \E T \in SUBSET Tiers : cache' = Stored(cache, p, n + 1, T)
            /\ IF Size < Cap \/ staged[p] # Nil
               THEN \/ staged' = [staged EXCEPT ![p] = n + 1] /\ UNCHANGED <<file, synced>>
                    \/ /\ staged' = [q \in Pages |-> Nil]      \* threshold flush
                       /\ file' = [Drained EXCEPT ![p] = n + 1]
                       /\ synced' \in {synced, file'}
               ELSE /\ staged' = [q \in Pages |-> Nil]         \* buffer full
                    /\ file' = [Drained EXCEPT ![p] = n + 1]
                    /\ synced' \in {synced, file'}
            /\ n' = n + 1
            /\ Do([op |-> "write", p |-> p, v |-> n + 1], 0)
Read(p) == /\ Do([op |-> "read", p |-> p], Seen(p))
           /\ \E T \in SUBSET Tiers : cache' = Stored(cache, p, Seen(p), T)
           /\ UNCHANGED <<staged, file, synced, n>>
Evict(t, p) == cache' = [cache EXCEPT ![t][p] = Nil] /\ UNCHANGED <<staged, file, synced, abs, n>>
FlushTo(sync, op) == /\ file' = Drained /\ staged' = [q \in Pages |-> Nil]
                     /\ synced' = IF sync THEN file' ELSE synced
                     /\ UNCHANGED <<cache, n>>
                     /\ Do([op |-> op], 0)
Sync == synced' = file /\ UNCHANGED <<cache, staged, file, n>> /\ Do([op |-> "sync"], 0)
Empty == cache' = [t \in Tiers |-> [p \in Pages |-> Nil]] /\ staged' = [q \in Pages |-> Nil]
Crash == Empty /\ UNCHANGED <<file, synced, n>> /\ Do([op |-> "crash"], 0)
Power == Empty /\ file' = synced /\ UNCHANGED <<synced, n>> /\ Do([op |-> "powerloss"], 0)
Next == \/ \E p \in Pages : Write(p) \/ Read(p) \/ \E t \in Tiers : Evict(t, p)
        \/ FlushTo(Syncs, "flush") \/ FlushTo(TRUE, "force") \/ Sync \/ Crash \/ Power
Spec == Init /\ [][Next]_vars
(* refinement: everything observable is something the registers allow *)
ReadsOk == \A p \in Pages : Seen(p) \in abs.pg[p].cur
FileOk == \A p \in Pages : file[p] \in abs.pg[p].file /\ synced[p] \in abs.pg[p].syn
OneVersion == \A p \in Pages : \A t \in Tiers : cache[t][p] # Nil => cache[t][p] = Seen(p)
Inv == ReadsOk /\ FileOk /\ OneVersion
=============================================================================
