------------------------------ MODULE StoreMC ------------------------------
(***************************************************************************)
(* The store as a state machine for TLC, with a record of what every key   *)
(* should read: the latest write of each key and when it was made.         *)
(***************************************************************************)
EXTENDS Store, TLC
CONSTANTS Keys, Vals, TTLs, Default, MaxOps, MaxNow
VARIABLES st, now, n, act, log       \* log: [key -> last write [v, at, ttl] or none]
vars == <<st, now, n, act, log>>
view == <<st, now, n, log>>
viewg == vars

Init == st = NoStore /\ now = 0 /\ n = 0 /\ act = <<>> /\ log = [k \in Keys |-> [v |-> "absent", end |-> 0]]
Len0(t) == IF t = 0 THEN Default ELSE t
Set == \E k \in Keys, t \in TTLs, v \in Vals :
       /\ n < MaxOps /\ n' = n + 1
       /\ st' = Put(st, k, v, now + Len0(t), now + Len0(t))
       /\ log' = [log EXCEPT ![k] = [v |-> v, end |-> now + Len0(t)]]
       /\ act' = <<"set", k, v, t>> /\ UNCHANGED now
Del == \E k \in Keys :
       /\ n < MaxOps /\ n' = n + 1
       /\ st' = Remove(st, k) /\ log' = [log EXCEPT ![k] = [v |-> "absent", end |-> 0]]
       /\ act' = <<"del", k>> /\ UNCHANGED now
Clean == /\ \E S \in SUBSET Sweepable(st, now) : S # {} /\ st' = Sweep(st, S, now)
         /\ act' = <<"clean">> /\ UNCHANGED <<now, n, log>>
Tick == now < MaxNow /\ now' = now + 1 /\ act' = <<"tick">> /\ UNCHANGED <<st, n, log>>
Next == Set \/ Del \/ Clean \/ Tick
NextDriven == Set \/ Del \/ Tick

\* every answer a get may give is the latest write while it lives, and nothing once it is over
Inv_Reads == \A k \in Keys, v \in Vals \cup {"absent"} :
    MayRead(st, k, v, now) =>
       \/ v = log[k].v /\ v # "absent" /\ now <= log[k].end
       \/ v = "absent" /\ (log[k].v = "absent" \/ now >= log[k].end)
Inv_Lives == \A k \in Keys : log[k].v # "absent" /\ now < log[k].end => \E e \in Of(st, k) : e.v = log[k].v /\ Sure(e, now)
Inv_One == \A k \in Keys : Cardinality(Of(st, k)) <= 1
\* an operation on one key never changes another
Act_Frame == [][\A k \in Keys : (Len(act') > 1 /\ act'[2] # k) => Of(st, k) = Of(st', k)]_vars
=============================================================================
