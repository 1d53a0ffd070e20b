---------------------------- MODULE StoreSweep ----------------------------
(***************************************************************************)
(* Cleanup against fresh writes, one key: a sweep that decides and removes *)
(* under the lock of the entry never removes a value set in the meantime;  *)
(* one that first collects the expired keys, or a get that removes what it *)
(* found expired after letting go of the lock, does.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxSet, MaxNow, SweepMode, GetMode, TTL     \* "atomic" or "two_steps"
VARIABLES entry,    \* <<>> or <<[n, end]>>
          now, n, sweeper, reader, last
vars == <<entry, now, n, sweeper, reader, last>>
Init == entry = <<>> /\ now = 0 /\ n = 0 /\ sweeper = "idle" /\ reader = "idle" /\ last = <<>>
Over(e) == now > e.end
Set == n < MaxSet /\ n' = n + 1 /\ entry' = <<[n |-> n + 1, end |-> now + TTL]>> /\ last' = entry' /\ UNCHANGED <<now, sweeper, reader>>
Tick == now < MaxNow /\ now' = now + 1 /\ UNCHANGED <<entry, n, sweeper, reader, last>>
Decide(m, w, w2) == IF entry # <<>> /\ Over(entry[1])
                THEN IF m = "atomic" THEN entry' = <<>> /\ w2 = "idle" ELSE entry' = entry /\ w2 = "found"
                ELSE entry' = entry /\ w2 = "idle"
Sweep1 == sweeper = "idle" /\ Decide(SweepMode, sweeper, sweeper') /\ UNCHANGED <<now, n, reader, last>>
Sweep2 == sweeper = "found" /\ entry' = <<>> /\ sweeper' = "idle" /\ UNCHANGED <<now, n, reader, last>>
Get1 == reader = "idle" /\ GetMode # "keeps" /\ Decide(GetMode, reader, reader') /\ UNCHANGED <<now, n, sweeper, last>>
Get2 == reader = "found" /\ entry' = <<>> /\ reader' = "idle" /\ UNCHANGED <<now, n, sweeper, last>>
Next == Set \/ Tick \/ Sweep1 \/ Sweep2 \/ Get1 \/ Get2
Spec == Init /\ [][Next]_vars
Inv_Lives == last # <<>> /\ now <= last[1].end => entry = last
=============================================================================
