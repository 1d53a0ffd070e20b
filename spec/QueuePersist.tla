---------------------------- MODULE QueuePersist ----------------------------
(***************************************************************************)
(* How a queue's memory and its storage stay together, at the grain of the *)
(* implementation: requests change memory under the queue lock and hand a  *)
(* storage operation to a background writer, which applies them in the     *)
(* order received, in batches.  InLock says whether the hand-over happens  *)
(* before the lock is released.  With InLock = TRUE storage is always a    *)
(* state memory had (Inv_Prefix), and equal to memory when all is flushed  *)
(* (Inv_Flushed); with FALSE TLC finds the lost order.                     *)
(*                                                                         *)
(* A message is "none", "ready", "leased" or "dead" with an attempt count. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Msgs, Procs, MaxOps, InLock
VARIABLES mem,    \* Msgs -> state in memory
          hist,   \* the states memory went through, in order
          pend,   \* Procs -> storage operation still in the hands of the process (<<>> if none)
          chan,   \* operations received by the writer, in order
          disk,   \* Msgs -> state on disk
          ops
vars == <<mem, hist, pend, chan, disk, ops>>
None == [st |-> "none", a |-> 0]
Init == /\ mem = [m \in Msgs |-> None] /\ hist = <<mem>> /\ pend = [p \in Procs |-> <<>>]
        /\ chan = <<>> /\ disk = mem /\ ops = 0
\* a request: memory step plus storage operation o
Req(p, m, new, o) ==
    /\ pend[p] = <<>> /\ ops < MaxOps /\ ops' = ops + 1
    /\ mem' = [mem EXCEPT ![m] = new] /\ hist' = Append(hist, mem')
    /\ IF InLock THEN chan' = Append(chan, o) /\ UNCHANGED pend
       ELSE pend' = [pend EXCEPT ![p] = <<o>>] /\ UNCHANGED chan
    /\ UNCHANGED disk
Push(p, m) == mem[m] = None /\ (\A k \in 1..Len(hist) : hist[k][m] = None) /\ Req(p, m, [st |-> "ready", a |-> 0], [k |-> "ins", m |-> m])
Lease(p, m) == mem[m].st = "ready" /\ Req(p, m, [st |-> "leased", a |-> mem[m].a + 1], [k |-> "upd", m |-> m, v |-> [st |-> "leased", a |-> mem[m].a + 1]])
Nack(p, m) == mem[m].st = "leased" /\ Req(p, m, [mem[m] EXCEPT !.st = "ready"], [k |-> "upd", m |-> m, v |-> [mem[m] EXCEPT !.st = "ready"]])
Bury(p, m) == mem[m].st = "leased" /\ Req(p, m, [mem[m] EXCEPT !.st = "dead"], [k |-> "todlq", m |-> m, v |-> [mem[m] EXCEPT !.st = "dead"]])
Ack(p, m) == mem[m].st \in {"ready", "leased"} /\ Req(p, m, None, [k |-> "del", m |-> m])
Replay(p, m) == mem[m].st = "dead" /\ Req(p, m, [st |-> "ready", a |-> 0], [k |-> "tomain", m |-> m])
Send(p) == /\ pend[p] # <<>> /\ chan' = chan \o pend[p] /\ pend' = [pend EXCEPT ![p] = <<>>]
           /\ UNCHANGED <<mem, hist, disk, ops>>
\* what SQL does with an operation
Exec(d, o) == CASE o.k = "ins" -> [d EXCEPT ![o.m] = [st |-> "ready", a |-> 0]]
                [] o.k = "upd" -> IF d[o.m].st \in {"ready", "leased"} THEN [d EXCEPT ![o.m] = o.v] ELSE d
                [] o.k = "del" -> IF d[o.m].st \in {"ready", "leased"} THEN [d EXCEPT ![o.m] = None] ELSE d
                [] o.k = "todlq" -> [d EXCEPT ![o.m] = o.v]
                [] o.k = "tomain" -> [d EXCEPT ![o.m] = [st |-> "ready", a |-> 0]]
RECURSIVE ExecAll(_, _)
ExecAll(d, os) == IF os = <<>> THEN d ELSE ExecAll(Exec(d, Head(os)), Tail(os))
\* the writer commits a batch: any number of the oldest operations, atomically
Commit == \E n \in 1..Len(chan) : /\ disk' = ExecAll(disk, SubSeq(chan, 1, n)) /\ chan' = SubSeq(chan, n + 1, Len(chan))
                                  /\ UNCHANGED <<mem, hist, pend, ops>>
\* the process dies: memory is rebuilt from disk
Crash == /\ mem' = disk /\ hist' = <<disk>> /\ chan' = <<>> /\ pend' = [p \in Procs |-> <<>>] /\ UNCHANGED <<disk, ops>>
Next == Commit \/ Crash \/ \E p \in Procs : Send(p) \/ \E m \in Msgs : Push(p, m) \/ Lease(p, m) \/ Nack(p, m) \/ Bury(p, m) \/ Ack(p, m) \/ Replay(p, m)
Spec == Init /\ [][Next]_vars
Idle == chan = <<>> /\ \A p \in Procs : pend[p] = <<>>
Inv_Flushed == Idle => disk = mem
Inv_Prefix == \E i \in 1..Len(hist) : disk = hist[i]
\* never behind an earlier flush: what is still to be written brings disk to memory
Inv_Catchup == InLock => ExecAll(disk, chan) = mem
=============================================================================
