--------------------------- MODULE RetainedFlush ---------------------------
(***************************************************************************)
(* The periodic flush of the retained values: publishes change the values  *)
(* and then raise the dirty mark; the flusher lowers the mark, copies the  *)
(* values and replaces the stored table in one transaction.                *)
(*   MarkAfter: publishes raise the mark after the change                  *)
(*   LowerFirst: the flusher lowers the mark before it copies              *)
(*   Tx: the table is replaced in one transaction                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Topics, Procs, MaxPub, MaxCrash, MarkAfter, LowerFirst, Tx
VARIABLES mem, dirty, disk, ppc, pt, fpc, copy, n, hist, idle, crashes
vars == <<mem, dirty, disk, ppc, pt, fpc, copy, n, hist, idle, crashes>>
Zero == [t \in Topics |-> 0]
Init == mem = Zero /\ dirty = FALSE /\ disk = Zero /\ ppc = [p \in Procs |-> "idle"] /\ pt = [p \in Procs |-> <<>>]
        /\ fpc = "idle" /\ copy = Zero /\ n = 0 /\ hist = [t \in Topics |-> {0}] /\ idle = 0 /\ crashes = 0
Quiet == \A p \in Procs : ppc[p] = "idle"
\* idle: 0 after a change, counting flusher rounds begun since
PStart(p) == /\ ppc[p] = "idle" /\ n < MaxPub /\ n' = n + 1
             /\ \E t \in Topics : pt' = [pt EXCEPT ![p] = <<t, n + 1>>]
             /\ ppc' = [ppc EXCEPT ![p] = IF MarkAfter THEN "set" ELSE "mark"]
             /\ UNCHANGED <<mem, dirty, disk, fpc, copy, hist, idle, crashes>>
PSet(p) == /\ ppc[p] = "set" /\ mem' = [mem EXCEPT ![pt[p][1]] = pt[p][2]] /\ hist' = [hist EXCEPT ![pt[p][1]] = @ \cup {pt[p][2]}]
           /\ ppc' = [ppc EXCEPT ![p] = IF MarkAfter THEN "mark" ELSE "idle"] /\ idle' = 0
           /\ UNCHANGED <<dirty, disk, pt, fpc, copy, n, crashes>>
PMark(p) == /\ ppc[p] = "mark" /\ dirty' = TRUE
            /\ ppc' = [ppc EXCEPT ![p] = IF MarkAfter THEN "idle" ELSE "set"] /\ idle' = 0
            /\ UNCHANGED <<mem, disk, pt, fpc, copy, n, hist, crashes>>
FCheck == /\ fpc = "idle" /\ dirty /\ fpc' = "copy"
          /\ dirty' = (IF LowerFirst THEN FALSE ELSE dirty)
          /\ UNCHANGED <<mem, disk, ppc, pt, copy, n, hist, idle, crashes>>
FCopy == /\ fpc = "copy" /\ copy' = mem /\ fpc' = "write"
         /\ UNCHANGED <<mem, dirty, disk, ppc, pt, n, hist, idle, crashes>>
FWrite == /\ fpc = "write" /\ disk' = (IF Tx THEN copy ELSE Zero) /\ fpc' = (IF Tx THEN "done" ELSE "insert")
          /\ UNCHANGED <<mem, dirty, ppc, pt, copy, n, hist, idle, crashes>>
FInsert == /\ fpc = "insert" /\ disk' = copy /\ fpc' = "done" /\ UNCHANGED <<mem, dirty, ppc, pt, copy, n, hist, idle, crashes>>
FDone == /\ fpc = "done" /\ fpc' = "idle" /\ dirty' = (IF LowerFirst THEN dirty ELSE FALSE)
         /\ UNCHANGED <<mem, disk, ppc, pt, copy, n, hist, idle, crashes>>
\* nothing to flush: a whole interval without activity has passed
FIdle == /\ fpc = "idle" /\ ~dirty /\ Quiet /\ idle' = 1 /\ hist' = [t \in Topics |-> {mem[t]}] /\ hist # hist'
         /\ UNCHANGED <<mem, dirty, disk, ppc, pt, fpc, copy, n, crashes>>
Crash == /\ crashes < MaxCrash /\ crashes' = crashes + 1
         /\ mem' = disk /\ dirty' = FALSE /\ fpc' = "idle" /\ ppc' = [p \in Procs |-> "idle"]
         /\ hist' = [t \in Topics |-> hist[t] \cup {disk[t]}] /\ idle' = 0
         /\ UNCHANGED <<disk, pt, copy, n>>
Next == (\E p \in Procs : PStart(p) \/ PSet(p) \/ PMark(p)) \/ FCheck \/ FCopy \/ FWrite \/ FInsert \/ FDone \/ FIdle \/ Crash
Spec == Init /\ [][Next]_vars
\* P04: what a crash would bring back was the value at some moment since the last interval without activity
Inv_Recent == \A t \in Topics : disk[t] \in hist[t]
Inv_Flushed == idle = 1 => disk = mem
=============================================================================
