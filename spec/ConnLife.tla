------------------------------ MODULE ConnLife ------------------------------
(***************************************************************************)
(* The end of a connection.  Requests of a connection run in tasks of      *)
(* their own, in parallel; an operation makes one or two changes (each     *)
(* atomic), possibly with a suspension between them, at which an aborted   *)
(* task stops.  When the connection ends the tasks are aborted and what    *)
(* the connection holds is given back.  Tasks notice an abort only when    *)
(* they are suspended: the cleanup has to wait for them.                   *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
CONSTANTS Reqs,      \* requests the client sends
          Ends,      \* ways in which a connection ends
          Abort,     \* "waits": cleanup after the tasks have ended; "at_once": not waiting; "lets_run": tasks are not aborted, cleanup at once
          Cleanup,   \* "always" or "clean_end" (only after an orderly end)
          Suspends   \* operations suspend between their two changes
VARIABLES pc,        \* per request: "no", "ready", "half" (suspended), "mid" (running, between the changes), "done", "aborted"
          a, b,      \* the two halves of what the operations did
          held,      \* what is registered for the connection
          conn,      \* "open", "ending", "cleaned"
          how,       \* how it ended
          aborted
vars == <<pc, a, b, held, conn, how, aborted>>
Init == pc = [r \in Reqs |-> "no"] /\ a = {} /\ b = {} /\ held = {} /\ conn = "open" /\ how = "" /\ aborted = FALSE

Send(r) == conn = "open" /\ pc[r] = "no" /\ pc' = [pc EXCEPT ![r] = "ready"] /\ UNCHANGED <<a, b, held, conn, how, aborted>>
\* a task that is scheduled again after the abort does not go on
First(r) == /\ pc[r] = "ready" /\ ~aborted
            /\ a' = a \cup {r} /\ pc' = [pc EXCEPT ![r] = IF Suspends THEN "half" ELSE "mid"]
            /\ UNCHANGED <<b, held, conn, how, aborted>>
Second(r) == /\ pc[r] = "mid" \/ (pc[r] = "half" /\ ~aborted)
             /\ b' = b \cup {r} /\ held' = held \cup {r} /\ pc' = [pc EXCEPT ![r] = "done"]
             /\ UNCHANGED <<a, conn, how, aborted>>
Stop(r) == aborted /\ pc[r] \in {"ready", "half"} /\ pc' = [pc EXCEPT ![r] = "aborted"] /\ UNCHANGED <<a, b, held, conn, how, aborted>>
End == conn = "open" /\ conn' = "ending" /\ how' \in Ends /\ aborted' = (Abort # "lets_run") /\ UNCHANGED <<pc, a, b, held>>
Over == \A r \in Reqs : pc[r] \in {"no", "done", "aborted"}
Clean == /\ conn = "ending" /\ (Abort = "waits" => Over)
         /\ conn' = "cleaned"
         /\ held' = (IF Cleanup = "always" \/ how = "close" THEN {} ELSE held)
         /\ UNCHANGED <<pc, a, b, how, aborted>>
Next == End \/ Clean \/ \E r \in Reqs : Send(r) \/ First(r) \/ Second(r) \/ Stop(r)
Spec == Init /\ [][Next]_vars
\* once everything has come to rest nothing of the connection is left
Inv_Released == conn = "cleaned" /\ Over => held = {}
\* every request took effect as a whole or not at all
Inv_Whole == Over => a = b
=============================================================================
