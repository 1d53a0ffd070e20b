----------------------------- MODULE QueueWait -----------------------------
(***************************************************************************)
(* The wake-up protocol of waiting consumers, at the grain at which it can *)
(* go wrong: a waiter subscribes to wake-ups and looks at the queue in two *)
(* separate steps, sleeps until it is woken or its time is up, and looks   *)
(* again.  Order and Wake select variants: "subscribe_first" with "all" is *)
(* the design; the others are wrong and TLC must say so.                   *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
CONSTANTS Waiters, MaxPush, Order, Wake
VARIABLES pc, sub, avail, pushed, taken, late
vars == <<pc, sub, avail, pushed, taken, late>>
\* pc: "start" | "mid" (between the two steps) | "asleep" | "got" | "empty"
Init == /\ pc = [w \in Waiters |-> "start"] /\ sub = [w \in Waiters |-> FALSE]
        /\ avail = 0 /\ pushed = 0 /\ taken = 0 /\ late = {}
Take(w, else) == IF avail > 0 THEN pc' = [pc EXCEPT ![w] = "got"] /\ avail' = avail - 1 /\ taken' = taken + 1
                 ELSE pc' = [pc EXCEPT ![w] = else] /\ UNCHANGED <<avail, taken>>
Step1(w) == /\ pc[w] = "start"
            /\ IF Order = "subscribe_first"
               THEN sub' = [sub EXCEPT ![w] = TRUE] /\ pc' = [pc EXCEPT ![w] = "mid"] /\ UNCHANGED <<avail, taken>>
               ELSE Take(w, "mid") /\ UNCHANGED sub
            /\ UNCHANGED <<pushed, late>>
Step2(w) == /\ pc[w] = "mid"
            /\ IF Order = "subscribe_first"
               THEN Take(w, IF sub[w] THEN "asleep" ELSE "start") /\ UNCHANGED sub
               ELSE sub' = [sub EXCEPT ![w] = TRUE] /\ pc' = [pc EXCEPT ![w] = "asleep"] /\ UNCHANGED <<avail, taken>>
            /\ UNCHANGED <<pushed, late>>
Woken(w) == pc[w] = "asleep" /\ ~sub[w] /\ pc' = [pc EXCEPT ![w] = "start"] /\ UNCHANGED <<sub, avail, pushed, taken, late>>
TimeUp(w) == w \notin late /\ late' = late \cup {w} /\ UNCHANGED <<pc, sub, avail, pushed, taken>>
GiveUp(w) == w \in late /\ pc[w] \in {"asleep", "start"} /\ pc' = [pc EXCEPT ![w] = "empty"] /\ UNCHANGED <<sub, avail, pushed, taken, late>>
Add == pushed < MaxPush /\ pushed' = pushed + 1 /\ avail' = avail + 1 /\ UNCHANGED <<pc, taken, late>>
       /\ \/ Wake = "all" /\ sub' = [w \in Waiters |-> FALSE]
          \/ Wake = "none" /\ UNCHANGED sub
Next == Add \/ \E w \in Waiters : Step1(w) \/ Step2(w) \/ Woken(w) \/ TimeUp(w) \/ GiveUp(w)
Spec == Init /\ [][Next]_vars /\ \A w \in Waiters : WF_vars(Step1(w)) /\ WF_vars(Step2(w)) /\ WF_vars(Woken(w)) /\ WF_vars(GiveUp(w))
Inv_Taken == taken + avail = pushed /\ taken = Cardinality({ w \in Waiters : pc[w] = "got" })
\* nobody stays asleep while there is something to take
NoSleepOnWork == \A w \in Waiters : (pc[w] = "asleep" /\ avail > 0) ~> (pc[w] # "asleep" \/ avail = 0)
Deadline == \A w \in Waiters : (w \in late) ~> (pc[w] \in {"got", "empty"})
=============================================================================
