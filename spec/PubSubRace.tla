----------------------------- MODULE PubSubRace -----------------------------
(***************************************************************************)
(* The steps concurrent requests really take: a retained publish stores    *)
(* the value, then reads who is subscribed, then hands copies over one by  *)
(* one; a subscribe adds itself and reads the retained value.  One         *)
(* publisher publishes 1..N to one topic, sequentially; one subscriber     *)
(* subscribes and unsubscribes; its client may disconnect.                 *)
(*   Order "retain_first": the value is stored before matching (the code)  *)
(*   Atomic "atomic": subscribing and reading the value are one step        *)
(*   Cleanup "after_requests": a disconnect waits for requests in progress *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, Order, Atomic, Cleanup, MaxSub
VARIABLES pc, i, val, sub, targets, q, spc, nsub, alive, reg
\* pc publisher step; i current message; val retained value; sub: subscribed in the tree; targets read
\* q: what the client was sent; spc subscriber step; alive: connection; reg: the broker knows the client
vars == <<pc, i, val, sub, targets, q, spc, nsub, alive, reg>>
Init == pc = "idle" /\ i = 0 /\ val = 0 /\ sub = FALSE /\ targets = FALSE /\ q = <<>> /\ spc = "idle" /\ nsub = 0 /\ alive = TRUE /\ reg = TRUE
First == IF Order = "retain_first" THEN "retain" ELSE "match"
PStart == pc = "idle" /\ i < N /\ i' = i + 1 /\ pc' = First /\ UNCHANGED <<val, sub, targets, q, spc, nsub, alive, reg>>
PRetain == pc = "retain" /\ val' = i /\ pc' = (IF Order = "retain_first" THEN "match" ELSE "idle") /\ UNCHANGED <<i, sub, targets, q, spc, nsub, alive, reg>>
PMatch == pc = "match" /\ targets' = sub /\ pc' = "send" /\ UNCHANGED <<i, val, sub, q, spc, nsub, alive, reg>>
PSend == pc = "send" /\ q' = (IF targets THEN Append(q, i) ELSE q) /\ pc' = (IF Order = "retain_first" THEN "idle" ELSE "retain")
         /\ UNCHANGED <<i, val, sub, targets, spc, nsub, alive, reg>>
SStart == spc = "idle" /\ nsub < MaxSub /\ alive /\ nsub' = nsub + 1 /\ spc' = "add" /\ UNCHANGED <<pc, i, val, sub, targets, q, alive, reg>>
Got == IF val > 0 THEN Append(q, val) ELSE q
SAdd == /\ spc = "add"
        /\ sub' = (IF Atomic = "read_first" THEN sub ELSE TRUE)
        /\ q' = (IF Atomic = "add_first" THEN q ELSE Got)
        /\ spc' = (IF Atomic = "atomic" THEN "done" ELSE "second")
        /\ UNCHANGED <<pc, i, val, targets, nsub, alive, reg>>
SSecond == /\ spc = "second" /\ spc' = "done"
           /\ sub' = TRUE /\ q' = (IF Atomic = "add_first" THEN Got ELSE q)
           /\ UNCHANGED <<pc, i, val, targets, nsub, alive, reg>>
Leave == alive /\ alive' = FALSE /\ UNCHANGED <<pc, i, val, sub, targets, q, spc, nsub, reg>>
Clean == ~alive /\ reg /\ (Cleanup = "after_requests" => spc \in {"idle", "done"})
         /\ reg' = FALSE /\ sub' = FALSE /\ UNCHANGED <<pc, i, val, targets, q, spc, nsub, alive>>
Next == PStart \/ PRetain \/ PMatch \/ PSend \/ SStart \/ SAdd \/ SSecond \/ Leave \/ Clean
Spec == Init /\ [][Next]_vars /\ WF_vars(PRetain) /\ WF_vars(PMatch) /\ WF_vars(PSend) /\ WF_vars(SAdd) /\ WF_vars(SSecond) /\ WF_vars(SSecond) /\ WF_vars(Clean)
\* P02/P03: no gap in what the subscriber sees, only the retained value may come twice
Inv_NoGap == \A k \in 1..Len(q) - 1 : q[k + 1] \in {q[k], q[k] + 1}
Inv_NotMissed == (spc = "done" /\ pc = "idle" /\ alive /\ i > 0) => (Len(q) > 0 /\ q[Len(q)] = i)
\* P05: a client that is gone leaves nothing behind
Inv_NoGhost == (~reg /\ spc \in {"idle", "done"}) => ~sub
=============================================================================
