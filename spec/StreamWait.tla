----------------------------- MODULE StreamWait -----------------------------
(***************************************************************************)
(* Waiting fetches of one consumer group and reads from disk.  A fetcher   *)
(* subscribes to the topic's notification, looks, and sleeps; a message    *)
(* that has left memory is read from disk by one fetcher at a time, which  *)
(* marks the group while it does.  Fetchers can vanish at any moment.      *)
(*   Guard  the mark is taken back when the reading fetcher vanishes       *)
(*   Notify released messages wake the waiting fetchers                    *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
CONSTANTS F, MaxMsg, MaxVanish, Guard, Notify, Order
VARIABLES avail,    \* messages the group can deliver
          hot,      \* how many of them are in memory
          leased,   \* [f |-> number] leases
          pc, sub, cold, vanished, made
vars == <<avail, hot, leased, pc, sub, cold, vanished, made>>
Init == /\ avail = 0 /\ hot = 0 /\ leased = [f \in F |-> 0] /\ pc = [f \in F |-> "start"] /\ sub = [f \in F |-> "no"]
        /\ cold = FALSE /\ vanished = 0 /\ made = 0
Wake(do) == IF do THEN [f \in F |-> IF sub[f] = "yes" THEN "woken" ELSE sub[f]] ELSE sub
Publish == /\ made < MaxMsg /\ made' = made + 1 /\ avail' = avail + 1 /\ hot' = hot + 1 /\ sub' = Wake(TRUE)
           /\ UNCHANGED <<leased, pc, cold, vanished>>
Evict == /\ hot > 0 /\ hot' = hot - 1 /\ UNCHANGED <<avail, leased, pc, sub, cold, vanished, made>>
Subscribe(f) == /\ pc[f] = "start"
                /\ sub' = IF Order = "subscribe_first" THEN [sub EXCEPT ![f] = "yes"] ELSE sub
                /\ pc' = [pc EXCEPT ![f] = "look"] /\ UNCHANGED <<avail, hot, leased, cold, vanished, made>>
\* looking first and subscribing afterwards (wrong): a wake-up in between is missed
LateSub(f) == /\ pc[f] = "late" /\ sub' = [sub EXCEPT ![f] = "yes"] /\ pc' = [pc EXCEPT ![f] = "sleep"]
              /\ UNCHANGED <<avail, hot, leased, cold, vanished, made>>
Look(f) == /\ pc[f] = "look"
           /\ IF hot > 0 /\ avail > 0
              THEN /\ avail' = avail - 1 /\ hot' = IF hot > avail - 1 THEN avail - 1 ELSE hot
                   /\ leased' = [leased EXCEPT ![f] = @ + 1] /\ pc' = [pc EXCEPT ![f] = "got"] /\ sub' = [sub EXCEPT ![f] = "no"] /\ cold' = cold
              ELSE IF avail > 0 /\ cold THEN pc' = [pc EXCEPT ![f] = "start"] /\ sub' = [sub EXCEPT ![f] = "no"] /\ UNCHANGED <<avail, hot, leased, cold>>
              ELSE IF avail > 0 THEN pc' = [pc EXCEPT ![f] = "disk"] /\ cold' = TRUE /\ sub' = [sub EXCEPT ![f] = "no"] /\ UNCHANGED <<avail, hot, leased>>
              ELSE pc' = [pc EXCEPT ![f] = IF Order = "subscribe_first" THEN "sleep" ELSE "late"] /\ sub' = sub /\ UNCHANGED <<avail, hot, leased, cold>>
           /\ UNCHANGED <<vanished, made>>
DiskDone(f) == /\ pc[f] = "disk" /\ cold' = FALSE
               /\ IF avail > 0 THEN /\ avail' = avail - 1 /\ hot' = (IF hot > avail - 1 THEN avail - 1 ELSE hot) /\ leased' = [leased EXCEPT ![f] = @ + 1] /\ pc' = [pc EXCEPT ![f] = "got"]
                              ELSE pc' = [pc EXCEPT ![f] = "start"] /\ UNCHANGED <<avail, hot, leased>>
               /\ UNCHANGED <<sub, vanished, made>>
WakeUp(f) == /\ pc[f] = "sleep" /\ sub[f] = "woken" /\ pc' = [pc EXCEPT ![f] = "start"] /\ sub' = [sub EXCEPT ![f] = "no"]
             /\ UNCHANGED <<avail, hot, leased, cold, vanished, made>>
Ack(f) == /\ pc[f] = "got" /\ leased' = [leased EXCEPT ![f] = 0] /\ pc' = [pc EXCEPT ![f] = "start"]
          /\ UNCHANGED <<avail, hot, sub, cold, vanished, made>>
\* the fetcher's connection ends; its leases are released
Vanish(f) == /\ pc[f] # "gone" /\ vanished < MaxVanish /\ vanished' = vanished + 1
             /\ pc' = [pc EXCEPT ![f] = "gone"]
             /\ avail' = avail + leased[f] /\ leased' = [leased EXCEPT ![f] = 0]
             /\ cold' = IF Guard /\ pc[f] = "disk" THEN FALSE ELSE cold
             /\ sub' = [Wake(Notify) EXCEPT ![f] = "no"]
             /\ UNCHANGED <<hot, made>>
Next == \/ Publish \/ Evict
        \/ \E f \in F : Subscribe(f) \/ Look(f) \/ LateSub(f) \/ DiskDone(f) \/ WakeUp(f) \/ Ack(f) \/ Vanish(f)
Fair == \A f \in F : WF_vars(Subscribe(f)) /\ WF_vars(Look(f)) /\ WF_vars(LateSub(f)) /\ WF_vars(DiskDone(f)) /\ WF_vars(WakeUp(f)) /\ WF_vars(Ack(f))
Spec == Init /\ [][Next]_vars /\ Fair
\* as long as somebody is there, every message is eventually delivered and settled
Delivered == []( (avail > 0 /\ \E f \in F : pc[f] # "gone") => <>(avail = 0 \/ \A f \in F : pc[f] = "gone") )
\* messages are neither lost nor made up: what exists is available, leased or acknowledged
Inv_Hot == avail >= 0 /\ hot >= 0 /\ hot <= avail
Inv_OneReader == Guard => Cardinality({ f \in F : pc[f] = "disk" }) <= 1
=============================================================================
