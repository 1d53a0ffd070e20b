------------------------------- MODULE PubSub -------------------------------
(***************************************************************************)
(* The pub/sub broker of nexo: subscriptions, retained values, and what is *)
(* on its way to each client.  PubSubMC gives these operators to TLC as a  *)
(* state machine; PubSubTrace validates executions of the real server.     *)
(*                                                                         *)
(*   subs   set of [c, p]: client c subscribed to pattern p                *)
(*   ret    set of [t, m, lo, hi]: topic t retains message m; it is alive  *)
(*          before lo, gone after hi (lo = hi except after a restart,      *)
(*          where deadlines come back to the second)                       *)
(*   pend   set of [c, x, m, t, k]: message m of topic t on its way to     *)
(*          client c, sent by operation x, live or retained (k)            *)
(* Topics and patterns are sequences of levels.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* does pattern p match topic t?  What follows a '#' level does not count.
RECURSIVE Matches(_, _)
Matches(p, t) ==
    IF p = <<>> THEN t = <<>>
    ELSE IF Head(p) = "#" THEN TRUE
    ELSE IF t = <<>> THEN FALSE
    ELSE (Head(p) = "+" \/ Head(p) = Head(t)) /\ Matches(Tail(p), Tail(t))
\* the part of a pattern that takes part in matching
RECURSIVE Eff(_)
Eff(p) == IF p = <<>> THEN <<>> ELSE IF Head(p) = "#" THEN <<"#">> ELSE <<Head(p)>> \o Eff(Tail(p))

NoPubSub == [subs |-> {}, ret |-> {}, pend |-> {}]

Retained(b, t) == { r \in b.ret : r.t = t }
Alive(r, now) == now <= r.hi        \* may still be seen
Sure(r, now) == now < r.lo          \* must be seen

Subscribe(b, c, p, x, got) ==       \* got: the retained values that are delivered
    [b EXCEPT !.subs = @ \cup {[c |-> c, p |-> p]},
              !.pend = @ \cup { [c |-> c, x |-> x, m |-> r.m, t |-> r.t, k |-> "ret"] : r \in got }]
Due(b, p, now) == { r \in b.ret : Matches(p, r.t) /\ Sure(r, now) }
MayBe(b, p, now) == { r \in b.ret : Matches(p, r.t) /\ ~Sure(r, now) /\ Alive(r, now) }
Unsubscribe(b, c, p) == [b EXCEPT !.subs = @ \ {[c |-> c, p |-> p]}]
Retain(b, t, m, dl) == [b EXCEPT !.ret = (@ \ Retained(b, t)) \cup {[t |-> t, m |-> m, lo |-> dl, hi |-> dl]}]
Clear(b, t) == [b EXCEPT !.ret = @ \ Retained(b, t)]
Targets(b, t) == { s.c : s \in { s \in b.subs : Matches(s.p, t) } }
Send(b, t, m, x) == [b EXCEPT !.pend = @ \cup { [c |-> c, x |-> x, m |-> m, t |-> t, k |-> "live"] : c \in Targets(b, t) }]
Gone(b, c) == [b EXCEPT !.subs = { s \in @ : s.c # c }, !.pend = { d \in @ : d.c # c }]
=============================================================================
