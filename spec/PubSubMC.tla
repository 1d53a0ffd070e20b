------------------------------ MODULE PubSubMC ------------------------------
(* The pub/sub broker as a state machine with small constants: the source of *)
(* the test walks, and the place where the guarantees are checked.           *)
EXTENDS PubSub, TLC
CONSTANTS Clients, Topics, Patterns, MaxPub, TTL, MaxNow, MaxLife
\* a .cfg cannot write sequences: topics and patterns are named here
Seq_(x) == CASE x = "a" -> <<"a">> [] x = "b" -> <<"b">> [] x = "ab" -> <<"a", "b">> [] x = "abc" -> <<"a", "b", "c">>
             [] x = "#" -> <<"#">> [] x = "+" -> <<"+">> [] x = "a+" -> <<"a", "+">> [] x = "a#" -> <<"a", "#">>
             [] x = "+b" -> <<"+", "b">> [] x = "+#" -> <<"+", "#">> [] x = "a#b" -> <<"a", "#", "b">> [] x = "" -> <<"">> [] x = "/a" -> <<"", "a">>
VARIABLES b, now, n, life, act,
          recv,   \* client -> set of [m, t, k] received
          must,   \* history: [m, t, c] that had to be received: c was subscribed when m was published
          val     \* history: topic -> message last retained and not cleared, or 0
vars == <<b, now, n, life, act, recv, must, val>>
view == <<b, now, n, life, recv, must, val>>
viewg == <<b, now, n, life, act>>
Init == /\ b = NoPubSub /\ now = 0 /\ n = 0 /\ life = 0 /\ act = <<>> /\ must = {}
        /\ recv = [c \in Clients |-> {}] /\ val = [t \in Topics |-> 0]
\* everything on its way arrives
Deliver(b2) == /\ recv' = [c \in Clients |-> recv[c] \cup { [m |-> d.m, t |-> d.t, k |-> d.k] : d \in { d \in b2.pend : d.c = c } }]
               /\ b' = [b2 EXCEPT !.pend = {}]
DoSub(c, p) == /\ Deliver(Subscribe(b, c, Seq_(p), 0, Due(b, Seq_(p), now)))
               /\ act' = <<"sub", c, p>> /\ UNCHANGED <<now, n, life, must, val>>
DoUnsub(c, p) == /\ [c |-> c, p |-> Seq_(p)] \in b.subs
                 /\ Deliver(Unsubscribe(b, c, Seq_(p))) /\ act' = <<"unsub", c, p>> /\ UNCHANGED <<now, n, life, must, val>>
DoPub(t, k) ==    \* k: 0 not retained, 1 retained, 2 retained with a short life, 3 clears
    /\ n < MaxPub /\ n' = n + 1
    /\ LET b1 == IF k = 0 THEN b ELSE IF k = 3 THEN Clear(b, Seq_(t)) ELSE Retain(b, Seq_(t), n + 1, now + IF k = 2 THEN TTL ELSE 1000)
       IN /\ Deliver(Send(b1, Seq_(t), n + 1, n + 1))
          /\ must' = must \cup { [m |-> n + 1, t |-> Seq_(t), c |-> c] : c \in { c \in Clients : \E x \in b.subs : x.c = c /\ Matches(x.p, Seq_(t)) } }
    /\ val' = IF k = 0 THEN val ELSE [val EXCEPT ![t] = IF k = 3 THEN 0 ELSE n + 1]
    /\ act' = <<"pub", t, k>> /\ UNCHANGED <<now, life>>
DoGone(c) == /\ life < MaxLife /\ life' = life + 1
             /\ \E x \in b.subs : x.c = c
             /\ Deliver(Gone(b, c)) /\ act' = <<"gone", c>> /\ UNCHANGED <<now, n, must, val>>
Tick == now < MaxNow /\ now' = now + 1 /\ act' = <<"tick">> /\ UNCHANGED <<b, n, life, recv, must, val>>
Next == \/ \E c \in Clients : (\E p \in Patterns : DoSub(c, p) \/ DoUnsub(c, p)) \/ DoGone(c)
        \/ \E t \in Topics : \E k \in 0..3 : DoPub(t, k)
        \/ Tick
Spec == Init /\ [][Next]_vars
\* P01: live copies went to exactly those that were subscribed
Inv_Exact == \A c \in Clients : { [m |-> r.m, t |-> r.t] : r \in { r \in recv[c] : r.k = "live" } } = { [m |-> d.m, t |-> d.t] : d \in { d \in must : d.c = c } }
\* P03: retained copies are the latest value of their topic, within its life
Inv_Retained == \A r \in b.ret : \E t \in Topics : r.t = Seq_(t) /\ r.m = val[t]
Act_Latest == [][ act'[1] = "sub" => \A t \in Topics :
      LET c == act'[2]
          new == { r \in recv'[c] \ recv[c] : r.k = "ret" /\ r.t = Seq_(t) }
      IN /\ \A r \in new : r.m = val[t] /\ \E x \in b.ret : x.m = r.m /\ now < x.lo
         /\ (Matches(Seq_(act'[3]), Seq_(t)) /\ \E x \in b.ret : x.t = Seq_(t) /\ now < x.lo) => \E r \in recv'[c] : r.k = "ret" /\ r.t = Seq_(t) /\ r.m = val[t] ]_vars
\* P05: nothing of a client that is gone remains
Act_Gone == [][ act'[1] = "gone" => ~(\E x \in b'.subs : x.c = act'[2]) /\ { x \in b.subs : x.c # act'[2] } = b'.subs /\ b'.ret = b.ret ]_vars
\* '#' is "any number of levels including none", '+' exactly one: the textbook definition
Def(p, t) == \/ Len(p) = Len(t) /\ \A i \in 1..Len(p) : p[i] \in {"+", t[i]}
             \/ \E i \in 1..Len(p) : p[i] = "#" /\ Len(t) >= i - 1 /\ \A j \in 1..i-1 : p[j] # "#" /\ p[j] \in {"+", t[j]}
ASSUME \A p \in Patterns, t \in Topics : Matches(Seq_(p), Seq_(t)) <=> Def(Seq_(p), Seq_(t))
=============================================================================
