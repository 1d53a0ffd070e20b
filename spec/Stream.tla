------------------------------- MODULE Stream -------------------------------
(***************************************************************************)
(* One stream topic of nexo with its consumer groups: the state and the    *)
(* effect of every operation, as operators over a record.  StreamMC gives  *)
(* them to TLC with small constants; StreamTrace validates executions of   *)
(* the real server with the same operators.                                *)
(*                                                                         *)
(* A topic is a record                                                     *)
(*   ex    does it exist                                                   *)
(*   log   every message ever published, log[s] = [m, ts, z]: identity,    *)
(*         timestamp and stored size of the message with sequence s        *)
(*   head  oldest retained sequence number                                 *)
(*   age, max  retention limits, 0 = none                                  *)
(*   g     the consumer groups, a function from group names to records     *)
(*     next  the next sequence number never delivered to the group         *)
(*     pend  leases: [s, c, k, dl] sequence, consumer, delivery count,     *)
(*           deadline                                                      *)
(*     red   released messages waiting to be delivered again: [s, k]       *)
(*     gen   generation, mem members [c, conn]                             *)
(* Everything below next that is neither leased nor released is settled:   *)
(* acknowledged, or given up after the last delivery.                      *)
(* P = [aw, md, mp]: ack wait, delivery limit, bound on pending messages.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

NoTopic == [ex |-> FALSE, log |-> <<>>, head |-> 1, age |-> 0, max |-> 0, g |-> <<>>]
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Greatest(S) == CHOOSE x \in S : \A y \in S : x >= y
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Last(t) == Len(t.log)
Seqs(S) == { e.s : e \in S }
Unsettled(g) == Seqs(g.pend) \cup Seqs(g.red)
\* the acknowledged position: everything up to it is settled
Floor(g) == IF Unsettled(g) = {} THEN g.next - 1 ELSE Least(Unsettled(g)) - 1
Floors(t) == [x \in DOMAIN t.g |-> Floor(t.g[x])]
GroupAt(n) == [next |-> n, pend |-> {}, red |-> {}, gen |-> 1, mem |-> {}]
HasG(t, x) == x \in DOMAIN t.g
SetG(t, x, r) == [t EXCEPT !.g = [y \in DOMAIN @ \cup {x} |-> IF y = x THEN r ELSE @[y]]]
IsMember(g, c) == \E e \in g.mem : e.c = c
Valid(t, x, c, gen) == t.ex /\ HasG(t, x) /\ t.g[x].gen = gen /\ IsMember(t.g[x], c)

-----------------------------------------------------------------------------
(* Operations                                                               *)
TCreate(t, age, max) == IF t.ex THEN t ELSE [NoTopic EXCEPT !.ex = TRUE, !.age = age, !.max = max]
TDelete(t) == NoTopic
Publish(t, m, ts, z) == [t EXCEPT !.log = Append(@, [m |-> m, ts |-> ts, z |-> z])]
Join(t, x, c, conn) ==
    LET g == IF HasG(t, x) THEN t.g[x] ELSE GroupAt(t.head)
    IN SetG(t, x, [g EXCEPT !.mem = @ \cup {[c |-> c, conn |-> conn]}])

Deliverable(t, g) == Seqs(g.red) \cup (IF g.next <= Last(t) THEN {g.next} ELSE {})
Backpressured(g, P) == Cardinality(g.pend) >= P.mp
\* hand one message out, to consumer c
CanDeliver(t, g, s, P) == s \in Deliverable(t, g) /\ ~Backpressured(g, P)
DeliverOne(g, c, s, dl) ==
    IF s \in Seqs(g.red)
    THEN LET e == CHOOSE r \in g.red : r.s = s
         IN [g EXCEPT !.red = @ \ {e}, !.pend = @ \cup {[s |-> s, c |-> c, k |-> e.k + 1, dl |-> dl]}]
    ELSE [g EXCEPT !.next = s + 1, !.pend = @ \cup {[s |-> s, c |-> c, k |-> 1, dl |-> dl]}]
\* hand out exactly these sequence numbers in this order (a set: empty if not allowed)
RECURSIVE DeliverThese(_, _, _, _, _, _)
DeliverThese(t, g, c, ss, dl, P) ==
    IF ss = <<>> THEN {g}
    ELSE IF CanDeliver(t, g, Head(ss), P)
         THEN DeliverThese(t, DeliverOne(g, c, Head(ss), dl), c, Tail(ss), dl, P) ELSE {}
\* every way of handing out at most n messages
RECURSIVE DeliverAny(_, _, _, _, _, _)
DeliverAny(t, g, c, n, dl, P) ==
    IF n = 0 \/ Deliverable(t, g) = {} \/ Backpressured(g, P) THEN {g}
    ELSE {g} \cup UNION { DeliverAny(t, DeliverOne(g, c, s, dl), c, n - 1, dl, P) : s \in Deliverable(t, g) }

Owns(g, c, s) == \E e \in g.pend : e.s = s /\ e.c = c
AckG(g, s) == [g EXCEPT !.pend = { e \in @ : e.s # s }]
\* leases end without an ack: released, or settled when that was the last delivery
Release(g, S, P) == [g EXCEPT !.pend = @ \ S, !.red = @ \cup { [s |-> e.s, k |-> e.k] : e \in { f \in S : f.k < P.md } }]
LeaveG(g, c, P) == [Release(g, { e \in g.pend : e.c = c }, P) EXCEPT !.mem = { e \in @ : e.c # c }]
RECURSIVE LeaveAll(_, _, _)
LeaveAll(g, cs, P) == IF cs = {} THEN g ELSE LET c == CHOOSE x \in cs : TRUE IN LeaveAll(LeaveG(g, c, P), cs \ {c}, P)
Disconnect(t, conn, P) ==
    [t EXCEPT !.g = [x \in DOMAIN @ |-> LeaveAll(@[x], { e.c : e \in { f \in @[x].mem : f.conn = conn } }, P)]]
\* to: 0 the oldest retained message, 1 the end
Seek(t, x, to) ==
    LET gen == IF HasG(t, x) THEN t.g[x].gen ELSE 1
    IN SetG(t, x, [GroupAt(IF to = 0 THEN t.head ELSE Last(t) + 1) EXCEPT !.gen = gen + 1])

-----------------------------------------------------------------------------
(* Time                                                                     *)
DueL(g, now) == { e \in g.pend : e.dl < now }
DueE(g, now) == { e \in g.pend : e.dl <= now }
Late(g, now, slack) == \E e \in g.pend : e.dl + slack < now

-----------------------------------------------------------------------------
(* Retention                                                                *)
ClampG(g, h) == [g EXCEPT !.pend = { e \in @ : e.s >= h }, !.red = { e \in @ : e.s >= h }, !.next = Max2(@, h)]
Retain(t, h) == [t EXCEPT !.head = h, !.g = [x \in DOMAIN @ |-> ClampG(@[x], h)]]
RECURSIVE Bytes(_, _)
Bytes(log, a) == IF a > Len(log) THEN 0 ELSE log[a].z + Bytes(log, a + 1)
\* may everything below h go?  by size: the oldest part goes only while the rest with it exceeds the
\* limit, and a part is at most seg bytes (or one message); by age: everything that goes is too old
SizeDue(t, h, seg) == t.max > 0 /\ Bytes(t.log, t.head) > t.max /\ Bytes(t.log, h) + Max2(seg, t.log[h - 1].z) > t.max
AgeDue(t, h, now) == t.age > 0 /\ \A s \in t.head..(h - 1) : t.log[s].ts + t.age <= now
\* the parts that are too old go first, then the size limit is applied to what is left
Heads(t, now, seg) ==
    LET aged == { h \in t.head + 1 .. Last(t) : AgeDue(t, h, now) }
        sized(tt) == { h \in tt.head + 1 .. Last(tt) : SizeDue(tt, h, seg) }
    IN aged \cup sized(t) \cup UNION { sized([t EXCEPT !.head = h]) : h \in aged }
Enforced(t, seg) == \/ t.max = 0 \/ ~t.ex
                    \/ Bytes(t.log, t.head) <= Max2(t.max, seg) \/ t.head >= Last(t)

\* a message cannot outlive its age once its part has been closed and all of it is too old
PartEnd(t, a, seg) == Greatest({ e \in a..Last(t) : e = a \/ Bytes(t.log, a) - Bytes(t.log, e + 1) <= seg })
AgeEnforced(t, now, seg) ==
    (t.ex /\ t.age > 0 /\ t.head <= Last(t)) =>
        LET e == PartEnd(t, t.head, seg) IN e = Last(t) \/ t.log[e].ts + t.age >= now

-----------------------------------------------------------------------------
(* Restart: a prefix of the log of length k, group positions as in fl       *)
Recovered(t, k, fl) ==
    IF ~t.ex THEN NoTopic
    ELSE [t EXCEPT !.log = SubSeq(@, 1, k),
                   !.g = [x \in DOMAIN fl |-> GroupAt(Max2(t.head, Min2(fl[x], k) + 1))]]

-----------------------------------------------------------------------------
(* State predicates                                                         *)
OneHolder(g) == /\ Cardinality(g.pend) = Cardinality(Seqs(g.pend))
                /\ Cardinality(g.red) = Cardinality(Seqs(g.red))
                /\ Seqs(g.pend) \cap Seqs(g.red) = {}
                /\ \A e \in g.pend : IsMember(g, e.c)
Bounded(g, P) == /\ \A e \in g.pend : e.k <= P.md
                 /\ \A e \in g.red : e.k < P.md
                 /\ Cardinality(g.pend) <= P.mp
InRange(t, g) == /\ g.next >= t.head /\ g.next <= Last(t) + 1
                 /\ \A s \in Unsettled(g) : s >= t.head /\ s < g.next
TopicOK(t, P) == t.ex => /\ t.head >= 1 /\ t.head <= Last(t) + 1
                         /\ \A x \in DOMAIN t.g : OneHolder(t.g[x]) /\ Bounded(t.g[x], P) /\ InRange(t, t.g[x])
=============================================================================
