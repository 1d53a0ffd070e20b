------------------------------- MODULE Queue -------------------------------
(***************************************************************************)
(* One durable work queue of nexo: the state of a queue and the effect of  *)
(* every operation on it, as operators over a state record.  QueueMC gives *)
(* them to TLC as a state machine with small constants; QueueTrace uses    *)
(* the same operators to validate executions of the real server.           *)
(*                                                                         *)
(* A queue is a record                                                     *)
(*   ex    does the queue exist                                            *)
(*   vt,mr visibility timeout, maximum number of failed deliveries         *)
(*   pend  pending messages: a sequence of buckets (sets).  Messages of    *)
(*         one bucket became pending together (one sweep), so their mutual *)
(*         order is left open; buckets are in FIFO order.                  *)
(*   infl  in-flight messages with the deadline dl of their lease          *)
(*   dlq   dead letters: a sequence of buckets, oldest failure first       *)
(*   nx    next storage row number                                         *)
(* A message entry has identity m, priority p, attempts a, row n.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

NoQueue == [ex |-> FALSE, vt |-> 0, mr |-> 0, pend |-> <<>>, infl |-> {}, dlq |-> <<>>, nx |-> 1]

ElemsOf(bs) == UNION { bs[i] : i \in 1..Len(bs) }
PendSet(q) == ElemsOf(q.pend)
DlqSet(q) == ElemsOf(q.dlq)
Ids(S) == { e.m : e \in S }
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
NonEmpty(b) == b # {}
AddBucket(bs, b) == IF b = {} THEN bs ELSE Append(bs, b)
DropFrom(bs, e) == SelectSeq([i \in 1..Len(bs) |-> bs[i] \ {e}], NonEmpty)
\* sort a set of entries by row number into singleton buckets
RECURSIVE ByRow(_)
ByRow(S) == IF S = {} THEN <<>>
            ELSE LET e == CHOOSE x \in S : \A y \in S : x.n <= y.n
                 IN <<{e}>> \o ByRow(S \ {e})

-----------------------------------------------------------------------------
(* Operations                                                               *)

Create(q, vt, mr) == IF q.ex THEN q ELSE [NoQueue EXCEPT !.ex = TRUE, !.vt = vt, !.mr = mr]
Delete(q) == NoQueue
Push(q, m, p) == [q EXCEPT !.pend = Append(@, {[m |-> m, p |-> p, a |-> 0, n |-> q.nx]}), !.nx = @ + 1]

\* what a consume must hand out next: highest priority, then FIFO bucket
Best(q) == IF q.pend = <<>> THEN {}
           ELSE LET top == MaxOf({ e.p : e \in PendSet(q) })
                    i   == MinOf({ j \in 1..Len(q.pend) : \E e \in q.pend[j] : e.p = top })
                IN { e \in q.pend[i] : e.p = top }
TakeOne(q, e, dl) == [q EXCEPT !.pend = DropFrom(@, e),
                               !.infl = @ \cup {[m |-> e.m, p |-> e.p, a |-> e.a + 1, n |-> e.n, dl |-> dl]}]
\* hand out exactly the messages ms in this order (a set: empty if that is not allowed)
RECURSIVE TakeThese(_, _, _)
TakeThese(q, ms, dl) ==
    IF ms = <<>> THEN {q}
    ELSE LET c == { e \in Best(q) : e.m = Head(ms) }
         IN IF c = {} THEN {} ELSE TakeThese(TakeOne(q, CHOOSE e \in c : TRUE, dl), Tail(ms), dl)
\* every way to hand out n messages
RECURSIVE TakeAny(_, _, _)
TakeAny(q, n, dl) ==
    IF n = 0 \/ q.pend = <<>> THEN {q}
    ELSE UNION { TakeAny(TakeOne(q, e, dl), n - 1, dl) : e \in Best(q) }
BatchSize(q, n) == LET k == Cardinality(PendSet(q)) IN IF n < k THEN n ELSE k

Has(q, m) == m \in Ids(PendSet(q)) \cup Ids(q.infl)
Remove(q, m) == [q EXCEPT !.pend = LET es == { e \in PendSet(q) : e.m = m }
                                   IN IF es = {} THEN @ ELSE DropFrom(@, CHOOSE e \in es : TRUE),
                          !.infl = { e \in @ : e.m # m }]
Entry(q, m) == CHOOSE e \in PendSet(q) \cup q.infl : e.m = m
Ready(e) == [m |-> e.m, p |-> e.p, a |-> e.a, n |-> e.n]
Dead(e, rs) == [m |-> e.m, p |-> e.p, a |-> e.a, n |-> e.n, rs |-> rs]
Nack(q, m, rs) ==
    LET e == Entry(q, m) IN
    IF e.a >= q.mr THEN [Remove(q, m) EXCEPT !.dlq = Append(@, {Dead(e, rs)})]
    ELSE IF m \in Ids(q.infl) THEN [Remove(q, m) EXCEPT !.pend = Append(@, {Ready(e)})]
    ELSE q     \* already pending: keeps its place
InDlq(q, m) == m \in Ids(DlqSet(q))
DropDlq(q, m) == [q EXCEPT !.dlq = DropFrom(@, CHOOSE e \in DlqSet(q) : e.m = m)]
Replay(q, m) == LET e == CHOOSE x \in DlqSet(q) : x.m = m
                IN [DropDlq(q, m) EXCEPT !.pend = Append(@, {[m |-> m, p |-> e.p, a |-> 0, n |-> q.nx]}), !.nx = @ + 1]
Purge(q) == [q EXCEPT !.dlq = <<>>]

-----------------------------------------------------------------------------
(* Time                                                                     *)
Due(q, now) == { e \in q.infl : e.dl <= now }
\* the sweep, over a subset D of the due leases
ExpireSome(q, D) ==
    [q EXCEPT !.infl = @ \ D,
              !.pend = AddBucket(@, { Ready(e) : e \in { x \in D : x.a < q.mr } }),
              !.dlq  = AddBucket(@, { Dead(e, "timeout") : e \in { x \in D : x.a >= q.mr } })]
Expire(q, now) == ExpireSome(q, Due(q, now))
Overdue(q, now) == { e \in q.infl : e.dl < now }

-----------------------------------------------------------------------------
(* Restart.  Storage keeps rows in insertion order and the lease deadline;  *)
(* a lease that ran out while the server was down ends like any other, at   *)
(* once or at the first sweep.  Both orders a reasonable implementation may *)
(* come back with are allowed for messages that were requeued: row order,   *)
(* and the order they were pending in.                                      *)
Recover(q, now) ==
    IF ~q.ex THEN {q}
    ELSE LET over == { e \in Due(q, now) : e.a < q.mr }
             back == { Ready(e) : e \in over }
         IN { q, [q EXCEPT !.pend = ByRow(PendSet(q))],
              Expire(q, now),
              [q EXCEPT !.pend = ByRow(PendSet(q) \cup back), !.infl = @ \ over] }

-----------------------------------------------------------------------------
(* State predicates                                                         *)
OnePlace(q) ==
    /\ Cardinality(PendSet(q)) = Cardinality(Ids(PendSet(q)))
    /\ Cardinality(q.infl) = Cardinality(Ids(q.infl))
    /\ Cardinality(DlqSet(q)) = Cardinality(Ids(DlqSet(q)))
    /\ Ids(PendSet(q)) \cap Ids(q.infl) = {}
    /\ Ids(PendSet(q)) \cap Ids(DlqSet(q)) = {}
    /\ Ids(q.infl) \cap Ids(DlqSet(q)) = {}
AllIds(q) == Ids(PendSet(q)) \cup Ids(q.infl) \cup Ids(DlqSet(q))
=============================================================================
