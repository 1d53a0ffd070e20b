----------------------------- MODULE QueueTrace -----------------------------
(***************************************************************************)
(* Trace validation for one queue.  A trace is the history of operations a *)
(* driver saw on the real server: each operation spans an interval of      *)
(* steps [c, r]; TLC looks for an order of linearization points, plus      *)
(* silent sweep and persistence steps, that explains every result.         *)
(***************************************************************************)
EXTENDS Queue, Json, IOUtils, TLC

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr,   \* which trace
          s,    \* current step
          done, \* open operations already linearized
          q,    \* the queue
          sv    \* states the queue has had since the last completed flush
vars == <<tr, s, done, q, sv>>

T == Traces[tr]
Step == T.steps[s]
Now == Step.now
Open == { Step.open[i] : i \in 1..Len(Step.open) }
Close == { Step.close[i] : i \in 1..Len(Step.close) }
Durable == T.durable
Sv(S) == IF Durable THEN sv \cup S ELSE sv

Init == /\ tr \in 1..Len(Traces)
        /\ s = 1 /\ done = {} /\ q = NoQueue /\ sv = {NoQueue}

MsgsOf(list) == [i \in 1..Len(list) |-> list[i].m]
\* position check of a page against buckets taken in the given order
RECURSIVE PageOK(_, _, _)
PageOK(bs, off, list) ==   \* entries list[1..] occupy positions off+1.. of the bucket sequence
    IF list = <<>> THEN TRUE
    ELSE IF bs = <<>> THEN FALSE
    ELSE LET n == Cardinality(Head(bs)) IN
         IF off >= n THEN PageOK(Tail(bs), off - n, list)
         ELSE LET k == IF n - off < Len(list) THEN n - off ELSE Len(list) IN
              /\ \A i \in 1..k : list[i] \in Head(bs)
              /\ \A i, j \in 1..k : i # j => list[i] # list[j]
              /\ PageOK(Tail(bs), 0, SubSeq(list, k + 1, Len(list)))
Reverse(x) == [i \in 1..Len(x) |-> x[Len(x) + 1 - i]]
PageLen(total, off, lim) == IF off >= total THEN 0 ELSE IF total - off < lim THEN total - off ELSE lim
\* pending listing of the inspection API: ascending priority, FIFO inside one
RECURSIVE PrioBuckets(_, _)
PrioBuckets(bs, ps) ==
    IF ps = {} THEN <<>>
    ELSE LET p == MinOf(ps)
             OfP(b) == { e \in b : e.p = p }
         IN SelectSeq([i \in 1..Len(bs) |-> OfP(bs[i])], NonEmpty) \o PrioBuckets(bs, ps \ {p})
View1(e) == [m |-> e.m, p |-> e.p, a |-> e.a]
ViewB(bs) == [i \in 1..Len(bs) |-> { View1(e) : e \in bs[i] }]
ViewD(bs) == [i \in 1..Len(bs) |-> { [m |-> e.m, a |-> e.a, rs |-> e.rs] : e \in bs[i] }]
Waiters == { x \in Open : T.ops[x].k = "consume" /\ T.ops[x].w > 0 /\ x \notin Close }

\* Effect(o): the set of <<new queue, states passed through>> an operation may produce
Same == {<<q, {}>>}
To(q2) == {<<q2, {q2}>>}
RECURSIVE Prefixes(_, _, _)
Prefixes(q0, ms, dl) == IF ms = <<>> THEN {}
                        ELSE UNION { {x} \cup Prefixes(x, Tail(ms), dl) : x \in TakeThese(q0, <<Head(ms)>>, dl) }
Effect(o) ==
    CASE o.k = "create"  -> IF o.ok THEN (IF q.ex THEN Same ELSE To(Create(q, o.vt, o.mr))) ELSE {}
      [] o.k = "delete"  -> IF o.ok THEN To(Delete(q)) ELSE IF ~q.ex THEN Same ELSE {}
      [] o.k = "exists"  -> IF o.b = q.ex THEN Same ELSE {}
      [] o.k = "push"    -> IF o.ok THEN (IF q.ex THEN To(Push(q, o.m, o.p)) ELSE {})
                            ELSE (IF q.ex THEN {} ELSE Same)
      [] o.k = "consume" ->
           IF ~o.ok THEN (IF q.ex THEN {} ELSE Same)
           ELSE IF o.ms = <<>>
                THEN IF /\ (~q.ex /\ o.w > 0) \/ q.pend = <<>> \/ o.n = 0
                        /\ o.w = 0 \/ T.steps[o.r].now >= T.steps[o.c].now + o.w
                        /\ q.ex \/ o.w > 0
                     THEN Same ELSE {}
                ELSE IF q.ex /\ Len(o.ms) = BatchSize(q, o.n)
                     THEN { <<q2, {q2} \cup (IF Durable THEN Prefixes(q, o.ms, Now + q.vt) ELSE {})>> : q2 \in TakeThese(q, o.ms, Now + q.vt) }
                     ELSE {}
      [] o.k = "ack"     -> IF o.b THEN (IF Has(q, o.m) THEN To(Remove(q, o.m)) ELSE {})
                            ELSE (IF Has(q, o.m) THEN {} ELSE Same)
      [] o.k = "nack"    -> IF o.b THEN (IF Has(q, o.m) THEN To(Nack(q, o.m, o.rs)) ELSE {})
                            ELSE (IF Has(q, o.m) THEN {} ELSE Same)
      [] o.k = "peek"    -> IF ~o.ok THEN (IF q.ex THEN {} ELSE Same)
                            ELSE IF /\ q.ex /\ o.total = Cardinality(DlqSet(q))
                                    /\ Len(o.list) = PageLen(o.total, o.off, o.lim)
                                    /\ PageOK(Reverse(ViewD(q.dlq)), o.off, o.list) THEN Same ELSE {}
      [] o.k = "move"    -> IF ~o.ok THEN (IF q.ex THEN {} ELSE Same)
                            ELSE IF o.b THEN (IF InDlq(q, o.m) THEN To(Replay(q, o.m)) ELSE {})
                            ELSE (IF q.ex /\ ~InDlq(q, o.m) THEN Same ELSE {})
      [] o.k = "deldlq"  -> IF ~o.ok THEN (IF q.ex THEN {} ELSE Same)
                            ELSE IF o.b THEN (IF InDlq(q, o.m) THEN To(DropDlq(q, o.m)) ELSE {})
                            ELSE (IF q.ex /\ ~InDlq(q, o.m) THEN Same ELSE {})
      [] o.k = "purge"   -> IF ~o.ok THEN (IF q.ex THEN {} ELSE Same)
                            ELSE IF q.ex /\ o.b = Cardinality(DlqSet(q)) THEN To(Purge(q)) ELSE {}
      [] o.k = "sumry"   -> IF ~o.ok THEN (IF q.ex THEN {} ELSE Same)
                            ELSE IF /\ q.ex /\ o.np = Cardinality(PendSet(q)) /\ o.ni = Cardinality(q.infl)
                                    /\ o.nd = Cardinality(DlqSet(q)) /\ o.vt = q.vt /\ o.mr = q.mr THEN Same ELSE {}
      [] o.k = "lpend"   -> IF ~o.ok THEN (IF q.ex THEN {} ELSE Same)
                            ELSE IF /\ q.ex /\ o.total = Cardinality(PendSet(q))
                                    /\ Len(o.list) = PageLen(o.total, o.off, o.lim)
                                    /\ PageOK(PrioBuckets(ViewB(q.pend), { e.p : e \in PendSet(q) }), o.off, o.list) THEN Same ELSE {}
      [] o.k = "linfl"   -> IF ~o.ok THEN (IF q.ex THEN {} ELSE Same)
                            ELSE IF /\ q.ex /\ o.total = Cardinality(q.infl)
                                    /\ Len(o.list) = PageLen(o.total, o.off, o.lim)
                                    /\ PageOK(<<{ View1(e) : e \in q.infl }>>, o.off, o.list) THEN Same ELSE {}
      \* quiet: the driver gave the server ample time: sweeps are done and no
      \* consumer is still waiting while a message is pending
      [] o.k = "quiet"   -> IF Overdue(q, Now) = {} /\ (Waiters \ done # {} => q.pend = <<>> \/ ~q.ex) THEN Same ELSE {}
      [] OTHER           -> {}

Lin == \E x \in Open \ done :
          LET o == T.ops[x] IN
          /\ o.k \notin {"flush", "crash", "reqlost"}
          /\ \E e \in Effect(o) :
                /\ q' = e[1]
                \* creating and deleting a queue is durable when acknowledged
                /\ sv' = IF o.k = "delete" \/ (o.k = "create" /\ ~q.ex) THEN {q'} ELSE Sv(e[2])
          /\ done' = done \cup {x}
          /\ UNCHANGED <<tr, s>>
\* a consume whose connection died: it may have taken messages nobody saw
Lost == \E x \in Open \ done :
          LET o == T.ops[x] IN
          /\ o.k = "reqlost"
          /\ IF o.w = "consume" THEN \E q2 \in TakeAny(q, o.n, Now + q.vt) : q' = q2 /\ q2 # q /\ sv' = Sv(UNION { TakeAny(q, k, Now + q.vt) : k \in 1..o.n })
             ELSE IF o.w = "push" THEN q.ex /\ q' = Push(q, o.m, o.p) /\ sv' = Sv({q'})
             ELSE IF o.w = "ack" THEN Has(q, o.m) /\ q' = Remove(q, o.m) /\ sv' = Sv({q'})
             ELSE IF o.w = "nack" THEN Has(q, o.m) /\ q' = Nack(q, o.m, o.rs) /\ sv' = Sv({q'})
             ELSE IF o.w = "move" THEN InDlq(q, o.m) /\ q' = Replay(q, o.m) /\ sv' = Sv({q'})
             ELSE IF o.w = "deldlq" THEN InDlq(q, o.m) /\ q' = DropDlq(q, o.m) /\ sv' = Sv({q'})
             ELSE IF o.w = "purge" THEN q.ex /\ q' = Purge(q) /\ sv' = Sv({q'})
             ELSE IF o.w = "create" THEN q' = Create(q, o.vt, o.mr) /\ sv' = Sv({q'})
             ELSE IF o.w = "delete" THEN q' = Delete(q) /\ sv' = Sv({q'})
             ELSE FALSE
          /\ done' = done \cup {x}
          /\ UNCHANGED <<tr, s>>
Sweep == /\ Due(q, Now) # {}
         /\ q' = Expire(q, Now)
         /\ sv' = Sv(IF Durable THEN { ExpireSome(q, D) : D \in SUBSET Due(q, Now) } ELSE {})
         /\ UNCHANGED <<tr, s, done>>
Flush == \E x \in Open \ done :
          /\ T.ops[x].k = "flush"
          /\ sv' = {q} /\ done' = done \cup {x} /\ UNCHANGED <<tr, s, q>>
Crash == \E x \in Open \ done :
          /\ T.ops[x].k = "crash"
          /\ \E v \in sv : q' \in Recover(v, Now)
          /\ sv' = {q'}
          /\ done' = done \cup {x} /\ UNCHANGED <<tr, s>>
Verbose == IOEnv.VERBOSE = "1"
Adv == /\ s < Len(T.steps) /\ Close \subseteq done
       /\ Verbose => PrintT(<<"STP", tr, s, q>>)
       /\ s' = s + 1
       /\ done' = done \cap { T.steps[s + 1].open[i] : i \in 1..Len(T.steps[s + 1].open) }
       /\ UNCHANGED <<tr, q, sv>>
Accept == /\ s = Len(T.steps) /\ Close \subseteq done
          /\ PrintT(<<"ACC", tr>>) /\ TLCSet(tr, 1)
          /\ s' = s + 1 /\ UNCHANGED <<tr, done, q, sv>>
\* one explanation per trace is enough (register tr is set once it is found; needs one worker)
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, 0)
Next == /\ s <= Len(T.steps) /\ TLCGet(tr) = 0
        /\ (Lin \/ Lost \/ Sweep \/ Flush \/ Crash \/ Adv \/ Accept)
Spec == Init /\ [][Next]_vars

\* invariants evaluated on every state of every explanation of every trace
Inv == q.ex => OnePlace(q)
=============================================================================
