---------------------------- MODULE PubSubTrace ----------------------------
(***************************************************************************)
(* Trace validation for pub/sub.  The driver recorded operations with      *)
(* their intervals and, per client, the sequence of messages received.     *)
(* TLC looks for linearization points: a publish sets its retained value   *)
(* and then is matched against the subscriptions, in that order, each at   *)
(* one instant; every copy it sends is on the client's way before the      *)
(* publish is acknowledged.                                                *)
(***************************************************************************)
EXTENDS PubSub, Json, IOUtils, TLC

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, s, done,
          half,  \* publishes that have set their retained value but are not matched yet
          b,     \* the broker
          ptr,   \* how much of each client's sequence is explained
          dead,  \* clients that are gone
          hist,  \* retained values since the last completed flush: set of [t, m, lo, hi]
          must   \* topics that had a retained value at all times since the last flush
vars == <<tr, s, done, half, b, ptr, dead, hist, must>>

T == Traces[tr]
Step == T.steps[s]
Now == Step.now
Open == { Step.open[i] : i \in 1..Len(Step.open) }
Close == { Step.close[i] : i \in 1..Len(Step.close) }
Clients == { T.clients[i] : i \in 1..Len(T.clients) }
Range(x) == { x[i] : i \in 1..Len(x) }

Init == /\ tr \in 1..Len(Traces)
        /\ s = 1 /\ done = {} /\ half = {} /\ b = NoPubSub /\ dead = {} /\ hist = {} /\ must = {}
        /\ ptr = [c \in { Traces[tr].clients[i] : i \in 1..Len(Traces[tr].clients) } |-> 0]

\* hand over as much as possible: the next message of a client is explained by
\* a copy that is on its way, the one that has to arrive soonest
Earliest(S) == CHOOSE d \in S : \A e \in S : T.ops[d.x].r <= T.ops[e.x].r
RECURSIVE Settle(_, _, _)
Settle(pend, pt, cs) ==
    IF cs = {} THEN <<pend, pt>>
    ELSE LET c == CHOOSE x \in cs : TRUE IN
         IF pt[c] >= Len(T.rx[c]) THEN Settle(pend, pt, cs \ {c})
         ELSE LET nx == T.rx[c][pt[c] + 1]
                  S == { d \in pend : d.c = c /\ d.m = nx.m /\ d.t = nx.t }
              IN IF S = {} THEN Settle(pend, pt, cs \ {c})
                 ELSE Settle(pend \ {Earliest(S)}, [pt EXCEPT ![c] = @ + 1], cs)
\* only the clients a step sent something to can make progress
Post(b2) == LET r == Settle(b2.pend, ptr, { d.c : d \in b2.pend })
            IN b' = [b2 EXCEPT !.pend = r[1]] /\ ptr' = r[2]
\* a client that goes away may miss what was sent to it last
Leavers == { T.leavers[i] : i \in 1..Len(T.leavers) }
Owes(x) == \E d \in b.pend : d.x = x /\ ~(d.c \in Leavers /\ ptr[d.c] = Len(T.rx[d.c]))

Same(b2) == UNCHANGED <<hist, must, dead, half>> /\ Post(b2)
\* what the listing of the inspection API must contain
Wild(p) == \E i \in 1..Len(p) : p[i] \in {"+", "#"}
Listed == { Eff(x.p) : x \in b.subs } \cup { r.t : r \in { r \in b.ret : Alive(r, Now) } }
SubCount(p) == Cardinality({ x.c : x \in { x \in b.subs : Eff(x.p) = p } })
RetOk(p, m) == IF m = "" THEN ~\E r \in b.ret : r.t = p /\ Sure(r, Now)
               ELSE \E r \in b.ret : r.t = p /\ r.m = m /\ Alive(r, Now)
ItemOk(e) == e.n = SubCount(e.t) /\ RetOk(e.t, e.m) /\ (e.n > 0 \/ e.m # "")
MustList == { Eff(x.p) : x \in b.subs } \cup { r.t : r \in { r \in b.ret : Sure(r, Now) } }

Lin(x) ==
    LET o == T.ops[x] IN
    CASE o.k = "sub" ->
           /\ o.ok = o.good
           /\ IF ~o.good \/ o.cl \in dead THEN Same(b)
              ELSE \E X \in SUBSET MayBe(b, o.p, Now) : Same(Subscribe(b, o.cl, o.p, x, Due(b, o.p, Now) \cup X))
      [] o.k = "unsub" -> o.ok = o.good /\ Same(IF o.good THEN Unsubscribe(b, o.cl, o.p) ELSE b)
      [] o.k = "pub" ->
           /\ o.ok = o.good
           /\ IF ~o.good THEN Same(b)
              ELSE /\ x \in half \/ ~o.ret
                   /\ Same(Send(b, o.t, o.m, x))
      [] o.k = "gone" -> /\ ptr[o.cl] = Len(T.rx[o.cl])      \* what it received was sent before
                         /\ Post(Gone(b, o.cl))
                         /\ dead' = dead \cup {o.cl} /\ UNCHANGED <<hist, must, half>>
      \* quiet: the driver gave the server ample time; everything sent has arrived, nothing else has
      [] o.k = "quiet" ->
           /\ \A i \in 1..Len(o.n) : o.n[i].c \in dead \/ (ptr[o.n[i].c] = o.n[i].n /\ ~\E d \in b.pend : d.c = o.n[i].c)
           /\ Same(b)
      [] o.k = "list" ->
           /\ \A i \in 1..Len(o.items) : ItemOk(o.items[i])
           /\ \A i, j \in 1..Len(o.items) : i < j => o.items[i].t # o.items[j].t
           /\ LET got == { o.items[i].t : i \in 1..Len(o.items) } IN got \subseteq Listed /\ MustList \subseteq got
           /\ o.total = Len(o.items)
           \* clients appear under names of the server's choosing
           /\ LET WildOf(c) == { y.p : y \in { y \in b.subs : y.c = c /\ Wild(y.p) } }
                  PatsOf(id) == { e.p : e \in { e \in Range(o.wild) : e.c = id } }
                  cs == { y.c : y \in { y \in b.subs : Wild(y.p) } }
                  ids == { e.c : e \in Range(o.wild) }
              IN /\ \A P \in { WildOf(c) : c \in cs } \cup { PatsOf(i) : i \in ids } :
                       Cardinality({ c \in cs : WildOf(c) = P }) = Cardinality({ i \in ids : PatsOf(i) = P })
                 /\ Len(o.wild) = Cardinality(Range(o.wild))
           /\ o.active = -1 \/ o.active = Cardinality(Range(o.conn) \ dead)
           /\ Same(b)
      [] OTHER -> FALSE
LinAny == \E x \in Open \ done : Lin(x) /\ done' = done \cup {x} /\ UNCHANGED <<tr, s>>
\* the first half of a retained publish
RetainStep ==
    \E x \in Open \ (done \cup half) :
       LET o == T.ops[x] IN
       /\ o.k \in {"pub", "lostpub"} /\ o.ret /\ o.good
       /\ half' = half \cup {x} /\ ptr' = ptr
       /\ IF o.empty THEN /\ b' = Clear(b, o.t) /\ must' = must \ {o.t} /\ hist' = hist
          ELSE LET dl == Now + 1000 * o.ttl IN
               /\ b' = Retain(b, o.t, o.m, dl)
               /\ hist' = hist \cup {[t |-> o.t, m |-> o.m, lo |-> dl, hi |-> dl]}
               /\ must' = must
       /\ UNCHANGED <<tr, s, done, dead>>
\* a request whose connection died may have taken effect
Lost == \E x \in Open \ done :
       LET o == T.ops[x] IN
       /\ o.k \in {"lostpub", "lostsub", "lostunsub"} /\ o.good
       /\ done' = done \cup {x} /\ UNCHANGED <<tr, s>>
       /\ CASE o.k = "lostpub" -> (x \in half \/ ~o.ret) /\ Same(Send(b, o.t, o.m, x))
            [] o.cl \in dead -> FALSE
            [] o.k = "lostsub" -> \E X \in SUBSET MayBe(b, o.p, Now) : Same(Subscribe(b, o.cl, o.p, x, Due(b, o.p, Now) \cup X))
            [] OTHER -> Same(Unsubscribe(b, o.cl, o.p))
Flush == \E x \in Open \ done :
       /\ T.ops[x].k = "flush"
       /\ hist' = b.ret /\ must' = { r.t : r \in b.ret }
       /\ done' = done \cup {x} /\ UNCHANGED <<tr, s, half, b, ptr, dead>>
\* a restart: every topic comes back with a value it had since the last flush;
\* whole-second deadlines may move a value's end by less than a second
Second == 999
Crash == \E x \in Open \ done :
       LET o == T.ops[x]
           got == Range(o.got)
           wide(r) == [r EXCEPT !.lo = @ - Second, !.hi = @ + Second]
           from(g) == { r \in hist : r.t = g.t /\ r.m = g.m /\ Alive(wide(r), Now) }
           topics == { r.t : r \in hist } \cup must \cup { g.t : g \in got }
       IN
       /\ o.k = "crash"
       /\ \A c \in Range(o.old) : ptr[c] = Len(T.rx[c])
       /\ Len(o.got) = Cardinality({ g.t : g \in got })
       /\ \A g \in got : from(g) # {}
       \* a topic that is missing now was missing at some moment, or its value has run out
       /\ \A t \in must : (\E g \in got : g.t = t) \/ (\E r \in hist : r.t = t /\ ~Sure(wide(r), Now))
       /\ LET ret2 == { wide(CHOOSE r \in from(g) : \A q \in from(g) : r.hi >= q.hi) : g \in got } IN
          /\ b' = [NoPubSub EXCEPT !.ret = ret2]
          /\ hist' = ret2 /\ must' = { r.t : r \in ret2 }
       /\ dead' = dead \cup Range(o.old)
       /\ done' = done \cup {x} /\ half' = {} /\ UNCHANGED <<tr, s, ptr>>

Verbose == IOEnv.VERBOSE = "1"
CanClose == Close \subseteq done /\ \A x \in Close : ~Owes(x)
Adv == /\ s < Len(T.steps) /\ CanClose
       /\ Verbose => PrintT(<<"STP", tr, s, b, ptr>>)
       /\ s' = s + 1
       /\ LET op2 == { T.steps[s + 1].open[i] : i \in 1..Len(T.steps[s + 1].open) } IN done' = done \cap op2 /\ half' = half \cap op2
       /\ UNCHANGED <<tr, b, ptr, dead, hist, must>>
Accept == /\ s = Len(T.steps) /\ CanClose
          /\ PrintT(<<"ACC", tr>>) /\ TLCSet(tr, 1)
          /\ s' = s + 1 /\ UNCHANGED <<tr, done, half, b, ptr, dead, hist, must>>
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, 0)
Next == /\ s <= Len(T.steps) /\ TLCGet(tr) = 0
        /\ (LinAny \/ RetainStep \/ Lost \/ Flush \/ Crash \/ Adv \/ Accept)
Spec == Init /\ [][Next]_vars

Inv == /\ \A r1, r2 \in b.ret : r1.t = r2.t => r1 = r2
       /\ \A d \in b.pend : d.c \notin dead
=============================================================================
