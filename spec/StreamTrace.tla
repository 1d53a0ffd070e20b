---------------------------- MODULE StreamTrace ----------------------------
(***************************************************************************)
(* Trace validation for one stream topic: TLC looks for linearization      *)
(* points of the recorded operations and silent release, retention and     *)
(* persistence steps that explain every result the driver saw.             *)
(***************************************************************************)
EXTENDS Stream, Json, IOUtils, TLC

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, s, done,
          t,    \* the topic
          dlen, \* messages known to be on disk
          sv    \* group positions since the last completed save: a set of functions
vars == <<tr, s, done, t, dlen, sv>>

T == Traces[tr]
Step == T.steps[s]
Now == Step.now
Open == { Step.open[i] : i \in 1..Len(Step.open) }
Close == { Step.close[i] : i \in 1..Len(Step.close) }
P == [aw |-> T.aw, md |-> T.md, mp |-> T.mp]
Wall == Now + T.base

NoFl == <<>>
Init == /\ tr \in 1..Len(Traces)
        /\ s = 1 /\ done = {} /\ t = NoTopic /\ dlen = 0 /\ sv = {NoFl}

Waiting == { x \in Open : T.ops[x].k = "fetch" /\ T.ops[x].w > 0 /\ x \notin Close }
\* the result of a read or fetch: exactly the messages published there
Faithful(list) == \A i \in 1..Len(list) : /\ list[i].s >= t.head /\ list[i].s <= Last(t)
                                          /\ t.log[list[i].s].m = list[i].m /\ t.log[list[i].s].ts = list[i].ts
Dense(list, from) == \A i \in 1..Len(list) : list[i].s = from + i - 1
SeqOf(list) == [i \in 1..Len(list) |-> list[i].s]
GroupView(tt) == { [id |-> x, fl |-> Floor(tt.g[x]), np |-> Cardinality(tt.g[x].pend)] : x \in DOMAIN tt.g }

Same == {t}
Effect(o) ==
    CASE o.k = "create" -> IF o.ok THEN {TCreate(t, o.age, o.max)} ELSE {}
      [] o.k = "delete" -> IF o.ok THEN {TDelete(t)} ELSE {}
      [] o.k = "exists" -> IF o.b = t.ex THEN Same ELSE {}
      [] o.k = "pub"    -> IF o.ok THEN (IF t.ex /\ o.seq = Last(t) + 1 THEN {Publish(t, o.m, Wall, o.z)} ELSE {})
                           ELSE (IF t.ex THEN {} ELSE Same)
      [] o.k = "join"   -> IF ~o.ok THEN (IF t.ex THEN {} ELSE Same)
                           ELSE IF ~t.ex THEN {}
                           ELSE LET t2 == Join(t, o.g, o.cid, o.conn)
                                IN IF o.fl = Floor(t2.g[o.g]) /\ o.gen = t2.g[o.g].gen THEN {t2} ELSE {}
      [] o.k = "fetch"  ->
           IF ~o.ok THEN (IF Valid(t, o.g, o.cid, o.gen) THEN {} ELSE Same)
           ELSE IF o.list = <<>>
                THEN IF \/ /\ Valid(t, o.g, o.cid, o.gen)
                           /\ \/ Deliverable(t, t.g[o.g]) = {} \/ o.n = 0
                              \/ Backpressured(t.g[o.g], P) \/ o.cold
                           /\ \/ o.w = 0 \/ T.steps[o.r].now >= T.steps[o.c].now + o.w
                              \/ Backpressured(t.g[o.g], P) \/ o.cold \/ o.early
                        \/ o.w > 0 /\ ~Valid(t, o.g, o.cid, o.gen)
                     THEN Same ELSE {}
                ELSE IF /\ Valid(t, o.g, o.cid, o.gen) /\ Len(o.list) <= o.n /\ Faithful(o.list)
                        \* released messages come first: nothing new can put them off for ever
                        /\ t.g[o.g].red = {} \/ o.list[1].s \in Seqs(t.g[o.g].red) \/ o.mixed
                     THEN { SetG(t, o.g, g2) : g2 \in DeliverThese(t, t.g[o.g], o.cid, SeqOf(o.list), Now + P.aw, P) }
                     ELSE {}
      [] o.k = "ack"    -> IF o.ok THEN (IF Valid(t, o.g, o.cid, o.gen) /\ Owns(t.g[o.g], o.cid, o.s)
                                         THEN {SetG(t, o.g, AckG(t.g[o.g], o.s))} ELSE {})
                           ELSE (IF Valid(t, o.g, o.cid, o.gen) /\ Owns(t.g[o.g], o.cid, o.s) THEN {} ELSE Same)
      [] o.k = "leave"  -> IF o.ok THEN (IF Valid(t, o.g, o.cid, o.gen) THEN {SetG(t, o.g, LeaveG(t.g[o.g], o.cid, P))} ELSE {})
                           ELSE (IF Valid(t, o.g, o.cid, o.gen) THEN {} ELSE Same)
      [] o.k = "seek"   -> IF o.ok THEN (IF t.ex THEN {Seek(t, o.g, o.to)} ELSE {})
                           ELSE (IF t.ex THEN {} ELSE Same)
      [] o.k = "disc"   -> {IF t.ex THEN Disconnect(t, o.conn, P) ELSE t}
      \* inspection: a page from position o.from
      [] o.k = "read"   -> IF ~o.ok THEN (IF t.ex THEN {} ELSE Same)
                           ELSE LET from == Max2(o.from, t.head)
                                    full == Max2(0, Min2(o.n, Last(t) - from + 1))
                                IN IF /\ t.ex /\ Faithful(o.list) /\ Dense(o.list, from)
                                      /\ IF o.full THEN Len(o.list) = full ELSE (Len(o.list) = 0) = (full = 0) /\ Len(o.list) <= full
                                   THEN Same ELSE {}
      [] o.k = "snap"   -> IF ~o.ok THEN (IF t.ex THEN {} ELSE Same)
                           ELSE IF /\ t.ex /\ o.last = Last(t) /\ o.age = t.age /\ o.max = t.max
                                   /\ { o.groups[i] : i \in 1..Len(o.groups) } = GroupView(t)
                                   /\ Len(o.groups) = Cardinality(DOMAIN t.g) THEN Same ELSE {}
      \* the server had ample time: releases are done, waiting fetches that could return have returned
      [] o.k = "quiet"  -> IF /\ t.ex => \A x \in DOMAIN t.g : ~Late(t.g[x], Now, T.slack)
                              /\ \A y \in Waiting \ done :
                                    LET w == T.ops[y] IN
                                    /\ Valid(t, w.g, w.cid, w.gen)
                                    /\ (w.n = 0 \/ Deliverable(t, t.g[w.g]) = {} \/ Backpressured(t.g[w.g], P))
                           THEN Same ELSE {}
      \* a retention check has run since the last change
      [] o.k = "retq"   -> IF Enforced(t, T.seg) /\ (o.aged => AgeEnforced(t, Wall - o.slack, T.seg)) THEN Same ELSE {}
      [] OTHER          -> {}
\* requests whose client died: they took effect or not
LostEffect(o) ==
    CASE o.w_ = "create" -> { TCreate(t, o.age, o.max) }
      [] o.w_ = "delete" -> { TDelete(t) }
      [] o.w_ = "pub"    -> IF t.ex THEN { Publish(t, o.m, Wall, o.z) } ELSE {}
      [] o.w_ = "join"   -> IF t.ex THEN { IF HasG(t, o.g) THEN t ELSE SetG(t, o.g, GroupAt(t.head)) } ELSE {}
      [] o.w_ = "fetch"  -> IF Valid(t, o.g, o.cid, o.gen) THEN { SetG(t, o.g, g2) : g2 \in DeliverAny(t, t.g[o.g], o.cid, o.n, Now + P.aw, P) } ELSE {}
      [] o.w_ = "ack"    -> IF Valid(t, o.g, o.cid, o.gen) /\ Owns(t.g[o.g], o.cid, o.s) THEN { SetG(t, o.g, AckG(t.g[o.g], o.s)) } ELSE {}
      [] o.w_ = "leave"  -> IF Valid(t, o.g, o.cid, o.gen) THEN { SetG(t, o.g, LeaveG(t.g[o.g], o.cid, P)) } ELSE {}
      [] o.w_ = "seek"   -> IF t.ex THEN { Seek(t, o.g, o.to) } ELSE {}
      [] OTHER           -> {}

\* bookkeeping of what is on disk: creation and deletion are durable at once
Stored(k, t2) ==
    IF ~t2.ex \/ ~t.ex THEN dlen' = 0 /\ sv' = {NoFl}
    ELSE dlen' = Max2(dlen, t2.head - 1) /\ sv' = (IF T.durable THEN sv \cup {Floors(t2)} ELSE sv)

Lin == \E x \in Open \ done :
          LET o == T.ops[x] IN
          /\ \E t2 \in Effect(o) : t' = t2 /\ Stored(o.k, t2)
          /\ done' = done \cup {x}
          /\ UNCHANGED <<tr, s>>
Lost == \E x \in Open \ done :
          LET o == T.ops[x] IN
          /\ o.k = "reqlost"
          /\ \E t2 \in LostEffect(o) : t2 # t /\ t' = t2 /\ Stored(o.w_, t2)
          /\ done' = done \cup {x} /\ UNCHANGED <<tr, s>>
Sweep == /\ t.ex
         /\ \E x \in DOMAIN t.g : \E D \in { DueL(t.g[x], Now), DueE(t.g[x], Now) } :
               /\ D # {}
               /\ t' = SetG(t, x, Release(t.g[x], D, P)) /\ Stored("sweep", t')
         /\ UNCHANGED <<tr, s, done>>
Retention == /\ t.ex /\ T.retain
             /\ \E h \in Heads(t, Wall, T.seg) : t' = Retain(t, h) /\ Stored("retain", t')
             /\ UNCHANGED <<tr, s, done>>
Flush == \E x \in Open \ done :
          /\ T.ops[x].k = "flush" /\ dlen' = (IF t.ex THEN Last(t) ELSE 0)
          /\ done' = done \cup {x} /\ UNCHANGED <<tr, s, t, sv>>
Save == \E x \in Open \ done :
          /\ T.ops[x].k = "save" /\ sv' = {Floors(t)}
          /\ done' = done \cup {x} /\ UNCHANGED <<tr, s, t, dlen>>
Crash == \E x \in Open \ done :
          /\ T.ops[x].k = "crash"
          /\ \E k \in Max2(dlen, t.head - 1)..Last(t), fl \in sv :
               /\ t' = Recovered(t, k, fl)
               /\ dlen' = (IF t.ex THEN k ELSE 0)
               /\ sv' = (IF t.ex THEN {Floors(t')} ELSE {NoFl})
          /\ done' = done \cup {x} /\ UNCHANGED <<tr, s>>
Verbose == IOEnv.VERBOSE = "1"
Adv == /\ s < Len(T.steps) /\ Close \subseteq done
       /\ Verbose => PrintT(<<"STP", tr, s, <<t.ex, t.head, [i \in 1..Last(t) |-> t.log[i].m], t.g, dlen, sv>> >>)
       /\ s' = s + 1
       /\ done' = done \cap { T.steps[s + 1].open[i] : i \in 1..Len(T.steps[s + 1].open) }
       /\ UNCHANGED <<tr, t, dlen, sv>>
Accept == /\ s = Len(T.steps) /\ Close \subseteq done
          /\ PrintT(<<"ACC", tr>>) /\ TLCSet(tr, 1)
          /\ s' = s + 1 /\ UNCHANGED <<tr, done, t, dlen, sv>>
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, 0)
Next == /\ s <= Len(T.steps) /\ TLCGet(tr) = 0
        /\ (Lin \/ Lost \/ Sweep \/ Retention \/ Flush \/ Save \/ Crash \/ Adv \/ Accept)
Spec == Init /\ [][Next]_vars
Inv == TopicOK(t, P)
=============================================================================
