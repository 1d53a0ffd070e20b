------------------------------ MODULE StreamMC ------------------------------
(***************************************************************************)
(* A stream topic as a state machine with small constants.  `act` names    *)
(* the last action with arguments: hidden by VIEW in the exhaustive runs,  *)
(* used to turn the state graph into walks replayed on the real server.    *)
(***************************************************************************)
EXTENDS Stream, TLC
CONSTANTS Groups, Conns, MaxMsgs, MaxMem, AW, MD, MP, MaxNow, Batches, MaxSeek, Crashes, MaxRet, MaxLife, MaxFetch
VARIABLES t, now, dlen, sv, act,
          mems,     \* members ever joined: sequence of [g, conn, gen]
          settled,  \* history: per group the set of sequence numbers acked or given up
          start,    \* history: per group the first sequence number it must not skip
          seeks, crashed, rets, life, fetches
vars == <<t, now, dlen, sv, act, mems, settled, start, seeks, crashed, rets, life, fetches>>
view == <<t, now, dlen, sv, mems, settled, start, seeks, crashed, rets, life, fetches>>
viewg == <<t, now, act, mems, seeks, life, fetches>>
P == [aw |-> AW, md |-> MD, mp |-> MP]
G0 == [x \in Groups |-> 0]
Init == /\ t = TCreate(NoTopic, 0, 0) /\ now = 0 /\ dlen = 0 /\ sv = {<<>>} /\ act = <<"init">>
        /\ mems = <<>> /\ settled = [x \in Groups |-> {}] /\ start = G0
        /\ seeks = 0 /\ crashed = 0 /\ rets = 0 /\ life = 0 /\ fetches = 0
Sv(t2) == IF Crashes > 0 /\ t2.ex THEN sv \cup {Floors(t2)} ELSE sv
Rest == UNCHANGED <<now, crashed, rets, life>>
NoHist == UNCHANGED <<settled, start>>
\* what became settled between two states of a group (below next, no longer unsettled)
Settle(t1, t2) == [x \in Groups |-> IF HasG(t1, x) /\ HasG(t2, x)
                     THEN settled[x] \cup { s \in Unsettled(t1.g[x]) : s \notin Unsettled(t2.g[x]) } ELSE settled[x]]
Starts(t2) == [x \in Groups |-> IF HasG(t2, x) /\ ~HasG(t, x) THEN t2.g[x].next ELSE start[x]]

DoPub == /\ t.ex /\ Last(t) < MaxMsgs
         /\ t' = Publish(t, Last(t) + 1, now, 1) /\ act' = <<"pub">> /\ dlen' = dlen /\ sv' = Sv(t')
         /\ NoHist /\ UNCHANGED <<mems, seeks, fetches>> /\ Rest
DoJoin(x, cn) == /\ t.ex /\ Len(mems) < MaxMem
                 /\ LET c == Len(mems) + 1 IN t' = Join(t, x, c, cn)
                 /\ mems' = Append(mems, [g |-> x, conn |-> cn, gen |-> t'.g[x].gen])
                 /\ start' = Starts(t') /\ settled' = settled
                 /\ act' = <<"join", x, cn>> /\ sv' = Sv(t') /\ UNCHANGED <<dlen, seeks, fetches>> /\ Rest
DoFetch(i, n) == /\ i <= Len(mems) /\ fetches < MaxFetch /\ fetches' = fetches + 1
                 /\ LET x == mems[i].g IN
                    IF ~Valid(t, x, i, mems[i].gen) \/ Deliverable(t, t.g[x]) = {} \/ Backpressured(t.g[x], P)
                    THEN t' = t /\ fetches < MaxFetch
                    ELSE \E g2 \in DeliverAny(t, t.g[x], i, n, now + AW, P) : /\ g2 # t.g[x] /\ (t.g[x].red # {} => g2.red # t.g[x].red)
                                                                              /\ t' = SetG(t, x, g2)
                 /\ act' = <<"fetch", i, n>> /\ sv' = Sv(t') /\ NoHist
                 /\ UNCHANGED <<dlen, mems, seeks>> /\ Rest
DoAck(i, s) == /\ i <= Len(mems)
               /\ LET x == mems[i].g IN
                  t' = IF Valid(t, x, i, mems[i].gen) /\ Owns(t.g[x], i, s) THEN SetG(t, x, AckG(t.g[x], s)) ELSE t
               /\ act' = <<"ack", i, s>> /\ sv' = Sv(t') /\ settled' = Settle(t, t') /\ start' = start
               /\ UNCHANGED <<dlen, mems, seeks, fetches>> /\ Rest
DoLeave(i) == /\ i <= Len(mems)
              /\ LET x == mems[i].g IN t' = IF Valid(t, x, i, mems[i].gen) THEN SetG(t, x, LeaveG(t.g[x], i, P)) ELSE t
              /\ act' = <<"leave", i>> /\ sv' = Sv(t') /\ settled' = Settle(t, t') /\ start' = start
              /\ UNCHANGED <<dlen, mems, seeks, fetches>> /\ Rest
DoDisc(cn) == /\ t.ex /\ \E x \in DOMAIN t.g : \E e \in t.g[x].mem : e.conn = cn
              /\ t' = Disconnect(t, cn, P) /\ act' = <<"disc", cn>> /\ sv' = Sv(t') /\ settled' = Settle(t, t') /\ start' = start
              /\ UNCHANGED <<dlen, mems, seeks, fetches>> /\ Rest
DoSeek(x, to) == /\ t.ex /\ seeks < MaxSeek /\ seeks' = seeks + 1
                 /\ t' = Seek(t, x, to) /\ act' = <<"seek", x, to>> /\ sv' = Sv(t')
                 /\ settled' = [settled EXCEPT ![x] = {}] /\ start' = [start EXCEPT ![x] = t'.g[x].next]
                 /\ UNCHANGED <<dlen, mems, fetches>> /\ Rest
Tick == /\ now < MaxNow /\ now' = now + 1 /\ act' = <<"tick">>
        /\ UNCHANGED <<t, dlen, sv, mems, settled, start, seeks, crashed, rets, life, fetches>>
DoSweep == /\ t.ex /\ \E x \in DOMAIN t.g : /\ DueL(t.g[x], now) # {}
                                            /\ t' = SetG(t, x, Release(t.g[x], DueL(t.g[x], now), P))
           /\ act' = <<"sweep">> /\ sv' = Sv(t') /\ settled' = Settle(t, t') /\ start' = start
           /\ UNCHANGED <<dlen, mems, seeks, fetches>> /\ Rest
DoRetain == /\ t.ex /\ rets < MaxRet /\ rets' = rets + 1
            /\ \E h \in t.head + 1 .. Last(t) : t' = Retain(t, h)
            /\ act' = <<"retain">> /\ dlen' = Max2(dlen, t'.head - 1) /\ sv' = Sv(t')
            /\ settled' = [x \in Groups |-> { s \in settled[x] : s >= t'.head }]
            /\ start' = [x \in Groups |-> IF HasG(t, x) THEN Max2(start[x], t'.head) ELSE start[x]]
            /\ UNCHANGED <<now, mems, seeks, crashed, life, fetches>>
Flush == /\ Crashes > 0 /\ t.ex /\ dlen # Last(t) /\ dlen' = Last(t) /\ act' = <<"flush">>
         /\ UNCHANGED <<t, now, sv, mems, settled, start, seeks, crashed, rets, life, fetches>>
Save == /\ Crashes > 0 /\ t.ex /\ sv # {Floors(t)} /\ sv' = {Floors(t)} /\ act' = <<"save">>
        /\ UNCHANGED <<t, now, dlen, mems, settled, start, seeks, crashed, rets, life, fetches>>
Crash == /\ t.ex /\ crashed < Crashes /\ crashed' = crashed + 1
         /\ \E k \in Max2(dlen, t.head - 1)..Last(t), fl \in sv : t' = Recovered(t, k, fl) /\ dlen' = k
         /\ sv' = {Floors(t')} /\ act' = <<"crash">>
         \* after a restart a group owes everything it had not settled among what survived
         /\ settled' = [x \in Groups |-> IF HasG(t', x) THEN { s \in settled[x] : s < t'.g[x].next } ELSE {}]
         /\ start' = [x \in Groups |-> IF HasG(t', x) THEN start[x] ELSE 0]
         /\ UNCHANGED <<now, mems, seeks, rets, life, fetches>>
DoDelete == /\ life < MaxLife /\ life' = life + 1
            /\ t' = TDelete(t) /\ act' = <<"delete">> /\ dlen' = 0 /\ sv' = {<<>>}
            /\ settled' = [x \in Groups |-> {}] /\ start' = G0
            /\ UNCHANGED <<now, mems, seeks, crashed, rets, fetches>>
DoCreate == /\ life < MaxLife /\ life' = life + 1
            /\ t' = TCreate(t, 0, 0) /\ act' = <<"create">>
            /\ UNCHANGED <<now, dlen, sv, mems, settled, start, seeks, crashed, rets, fetches>>
Next == \/ DoPub \/ Tick \/ DoSweep \/ DoRetain \/ Flush \/ Save \/ Crash \/ DoDelete \/ DoCreate
        \/ \E x \in Groups, cn \in Conns : DoJoin(x, cn)
        \/ \E i \in 1..MaxMem : DoLeave(i) \/ (\E n \in Batches : DoFetch(i, n)) \/ (\E s \in 1..MaxMsgs : DoAck(i, s))
        \/ \E cn \in Conns : DoDisc(cn)
        \/ \E x \in Groups, to \in 0..1 : DoSeek(x, to)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Inv_OK == TopicOK(t, P)
\* S01: what was published at a position never changes, positions are never reassigned while they exist
Act_Log == [][ (t.ex /\ t'.ex) => \/ \E k \in 0..Len(t.log) : t'.log = SubSeq(t.log, 1, k)
                                  \/ t.log = SubSeq(t'.log, 1, Len(t.log)) ]_vars
Act_Append == [][ (act'[1] \notin {"crash", "delete", "create"} /\ t.ex) => t.log = SubSeq(t'.log, 1, Len(t.log)) ]_vars
\* S02: a fetch hands out nothing that is leased
Act_Lease == [][ act'[1] = "fetch" /\ t.ex => \A x \in DOMAIN t.g :
                    \A e \in t.g[x].pend : e \in t'.g[x].pend ]_vars
Act_Groups == [][ act'[1] = "fetch" /\ t.ex => Cardinality({ x \in DOMAIN t.g : t.g[x] # t'.g[x] }) <= 1 ]_vars
\* S03: between the group's start and next everything is settled or still owed
Inv_NoSkip == t.ex => \A x \in DOMAIN t.g : \A s \in start[x]..(t.g[x].next - 1) :
                    s >= t.head /\ s > 0 => s \in Unsettled(t.g[x]) \cup settled[x]
Inv_Floor == t.ex => \A x \in DOMAIN t.g : \A s \in start[x]..Floor(t.g[x]) : s >= t.head /\ s > 0 => s \in settled[x]
\* S04: released only when due, or its holder went away
Act_Redeliver == [][ (t.ex /\ t'.ex) => \A x \in (DOMAIN t.g) \cap (DOMAIN t'.g) : \A e \in t.g[x].pend :
                       (e.s \in Seqs(t'.g[x].red)) => (e.dl <= now \/ ~IsMember(t'.g[x], e.c)) ]_vars
\* S05: a fenced consumer changes nothing
Act_Fence == [][ (act'[1] \in {"fetch", "ack", "leave"} /\ act'[2] <= Len(mems) /\ ~Valid(t, mems[act'[2]].g, act'[2], mems[act'[2]].gen)) => t' = t ]_vars
Act_Ack == [][ (act'[1] = "ack" /\ t' # t) => Owns(t.g[mems[act'[2]].g], act'[2], act'[3]) ]_vars
\* S06
Act_Seek == [][ act'[1] = "seek" => /\ \A x \in DOMAIN t.g : x # act'[2] => t'.g[x] = t.g[x]
                                    /\ t'.log = t.log
                                    /\ Deliverable(t', t'.g[act'[2]]) = (IF act'[3] = 0 /\ t.head <= Last(t) THEN {t.head} ELSE {})
                                    /\ t'.g[act'[2]].mem = {} ]_vars
\* S07, S08
Act_Crash == [][ act'[1] = "crash" => /\ Len(t'.log) >= dlen /\ t'.log = SubSeq(t.log, 1, Len(t'.log))
                                      /\ \A x \in DOMAIN t'.g : Floor(t'.g[x]) <= Len(t'.log) ]_vars
\* S09
Act_Retain == [][ act'[1] = "retain" => /\ t'.head > t.head /\ t'.head <= Last(t) /\ t'.log = t.log
                                        /\ \A x \in DOMAIN t'.g : t'.g[x].next >= t'.head ]_vars
=============================================================================
