------------------------------ MODULE QueueMC ------------------------------
(***************************************************************************)
(* The queue as a state machine with small constants, checked exhaustively *)
(* by TLC.  `act` names the last action with its arguments and result: it  *)
(* is hidden by VIEW in the exhaustive runs and used to turn the state     *)
(* graph into test walks that are replayed on the real server.             *)
(***************************************************************************)
EXTENDS Queue, TLC
CONSTANTS MaxMsgs, Prios, VT, MR, MaxNow, Batches, MaxReplay, Crashes, MaxLife
VARIABLES q, now, sv, act,
          life,    \* number of lifecycle operations so far
          pushed, removed,   \* identities pushed to / taken out of the present incarnation
          owed,    \* history: deadline of the last lease of each message, 0 when it ended
          reps, crashed
vars == <<q, now, sv, act, life, pushed, removed, owed, reps, crashed>>
view == <<q, now, sv, life, pushed, removed, owed, reps, crashed>>
viewg == <<q, now, act, life, reps>>
Ms == 1..MaxMsgs

Init == /\ q = Create(NoQueue, VT, MR) /\ now = 0 /\ sv = {Create(NoQueue, VT, MR)} /\ act = <<"init">>
        /\ life = 0 /\ pushed = {} /\ removed = {} /\ owed = [m \in Ms |-> 0] /\ reps = 0 /\ crashed = 0
Sv(q2) == IF Crashes > 0 THEN sv \cup {q2} ELSE sv
Hist(p, r, o) == pushed' = p /\ removed' = r /\ owed' = o
Rest == UNCHANGED <<now, life, reps, crashed>>

DoPush(p) == /\ q.ex /\ Cardinality(pushed) < MaxMsgs
             /\ LET m == Cardinality(pushed) + 1 IN
                /\ q' = Push(q, m, p) /\ act' = <<"push", m, p>> /\ Hist(pushed \cup {m}, removed, owed)
             /\ sv' = Sv(q') /\ Rest
DoConsume(n) == /\ q.ex
                /\ \E q2 \in TakeAny(q, n, now + q.vt) :
                     LET got == Ids(q2.infl) \ Ids(q.infl) IN
                     /\ q' = q2 /\ act' = <<"consume", n>>
                     /\ Hist(pushed, removed, [m \in Ms |-> IF m \in got THEN now + q.vt ELSE owed[m]])
                /\ sv' = Sv(q') /\ Rest
DoAck(m) == /\ q.ex /\ m \in pushed
            /\ q' = (IF Has(q, m) THEN Remove(q, m) ELSE q)
            /\ act' = <<"ack", m>>
            /\ Hist(pushed, IF Has(q, m) THEN removed \cup {m} ELSE removed, [owed EXCEPT ![m] = 0])
            /\ sv' = Sv(q') /\ Rest
DoNack(m) == /\ q.ex /\ m \in pushed
             /\ q' = (IF Has(q, m) THEN Nack(q, m, "r0") ELSE q)
             /\ act' = <<"nack", m>>
             /\ Hist(pushed, removed, [owed EXCEPT ![m] = 0])
             /\ sv' = Sv(q') /\ Rest
DoMove(m) == /\ q.ex /\ m \in pushed /\ reps < MaxReplay
             /\ q' = (IF InDlq(q, m) THEN Replay(q, m) ELSE q) /\ act' = <<"move", m>>
             /\ Hist(pushed, removed, owed) /\ reps' = reps + 1
             /\ sv' = Sv(q') /\ UNCHANGED <<now, life, crashed>>
DoDelDlq(m) == /\ q.ex /\ m \in pushed
               /\ q' = (IF InDlq(q, m) THEN DropDlq(q, m) ELSE q) /\ act' = <<"deldlq", m>>
               /\ Hist(pushed, IF InDlq(q, m) THEN removed \cup {m} ELSE removed, owed)
               /\ sv' = Sv(q') /\ Rest
DoPurge == /\ q.ex
           /\ q' = Purge(q) /\ act' = <<"purge">>
           /\ Hist(pushed, removed \cup Ids(DlqSet(q)), owed) /\ sv' = Sv(q') /\ Rest
Tick == /\ now < MaxNow /\ now' = now + 1 /\ act' = <<"tick">>
        /\ UNCHANGED <<q, sv, life, pushed, removed, owed, reps, crashed>>
\* the sweep runs some time after a lease is due (lazily: other steps may come first)
Sweep == /\ Due(q, now) # {}
         /\ q' = Expire(q, now) /\ act' = <<"sweep">>
         /\ Hist(pushed, removed, [m \in Ms |-> IF m \in Ids(Due(q, now)) THEN 0 ELSE owed[m]])
         /\ sv' = (IF Crashes > 0 THEN sv \cup { ExpireSome(q, D) : D \in SUBSET Due(q, now) } ELSE sv) /\ Rest
Flush == /\ Crashes > 0 /\ sv # {q} /\ sv' = {q} /\ act' = <<"flush">>
         /\ UNCHANGED <<q, now, life, pushed, removed, owed, reps, crashed>>
Crash == /\ crashed < Crashes
         /\ \E v \in sv : q' \in Recover(v, now)
         /\ sv' = {q'} /\ crashed' = crashed + 1 /\ act' = <<"crash">>
         \* what the recovered state still knows
         /\ Hist(pushed, pushed \ AllIds(q'), [m \in Ms |-> IF \E e \in q'.infl : e.m = m THEN (CHOOSE e \in q'.infl : e.m = m).dl ELSE 0])
         /\ UNCHANGED <<now, life, reps>>
DoDelete == /\ life < MaxLife /\ life' = life + 1
            /\ q' = Delete(q) /\ act' = <<"delete">> /\ sv' = {q'}
            /\ Hist(pushed, pushed, [m \in Ms |-> 0]) /\ UNCHANGED <<now, reps, crashed>>
DoCreate == /\ life < MaxLife /\ life' = life + 1
            /\ q' = Create(q, VT, MR + 1) /\ act' = <<"create">> /\ sv' = (IF q.ex THEN sv ELSE {q'})
            /\ Hist(pushed, removed, owed) /\ UNCHANGED <<now, reps, crashed>>
Next == \/ \E p \in Prios : DoPush(p)
        \/ \E n \in Batches : DoConsume(n)
        \/ \E m \in Ms : DoAck(m) \/ DoNack(m) \/ DoMove(m) \/ DoDelDlq(m)
        \/ DoPurge \/ Tick \/ Sweep \/ Flush \/ Crash \/ DoDelete \/ DoCreate
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* Q03
Inv_OnePlace == OnePlace(q)
Inv_Conserved == q.ex => AllIds(q) = pushed \ removed
\* Q02: a live lease is held in flight, so nobody else can be given the message
Inv_Lease == \A m \in Ms : owed[m] > now /\ q.ex => (m \in Ids(q.infl) \/ m \in removed)
Act_NoDouble == [][ \A m \in Ms : act'[1] = "consume" /\ owed[m] > now => owed'[m] = owed[m] ]_vars
\* Q04
Limit == IF q.mr > 1 THEN q.mr ELSE 1
Inv_Bound == Crashes = 0 => \A e \in PendSet(q) \cup q.infl \cup DlqSet(q) : e.a <= Limit
Inv_DlqReason == \A e \in DlqSet(q) : e.rs \in {"r0", "timeout"}
\* Q01: a consume never leaves a better message behind
Rank(qq, e) == LET i == CHOOSE j \in 1..Len(qq.pend) : e \in qq.pend[j] IN <<e.p, i>>
Better(r1, r2) == r1[1] > r2[1] \/ (r1[1] = r2[1] /\ r1[2] < r2[2])
Act_Order == [][ act'[1] = "consume" =>
     LET took == { e \in PendSet(q) : e.m \in Ids(q'.infl) \ Ids(q.infl) }
         left == PendSet(q) \ took
     IN /\ \A t \in took, l \in left : ~Better(Rank(q, l), Rank(q, t))
        /\ Cardinality(took) = BatchSize(q, act'[2]) ]_vars
Act_Tail == [][ \A m \in Ms : (act'[1] \in {"nack", "sweep", "move"} /\ m \in Ids(PendSet(q')) \ Ids(PendSet(q))) =>
     \A e \in PendSet(q') : (e.m \in Ids(PendSet(q)) /\ e.p = Entry(q', m).p) => Better(Rank(q', e), Rank(q', Entry(q', m))) ]_vars
\* Q05/Q06: what comes back is a state since the last flush, and exactly the state when nothing changed since
Norm(qq) == [ids |-> Ids(PendSet(qq)) \cup Ids(qq.infl), dead |-> DlqSet(qq), ex |-> qq.ex,
             att |-> { <<e.m, e.p, e.a>> : e \in PendSet(qq) } \cup { <<e.m, e.p, e.a>> : e \in qq.infl }]
Act_Crash == [][ act'[1] = "crash" => \E v \in sv : Norm(Expire(q', now)) = Norm(Expire(v, now)) ]_vars
Inv_Removed == \A m \in removed : q.ex => m \notin AllIds(q)
=============================================================================
