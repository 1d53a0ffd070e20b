---------------------------- MODULE StreamStore ----------------------------
(***************************************************************************)
(* How a topic reaches the disk and comes back: publishers append under    *)
(* the topic lock and hand messages to one storage actor, which buffers    *)
(* them into segment files, starts new segments, and flushes.  A crash     *)
(* keeps what was written, possibly with a half-written record at the end. *)
(* The constants switch the parts of the protocol that make it right:      *)
(*   InLock    messages are handed over under the topic lock               *)
(*   Truncate  a half-written record is cut off before appending           *)
(*   StartSeq  an empty last segment still fixes where numbering continues *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Procs, MaxPub, MaxCrash, MaxRoll, InLock, Truncate, StartSeq
VARIABLES log,    \* messages by sequence number, as the running server sees them
          pc,     \* publisher: sequence number it has still to hand over, 0 = none
          chan,   \* handed over, not yet stored
          segs,   \* segment files: [start, recs, written]; recs of numbers, 0 = half-written rubbish
          flushed, up, pubs, crashes, rolls
vars == <<log, pc, chan, segs, flushed, up, pubs, crashes, rolls>>
\* log[i] is the identity of the message published at i
Init == /\ log = <<>> /\ pc = [p \in Procs |-> 0] /\ chan = <<>> /\ segs = <<>> /\ flushed = 0
        /\ up = TRUE /\ pubs = 0 /\ crashes = 0 /\ rolls = 0
Rec(i) == <<i, log[i]>>
Publish(p) == /\ up /\ pc[p] = 0 /\ pubs < MaxPub /\ pubs' = pubs + 1
              /\ log' = Append(log, pubs + 1)
              /\ IF InLock THEN chan' = Append(chan, <<Len(log) + 1, pubs + 1>>) /\ pc' = pc
                           ELSE chan' = chan /\ pc' = [pc EXCEPT ![p] = Len(log) + 1]
              /\ UNCHANGED <<segs, flushed, up, crashes, rolls>>
Send(p) == /\ up /\ pc[p] # 0 /\ chan' = Append(chan, Rec(pc[p])) /\ pc' = [pc EXCEPT ![p] = 0]
           /\ UNCHANGED <<log, segs, flushed, up, pubs, crashes, rolls>>
LastSeg == segs[Len(segs)]
Store == /\ up /\ chan # <<>>
         /\ LET r == Head(chan) IN
            \/ /\ segs # <<>> /\ segs' = [segs EXCEPT ![Len(segs)].recs = Append(@, r)] /\ UNCHANGED rolls
            \/ /\ IF segs = <<>> THEN TRUE ELSE rolls < MaxRoll /\ LastSeg.recs # <<>>
               /\ rolls' = IF segs = <<>> THEN rolls ELSE rolls + 1
               \* the old segment is flushed, the new file is created before its first record is written
               /\ segs' = Append(IF segs = <<>> THEN segs ELSE [segs EXCEPT ![Len(segs)].written = Len(segs[Len(segs)].recs)],
                                 [start |-> IF segs = <<>> THEN 1 ELSE r[1], recs |-> <<r>>, written |-> 0])
         /\ chan' = Tail(chan)
         /\ UNCHANGED <<log, pc, flushed, up, pubs, crashes>>
FlushAll == /\ up /\ chan = <<>> /\ \A p \in Procs : pc[p] = 0
            /\ segs' = [i \in 1..Len(segs) |-> [segs[i] EXCEPT !.written = Len(segs[i].recs)]]
            /\ flushed' = Len(log) /\ UNCHANGED <<log, pc, chan, up, pubs, crashes, rolls>>
\* an incomplete flush: some more records reach the file
Dribble == /\ up /\ segs # <<>> /\ LastSeg.written < Len(LastSeg.recs)
           /\ segs' = [segs EXCEPT ![Len(segs)].written = @ + 1]
           /\ UNCHANGED <<log, pc, chan, flushed, up, pubs, crashes, rolls>>
Rubbish == <<0, 0>>
OnDisk(s, torn) == [start |-> s.start, written |-> 0,
                    recs |-> SubSeq(s.recs, 1, s.written) \o (IF torn /\ s.written < Len(s.recs) THEN <<Rubbish>> ELSE <<>>)]
Crash == /\ up /\ crashes < MaxCrash /\ crashes' = crashes + 1 /\ up' = FALSE
         /\ \E torn \in BOOLEAN : segs' = [i \in 1..Len(segs) |-> OnDisk(segs[i], torn /\ i = Len(segs))]
         /\ pc' = [p \in Procs |-> 0] /\ chan' = <<>>
         /\ UNCHANGED <<log, flushed, pubs, rolls>>
\* reading a segment stops at rubbish
RECURSIVE Valid(_)
Valid(rs) == IF rs = <<>> \/ Head(rs) = Rubbish THEN <<>> ELSE <<Head(rs)>> \o Valid(Tail(rs))
RECURSIVE All(_)
All(ss) == IF ss = <<>> THEN <<>> ELSE Valid(Head(ss).recs) \o All(Tail(ss))
NextSeq == IF segs = <<>> THEN 1
           ELSE LET v == Valid(LastSeg.recs) IN
                IF v # <<>> THEN v[Len(v)][1] + 1
                ELSE IF StartSeq THEN LastSeg.start ELSE segs[1].start
Recover == /\ ~up /\ up' = TRUE
           /\ log' = SubSeq(log, 1, NextSeq - 1)
           /\ flushed' = NextSeq - 1
           /\ segs' = [i \in 1..Len(segs) |->
                 LET s == segs[i]
                     rs == IF Truncate /\ i = Len(segs) THEN Valid(s.recs) ELSE s.recs
                 IN [s EXCEPT !.recs = rs, !.written = Len(rs)]]
           /\ UNCHANGED <<pc, chan, pubs, crashes, rolls>>
Next == \/ \E p \in Procs : Publish(p) \/ Send(p)
        \/ Store \/ FlushAll \/ Dribble \/ Crash \/ Recover
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
\* after a crash the files hold exactly a prefix of what was published, at least what was flushed
Inv_Prefix == ~up => LET a == All(segs) IN
                 /\ \A i \in 1..Len(a) : a[i][1] = i /\ i <= Len(log) /\ a[i][2] = log[i]
                 /\ Len(a) >= flushed
                 /\ NextSeq = Len(a) + 1
=============================================================================
