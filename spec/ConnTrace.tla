----------------------------- MODULE ConnTrace -----------------------------
(***************************************************************************)
(* Trace validation for connections: every complete request was answered   *)
(* exactly once, with an answer the specification allows at some moment    *)
(* between its last byte and the response; what is not a complete request  *)
(* is not answered and has no effect; inspection shows no effect of a      *)
(* request that was refused.                                               *)
(***************************************************************************)
EXTENDS Conn, Json, IOUtils, TLC

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, s, done, w,
          snap,   \* the last inspection of everything
          dirty,  \* something since then may have changed what it shows
          broken  \* connections that have sent a frame above the limit
vars == <<tr, s, done, w, snap, dirty, broken>>
T == Traces[tr]
Step == T.steps[s]
Open == { Step.open[i] : i \in 1..Len(Step.open) }
Close == { Step.close[i] : i \in 1..Len(Step.close) }

Init == tr \in 1..Len(Traces) /\ s = 1 /\ done = {} /\ w = NoWorld /\ snap = "" /\ dirty = TRUE /\ broken = {}

Got(r) == CASE ~WellFormed(r) -> TRUE
            [] r.op = "get" /\ r.status = "data" -> r.got \in Val(w, r.nm)
            [] r.op = "echo" -> r.got = r.v
            [] OTHER -> TRUE
\* can this have happened now ...
Ok(o) ==
    CASE o.k = "req" -> Sensible(o) /\ o.n = 1 /\ o.status \in Verdicts(w, o) /\ Got(o)
      [] o.k = "wild" -> o.n = 1 /\ o.status \in {"ok", "err", "null", "data"}      \* arbitrary bytes
      \* complete, but the connection ended before the answer: it took effect or not
      [] o.k = "lostreq" -> o.n = 0
      \* never completed, or sent after the end of the stream's legal part
      [] o.k = "void" -> o.n = 0
      [] o.k = "toolong" -> o.size > T.limit
      \* the connection's fate, once everything has come to rest
      [] o.k = "fate" -> o.closed = (o.conn \in broken)
      [] o.k = "drainq" -> o.q = w.cq
      [] o.k = "drains" -> o.s = w.cs
      \* in the history as a whole, an answer explained in the part that is about its key, queue or topic
      [] o.k = "part" -> Sensible(o) /\ WellFormed(o) /\ o.n = 1 /\ o.status \in {"ok", "err", "null", "data"}
      [] o.k = "lostpart" -> o.n = 0
      [] o.k = "snap" -> o.fresh \/ dirty \/ o.d = snap
      [] o.k = "mem" -> o.mb <= o.allowed      \* memory the server took
      [] OTHER -> FALSE
\* ... and what did it do?  (A request that is refused changes nothing.)
World(o) == IF o.k \in {"req", "lostreq"} THEN Effect(w, o) ELSE w
Dirties(o) == o.k = "wild" \/ (o.k \in {"req", "lostreq", "part", "lostpart"} /\ ~Inert(o) /\ o.status # "err")
Events == {"snap", "toolong"}      \* always alone in their step
\* what never changes anything in the world can as well happen at once
Still == { x \in Open \ done : LET o == T.ops[x] IN o.k \notin Events /\ Ok(o) /\ (o.k \in {"req", "lostreq"} => Reads(o)) }
LinStill == /\ Still # {} /\ done' = done \cup Still
            /\ dirty' = (dirty \/ \E x \in Still : Dirties(T.ops[x]))
            /\ UNCHANGED <<tr, s, w, snap, broken>>
LinOne == /\ Still = {}
          /\ \E x \in Open \ done :
                LET o == T.ops[x] IN
                /\ Ok(o) /\ w' = World(o) /\ done' = done \cup {x}
                /\ dirty' = (IF o.k = "snap" THEN FALSE ELSE dirty \/ Dirties(o))
                /\ snap' = (IF o.k = "snap" THEN o.d ELSE snap)
                /\ broken' = (IF o.k = "toolong" THEN broken \cup {o.conn} ELSE broken)
          /\ UNCHANGED <<tr, s>>

Verbose == IOEnv.VERBOSE = "1"
CanClose == Close \subseteq done
Adv == /\ s < Len(T.steps) /\ CanClose
       /\ Verbose => PrintT(<<"STP", tr, s, w, dirty>>)
       /\ s' = s + 1
       /\ done' = done \cap { T.steps[s + 1].open[i] : i \in 1..Len(T.steps[s + 1].open) }
       /\ UNCHANGED <<tr, w, snap, dirty, broken>>
Accept == /\ s = Len(T.steps) /\ CanClose
          /\ PrintT(<<"ACC", tr>>) /\ TLCSet(tr, 1)
          /\ s' = s + 1 /\ UNCHANGED <<tr, done, w, snap, dirty, broken>>
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, 0)
Next == s <= Len(T.steps) /\ TLCGet(tr) = 0 /\ (LinStill \/ LinOne \/ Adv \/ Accept)
Spec == Init /\ [][Next]_vars
Inv == \A e1, e2 \in w.kv : e1[1] = e2[1] => e1 = e2
=============================================================================
