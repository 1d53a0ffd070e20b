---------------------------- MODULE InspectTrace ----------------------------
(***************************************************************************)
(* What the inspection API must answer about a state that does not change  *)
(* meanwhile, against recorded answers.  Steps "put", "place" and "gone"   *)
(* say what was done (each acknowledged before the next step); the other   *)
(* steps are answers: pages by offset, pages by sequence number, counts.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, s, x          \* x: entries [id, at (which listing), end (-1: never)]
vars == <<tr, s, x>>
T == Traces[tr]
o == T.ops[s]
Now == o.now
Range(q) == { q[i] : i \in 1..Len(q) }
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b

Init == tr \in 1..Len(Traces) /\ s = 1 /\ x = {}

Alive(y) == y.end = -1 \/ y.end > Now
In(l) == { y.id : y \in { y \in x : y.at = l /\ Alive(y) } }

\* T.finds[o.f]: the ids of all entries put so far that contain the text searched for
Wanted == In(o.at) \cap Range(T.finds[o.f])
NoTwice(q) == Cardinality(Range(q)) = Len(q)
\* one page, from o.off, of at most o.lim (before the cap)
PageOk == LET w == Wanted n == Cardinality(w) l == Min(o.lim, o.cap) IN
    /\ o.total = n
    /\ Range(o.items) \subseteq w /\ NoTwice(o.items)
    /\ Len(o.items) = Max(0, Min(l, n - Min(o.off, n)))
\* consecutive pages until the total is reached: together each entry once
TileOk == LET w == Wanted n == Cardinality(w) IN
          /\ \A i \in 1..Len(o.totals) : o.totals[i] = n
          /\ NoTwice(o.items) /\ Range(o.items) = w
\* by sequence number: the newest first, a gapless run from o.from on, not empty if there is something
SeqOk == LET last == Cardinality(In(o.at))              \* (nothing is removed from these)
             lo == IF o.from = -1 THEN Max(1, last - Max(o.lim, 1) + 1) ELSE o.from
             n == Len(o.items)
         IN /\ o.rfrom = lo /\ o.rlast = last /\ o.rlim = o.lim
            /\ n <= o.lim
            /\ \A i \in 1..n : o.items[i] = Max(1, lo) + n - i /\ o.items[i] <= last
            /\ (Max(1, lo) <= last /\ o.lim > 0) => n > 0
            /\ (o.from = -1 /\ o.hot) => n = Min(o.lim, last)     \* the newest page shows the newest messages

Step ==
  CASE o.k = "put"   -> x' = x \cup { [id |-> o.new[i].id, at |-> o.at, end |-> o.new[i].end] : i \in 1..Len(o.new) }
    [] o.k = "place" -> x' = { IF y.id \in Range(o.ids) THEN [y EXCEPT !.at = o.at] ELSE y : y \in x }
    [] o.k = "gone"  -> x' = { y \in x : y.id \notin Range(o.ids) }
    [] o.k = "page"  -> PageOk /\ x' = x
    [] o.k = "tile"  -> TileOk /\ x' = x
    [] o.k = "seq"   -> SeqOk /\ x' = x
    [] o.k = "count" -> o.n = Cardinality(In(o.at)) /\ x' = x
    [] OTHER -> FALSE
Verbose == IOEnv.VERBOSE = "1"
Next == /\ s <= Len(T.ops)
        /\ Verbose => PrintT(<<"STP", tr, s, Cardinality(x)>>)
        /\ Step /\ s' = s + 1 /\ UNCHANGED tr
        /\ s = Len(T.ops) => PrintT(<<"ACC", tr>>)
Spec == Init /\ [][Next]_vars
Inv == Cardinality({ y.id : y \in x }) = Cardinality(x)
=============================================================================
