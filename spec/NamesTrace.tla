----------------------------- MODULE NamesTrace -----------------------------
(***************************************************************************)
(* What the real server did with names: which it took and refused, what    *)
(* exists, and whether anything outside its data directories changed.      *)
(***************************************************************************)
EXTENDS Names, Json, IOUtils, TLC
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, s, done, live, out
vars == <<tr, s, done, live, out>>
T == Traces[tr]
Step == T.steps[s]
Open == { Step.open[i] : i \in 1..Len(Step.open) }
Close == { Step.close[i] : i \in 1..Len(Step.close) }
Init == tr \in 1..Len(Traces) /\ s = 1 /\ done = {} /\ live = {} /\ out = ""
Lin(o) ==
    CASE o.k \in {"create", "delete"} ->
            /\ Storable(o.kind, o.cs, o.len) /\ ~Doubtful(o.kind, o.cs, o.len) => o.ok
            /\ ~Storable(o.kind, o.cs, o.len) => ~o.ok
            /\ live' = (IF ~o.ok THEN live ELSE IF o.k = "create" THEN live \cup {<<o.kind, o.nm>>} ELSE live \ {<<o.kind, o.nm>>})
            /\ UNCHANGED out
      \* any other operation: refused if there is nothing of that name
      [] o.k = "use" -> (<<o.kind, o.nm>> \in live \/ ~o.ok) /\ UNCHANGED <<live, out>>
      [] o.k = "outside" -> (out = "" \/ o.h = out) /\ out' = o.h /\ UNCHANGED live
      [] o.k = "exist" -> { <<o.all[i].kind, o.all[i].nm>> : i \in 1..Len(o.all) } = live /\ UNCHANGED <<live, out>>
      [] o.k = "restart" -> UNCHANGED <<live, out>>
      [] OTHER -> FALSE
LinStep == \E x \in Open \ done : Lin(T.ops[x]) /\ done' = done \cup {x} /\ UNCHANGED <<tr, s>>
Verbose == IOEnv.VERBOSE = "1"
CanClose == Close \subseteq done
Adv == /\ s < Len(T.steps) /\ CanClose
       /\ Verbose => PrintT(<<"STP", tr, s, live, out>>)
       /\ s' = s + 1
       /\ done' = done \cap { T.steps[s + 1].open[i] : i \in 1..Len(T.steps[s + 1].open) }
       /\ UNCHANGED <<tr, live, out>>
Accept == /\ s = Len(T.steps) /\ CanClose
          /\ PrintT(<<"ACC", tr>>) /\ TLCSet(tr, 1)
          /\ s' = s + 1 /\ UNCHANGED <<tr, done, live, out>>
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, 0)
Next == s <= Len(T.steps) /\ TLCGet(tr) = 0 /\ (LinStep \/ Adv \/ Accept)
Inv == TRUE
=============================================================================
