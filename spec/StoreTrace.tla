---------------------------- MODULE StoreTrace ----------------------------
(***************************************************************************)
(* Trace validation for the store: is there a linearization of the         *)
(* recorded operations that the specification allows?  Linearizability is  *)
(* local, so the driver may hand over the history of each key on its own.  *)
(***************************************************************************)
EXTENDS Store, Json, IOUtils, TLC

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, s, done, st
vars == <<tr, s, done, st>>
T == Traces[tr]
Step == T.steps[s]
Now == Step.now
Open == { Step.open[i] : i \in 1..Len(Step.open) }
Close == { Step.close[i] : i \in 1..Len(Step.close) }
Range(x) == { x[i] : i \in 1..Len(x) }

Init == tr \in 1..Len(Traces) /\ s = 1 /\ done = {} /\ st = NoStore

\* a page of the inspection API, and what is on all pages together
EntryOk(e) == \E x \in Of(st, e.k) : x.v = e.v /\ Alive(x, Now) /\ (e.end = -1 \/ (x.lo <= e.end /\ e.end <= x.hi))
ListOk(o) ==
    LET ks == { o.items[i].k : i \in 1..Len(o.items) }
        in == { o.keys[i] : i \in 1..Len(o.keys) }           \* the keys the search asks for
    IN /\ \A i \in 1..Len(o.items) : EntryOk(o.items[i])
       /\ Cardinality(ks) = Len(o.items)                      \* each once
       /\ ks \subseteq in
       /\ \A x \in Certain(st, Now) : x.k \in in => x.k \in ks
       /\ o.total = Len(o.items)
       /\ \A i \in 1..Len(o.pages) : o.pages[i] = (IF o.limit * i <= o.total THEN o.limit ELSE IF o.limit * (i - 1) >= o.total THEN 0 ELSE o.total - o.limit * (i - 1))
Eff(x) ==
    LET o == T.ops[x] IN
    CASE o.k = "set" -> /\ o.ok = o.good
                        /\ st' = IF o.good THEN Put(st, o.key, o.v, T.steps[o.c].now + o.ttl, Now + o.ttl) ELSE st
      [] o.k = "lostset" -> st' = Put(st, o.key, o.v, T.steps[o.c].now + o.ttl, Now + o.ttl)
      [] o.k \in {"del", "lostdel"} -> st' = Remove(st, o.key)
      [] o.k = "get" -> MayRead(st, o.key, o.v, Now) /\ UNCHANGED st
      [] o.k = "list" -> ListOk(o) /\ UNCHANGED st
      [] o.k = "restart" -> st' = NoStore                     \* the store lives in memory
      [] OTHER -> FALSE
Lin == \E x \in Open \ done : Eff(x) /\ done' = done \cup {x} /\ UNCHANGED <<tr, s>>

Verbose == IOEnv.VERBOSE = "1"
CanClose == Close \subseteq done
Adv == /\ s < Len(T.steps) /\ CanClose
       /\ Verbose => PrintT(<<"STP", tr, s, st>>)
       /\ s' = s + 1
       /\ done' = done \cap { T.steps[s + 1].open[i] : i \in 1..Len(T.steps[s + 1].open) }
       /\ UNCHANGED <<tr, st>>
Accept == /\ s = Len(T.steps) /\ CanClose
          /\ PrintT(<<"ACC", tr>>) /\ TLCSet(tr, 1)
          /\ s' = s + 1 /\ UNCHANGED <<tr, done, st>>
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, 0)
Next == s <= Len(T.steps) /\ TLCGet(tr) = 0 /\ (Lin \/ Adv \/ Accept)
Spec == Init /\ [][Next]_vars
Inv == \A e1, e2 \in st : e1.k = e2.k => e1 = e2
=============================================================================
