-------------------------------- MODULE Conn --------------------------------
(***************************************************************************)
(* Requests and responses.  A request is an operation with fields; it is   *)
(* well-formed when every field is.  The answer to a request depends on    *)
(* its form and on a small part of the world: which queues and topics      *)
(* exist, whether the caller is a member, what the store holds.  (What the *)
(* operations do beyond that is specified in Queue, Stream, PubSub, Store.) *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Str == {"ok", "short", "long", "utf8"}              \* length-prefixed strings
Opts == Str \cup {"notjson", "type"}                \* options: a JSON object of the right types
Num == {"ok", "short"}                              \* fixed-size numbers and identifiers
Tag == Num \cup {"range"}                           \* one byte with few legal values
Rest == {"ok"}                                      \* everything that is left

Fields == [
    echo |-> <<Rest>>,
    set |-> <<Str, Opts, Rest>>, get |-> <<Str>>, del |-> <<Str>>,
    qcreate |-> <<Str, Opts>>, qpush |-> <<Str, Opts, Rest>>, qconsume |-> <<Str, Opts>>,
    qack |-> <<Num, Str>>, qnack |-> <<Num, Str, Str>>, qexists |-> <<Str>>, qdelete |-> <<Str>>,
    qpeek |-> <<Str, Num, Num>>, qmove |-> <<Str, Num>>, qdeldlq |-> <<Str, Num>>, qpurge |-> <<Str>>,
    pub |-> <<Str, Opts, Rest>>, sub |-> <<Str>>, unsub |-> <<Str>>,
    screate |-> <<Str, Opts>>, spub |-> <<Str, Rest>>, sfetch |-> <<Str, Str, Str, Num, Num, Num>>,
    sjoin |-> <<Str, Str>>, sack |-> <<Str, Str, Str, Num, Num>>, sexists |-> <<Str>>, sdelete |-> <<Str>>,
    sseek |-> <<Str, Str, Tag>>, sleave |-> <<Str, Str, Str, Num>> ]
Ops == DOMAIN Fields

\* a request r: [t: frame type, op, shapes, nm: name, fit: the name can be stored, ...]
Known(r) == r.op \in Ops
WellFormed(r) == /\ r.t = 1 /\ Known(r)
                 /\ Len(r.shapes) = Len(Fields[r.op])
                 /\ \A i \in 1..Len(r.shapes) : r.shapes[i] = "ok"
Sensible(r) == Known(r) => Len(r.shapes) = Len(Fields[r.op]) /\ \A i \in 1..Len(r.shapes) : r.shapes[i] \in Fields[r.op][i]

\* the world: queues, topics, keys
\* and the contents of one queue and one topic that only see acknowledged pushes
NoWorld == [q |-> {}, s |-> {}, kv |-> {}, cq |-> <<>>, cs |-> <<>>]
Qops == {"qpush", "qconsume", "qack", "qnack", "qexists", "qpeek", "qmove", "qdeldlq", "qpurge"}
Sops == {"spub", "sfetch", "sjoin", "sack", "sexists", "sseek", "sleave"}
Val(w, k) == { e[2] : e \in { e \in w.kv : e[1] = k } }

\* what a well-formed request may be answered
Answer(w, r) ==
    CASE r.op = "echo" -> {"data"}
      [] r.op \in {"set", "del"} -> {"ok"}
      [] r.op = "get" -> IF Val(w, r.nm) = {} THEN {"null"} ELSE {"data"}
      [] r.op \in {"pub", "sub", "unsub"} -> IF r.fit THEN {"ok"} ELSE {"err"}
      [] r.op \in {"qcreate", "qdelete", "screate", "sdelete"} -> IF r.fit THEN {"ok"} ELSE {"err"}
      [] r.op \in Qops /\ r.nm \notin w.q -> {"err"}
      [] r.op \in Sops /\ r.nm \notin w.s -> {"err"}
      [] r.op \in {"qpush", "qexists"} -> {"ok"}
      [] r.op \in {"qconsume", "qpeek", "qmove", "qdeldlq", "qpurge"} -> {"data"}
      [] r.op \in {"qack", "qnack"} -> {"err"} \cup (IF r.real THEN {"ok"} ELSE {})   \* real: an id the queue has handed out
      [] r.op = "sseek" -> IF r.fit THEN {"ok"} ELSE {"err"}
      [] r.op = "sjoin" -> IF r.fit THEN {"data"} ELSE {"err"}
      [] r.op = "sexists" -> {"ok"}
      [] r.op = "spub" -> {"data"}
      [] r.op = "sfetch" -> IF r.real THEN {"data"} ELSE {"err", "data"}                      \* real: as the member it is (others may be told that there is nothing)
      [] r.op = "sack" -> IF r.real THEN {"ok", "err"} ELSE {"err"}
      [] r.op = "sleave" -> IF r.real THEN {"ok"} ELSE {"err"}
      [] OTHER -> {}
\* what it may answer at all
Verdicts(w, r) == IF WellFormed(r) THEN Answer(w, r) ELSE {"err"}
\* what it does to the world
Effect(w, r) ==
    IF ~WellFormed(r) THEN w ELSE
    CASE r.op = "set" -> [w EXCEPT !.kv = { e \in @ : e[1] # r.nm } \cup {<<r.nm, r.v>>}]
      [] r.op = "del" -> [w EXCEPT !.kv = { e \in @ : e[1] # r.nm }]
      [] r.op = "qcreate" /\ r.fit -> [w EXCEPT !.q = @ \cup {r.nm}]
      [] r.op = "qdelete" /\ r.fit -> [w EXCEPT !.q = @ \ {r.nm}]
      [] r.op = "screate" /\ r.fit -> [w EXCEPT !.s = @ \cup {r.nm}]
      [] r.op = "sdelete" /\ r.fit -> [w EXCEPT !.s = @ \ {r.nm}]
      [] r.op = "qpush" /\ r.nm = "canary" /\ r.nm \in w.q -> [w EXCEPT !.cq = Append(@, r.v)]
      [] r.op = "spub" /\ r.nm = "canary" /\ r.nm \in w.s -> [w EXCEPT !.cs = Append(@, r.v)]
      [] OTHER -> w
\* never does anything to it
Reads(r) == ~WellFormed(r) \/ ~(r.op \in {"set", "del", "qcreate", "qdelete", "screate", "sdelete"} \/ (r.op \in {"qpush", "spub"} /\ r.nm = "canary"))
\* can it change anything the inspection endpoints show?
Inert(r) == ~WellFormed(r) \/ r.op \in {"echo", "get", "qexists", "qpeek", "sexists"} \/ ~r.fit
=============================================================================
