------------------------------ MODULE Framing ------------------------------
(***************************************************************************)
(* How a connection's byte stream becomes requests.  A frame is a header   *)
(* of H bytes announcing the length of its payload, then the payload.  The *)
(* reader below gets the stream in arbitrary pieces; what it hands over    *)
(* must depend on the bytes alone: the frames that are complete, up to the *)
(* first one that announces more than the limit, and nothing after that.   *)
(* Bytes are numbered, and a payload may look like a frame.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS H,         \* length of a header
          Sizes,     \* payload lengths that occur
          Max,       \* the limit
          MaxFrames,
          Mode       \* "right", or a way to get it wrong
VARIABLES script,    \* the frames the client sends: sequence of payload lengths
          sent,      \* bytes that have arrived
          pos,       \* bytes the reader has consumed
          out,       \* frames handed over: sequence of [at, size]
          broken,    \* the reader has given up
          act
vars == <<script, sent, pos, out, broken, act>>

RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN 0 ELSE H + (IF Head(s) > Max THEN 0 ELSE Head(s)) + Total(Tail(s))
\* (of a frame above the limit only the header is sent)
\* a frame begins at byte Start(i); the bytes there announce script[i]
RECURSIVE Start(_)
Start(i) == IF i = 1 THEN 0 ELSE Start(i - 1) + H + (IF script[i - 1] > Max THEN 0 ELSE script[i - 1])
At(p) == { i \in 1..Len(script) : Start(i) = p }
\* what the bytes at p announce: inside a payload a hostile client has put an empty frame's header
Announce(p) == IF At(p) # {} THEN script[CHOOSE i \in At(p) : TRUE] ELSE 0

Init == /\ script \in UNION { [1..n -> Sizes] : n \in 1..MaxFrames }
        /\ sent = 0 /\ pos = 0 /\ out = <<>> /\ broken = FALSE /\ act = <<>>
Arrive == \E n \in 1..(Total(script) - sent) :
          sent' = sent + n /\ act' = <<"arrive", n>> \o script /\ UNCHANGED <<script, pos, out, broken>>
Have == sent - pos
Limit(n) == IF Mode = "off_by_one" THEN n >= Max ELSE IF Mode = "with_header" THEN n + H > Max ELSE n > Max
Decode == /\ ~broken /\ Have >= H
          /\ act' = <<"decode">> /\ UNCHANGED <<script, sent>>
          /\ LET n == Announce(pos) IN
             IF Limit(n) /\ (Mode # "late" \/ Have >= H + 1)
             THEN IF Mode = "skips" THEN pos' = pos + H /\ UNCHANGED <<out, broken>>
                  ELSE broken' = TRUE /\ UNCHANGED <<pos, out>>
             ELSE IF Mode = "early" \/ Have >= H + n
                  THEN /\ out' = Append(out, [at |-> pos, size |-> n])
                       /\ pos' = (IF Mode = "short" THEN pos + H ELSE IF Mode = "early" /\ sent < pos + H + n THEN sent ELSE pos + H + n)
                       /\ UNCHANGED broken
                  ELSE Mode = "drops" /\ pos' = sent /\ UNCHANGED <<out, broken>>
Next == Arrive \/ Decode
Spec == Init /\ [][Next]_vars

\* the frames the bytes that arrived amount to
RECURSIVE Due(_)
Due(i) == IF i > Len(script) \/ script[i] > Max \/ Start(i) + H + script[i] > sent THEN <<>>
          ELSE <<[at |-> Start(i), size |-> script[i]]>> \o Due(i + 1)
Prefix(a, b) == Len(a) <= Len(b) /\ \A i \in 1..Len(a) : a[i] = b[i]
Inv_Only == Prefix(out, Due(1))
Idle == ~ENABLED Decode
Inv_All == Idle => out = Due(1)
\* a frame above the limit is refused as soon as its header is there
Inv_Refused == Idle => (broken <=> \E i \in 1..Len(script) : script[i] > Max /\ Start(i) + H <= sent /\ \A j \in 1..(i - 1) : script[j] <= Max)
\* walks for the real server: the reader is eager
NextWalk == IF ENABLED Decode THEN Decode ELSE Arrive
=============================================================================
