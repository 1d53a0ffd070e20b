------------------------------ MODULE NamesMC ------------------------------
(***************************************************************************)
(* The naming scheme over all names up to MaxLen characters.  Paths are    *)
(* resolved as a file system does; a queue's files are name.d and name.c   *)
(* in the directory "q", a topic is the directory "s"/name with a file in  *)
(* it.  Mode: "right", or a scheme that is wrong.                          *)
(***************************************************************************)
EXTENDS Names, TLC
CONSTANTS MaxLen, MaxLive, Mode
Chars == {"a", "b", "d", ".", "/"}
AllNames == UNION { [1..n -> Chars] : n \in 0..MaxLen }
\* the name as the scheme uses it
Enc(n) == CASE Mode = "folds" -> [i \in 1..Len(n) |-> IF n[i] = "b" THEN "a" ELSE n[i]]
            [] Mode = "cuts" -> SubSeq(n, 1, IF Len(n) > 2 THEN 2 ELSE Len(n))
            [] OTHER -> n
Accepts(kind, n) == IF Mode = "unchecked" THEN TRUE ELSE IF Mode = "dots" /\ kind = "topic" THEN Plain(n) ELSE Storable(kind, n, Len(n))
\* components of a path, resolved from the top of the data directory
RECURSIVE Split(_, _, _)
Split(n, cur, acc) == IF n = <<>> THEN Append(acc, cur)
                      ELSE IF Head(n) = "/" THEN Split(Tail(n), <<>>, Append(acc, cur))
                      ELSE Split(Tail(n), Append(cur, Head(n)), acc)
RECURSIVE Res(_, _)
Res(parts, at) == IF parts = <<>> THEN at
                  ELSE LET p == Head(parts) IN
                       Res(Tail(parts), IF p \in {<<>>, <<".">>} THEN at
                                        ELSE IF p = <<".", ".">> THEN (IF at = <<>> THEN <<>> ELSE SubSeq(at, 1, Len(at) - 1))
                                        ELSE Append(at, p))
Base(kind) == IF kind = "queue" THEN <<<<"Q">>>> ELSE <<<<"S">>>>
Path(kind, n) == IF n # <<>> /\ n[1] = "/" THEN Res(Split(n, <<>>, <<>>), <<>>) ELSE Res(Split(n, <<>>, <<>>), Base(kind))
Files(kind, n) == LET e == Enc(n) IN IF kind = "queue" THEN {Path(kind, e \o <<".", "d">>), Path(kind, e \o <<".", "c">>)} ELSE {Append(Path(kind, e), <<"log">>)}
Things == { <<k, n>> : k \in {"queue", "topic"}, n \in AllNames }
VARIABLES disk,   \* path -> what was written there last
          live, tick
vars == <<disk, live, tick>>
Init == disk = <<>> /\ live = <<>> /\ tick = 0
Upd(f, S, v) == [p \in DOMAIN f \cup S |-> IF p \in S THEN v ELSE f[p]]
Cut(f, S) == [p \in DOMAIN f \ S |-> f[p]]
Write(x) == /\ Accepts(x[1], x[2]) /\ (x \in DOMAIN live \/ Cardinality(DOMAIN live) < MaxLive)
            /\ tick < MaxLive + 1
            /\ tick' = tick + 1 /\ live' = Upd(live, {x}, tick) /\ disk' = Upd(disk, Files(x[1], x[2]), <<x, tick>>)
Under(d, p) == Len(p) >= Len(d) /\ SubSeq(p, 1, Len(d)) = d
Delete(x) == /\ x \in DOMAIN live
             /\ live' = Cut(live, {x})
             /\ disk' = IF x[1] = "queue" THEN Cut(disk, Files(x[1], x[2])) ELSE Cut(disk, { p \in DOMAIN disk : Under(Path(x[1], Enc(x[2])), p) })
             /\ UNCHANGED tick
Next == \E x \in Things : Write(x) \/ Delete(x)
Spec == Init /\ [][Next]_vars
\* files stay where they belong ...
Inv_Contained == \A p \in DOMAIN disk : (Len(p) = 2 /\ p[1] = <<"Q">>) \/ (Len(p) = 3 /\ p[1] = <<"S">> /\ p[3] = <<"log">>)
\* ... nobody overwrites or removes another's ...
Inv_Own == \A x \in DOMAIN live : \A p \in Files(x[1], x[2]) : p \in DOMAIN disk /\ disk[p] = <<x, live[x]>>
\* ... and what is found after a crash is what there was
Ends(n, s) == Len(n) >= Len(s) /\ SubSeq(n, Len(n) - Len(s) + 1, Len(n)) = s
RECURSIVE Strip(_)
Strip(n) == IF Ends(n, <<".", "d">>) THEN (IF Mode = "strips_all" THEN Strip(SubSeq(n, 1, Len(n) - 2)) ELSE SubSeq(n, 1, Len(n) - 2)) ELSE n
Found == { <<"queue", Strip(p[2])>> : p \in { p \in DOMAIN disk : Len(p) = 2 /\ p[1] = <<"Q">> /\ Ends(p[2], <<".", "d">>) } }
         \cup { <<"topic", p[2]>> : p \in { p \in DOMAIN disk : Len(p) = 3 /\ p[1] = <<"S">> } }
Inv_Found == Found = DOMAIN live
=============================================================================
