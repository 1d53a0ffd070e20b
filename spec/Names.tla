------------------------------- MODULE Names -------------------------------
(***************************************************************************)
(* Names and files.  Every queue and topic keeps its state in files whose  *)
(* paths derive from its name.  Which names can be accepted so that no two *)
(* share a file, none reaches outside its directory, and the files found   *)
(* after a crash tell which names there were?  NamesMC checks this scheme  *)
(* over all short names; NamesTrace holds the real server to Storable.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* what is known of a name: its characters (of interest), its length in bytes
\* can a file or directory be named like this?
Plain(cs) == \A i \in 1..Len(cs) : cs[i] \notin {"/", "NUL"}
Dots(cs) == cs \in {<<>>, <<".">>, <<".", ".">>}
MaxFile == 255
\* names are text: bytes that are not ("BAD") name nothing
Text(cs) == \A i \in 1..Len(cs) : cs[i] # "BAD"
\* queues: files named name + suffix; topics: a directory named name; groups: a record with a two-byte length
Storable(kind, cs, len) ==
    Text(cs) /\
    CASE kind = "queue" -> Plain(cs) /\ len + 12 <= MaxFile
      [] kind = "topic" -> Plain(cs) /\ ~Dots(cs) /\ len <= MaxFile
      [] kind = "group" -> len <= 65535
      [] OTHER -> TRUE
\* a server may be stricter: room for longer suffixes, separators of other systems
Doubtful(kind, cs, len) ==
    \/ kind = "queue" /\ len + 20 > MaxFile
    \/ kind \in {"queue", "topic"} /\ \E i \in 1..Len(cs) : cs[i] = "\\"
=============================================================================
