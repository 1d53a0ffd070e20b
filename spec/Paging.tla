------------------------------- MODULE Paging -------------------------------
(***************************************************************************)
(* Paging through a listing that does not change meanwhile.  Entries match *)
(* the search or not, and exist or have expired without having been swept  *)
(* yet; a client asks for page after page.  Page is what a page must be;   *)
(* the other modes are ways of computing it that go wrong.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxN,      \* entries
          MaxLim,    \* page length
          Mode,      \* how pages are computed
          Top        \* where offset + limit wraps around (mode "wraps")
VARIABLES e,         \* the entries, in the order of the listing
          lim, off, got, total, over
vars == <<e, lim, off, got, total, over>>

Wanted(x) == x.m /\ x.live
Shown(q) == SelectSeq(q, Wanted)
Min(a, b) == IF a < b THEN a ELSE b
Cut(q, o, l) == SubSeq(q, o + 1, Min(o + l, Len(q)))
Page(q, o, l) == Cut(Shown(q), o, l)

Matches(x) == x.m
Answer ==
  CASE Mode = "right"               -> [p |-> Page(e, off, lim), n |-> Len(Shown(e))]
    [] Mode = "cuts_before_filter"  -> [p |-> Shown(Cut(e, off, lim)), n |-> Len(Shown(e))]
    [] Mode = "skips_before_filter" -> [p |-> Cut(Shown(SubSeq(e, off + 1, Len(e))), 0, lim), n |-> Len(Shown(e))]
    [] Mode = "expired_later"       -> [p |-> Shown(Cut(SelectSeq(e, Matches), off, lim)), n |-> Len(Shown(e))]
    [] Mode = "total_of_all"        -> [p |-> Page(e, off, lim), n |-> Len(e)]
    [] Mode = "total_of_page"       -> [p |-> Page(e, off, lim), n |-> Len(Page(e, off, lim))]
    [] Mode = "inclusive"           -> [p |-> Cut(Shown(e), off, lim + 1), n |-> Len(Shown(e))]
    [] Mode = "wraps"               -> [p |-> SubSeq(Shown(e), off + 1, Min((off + lim) % Top, Len(Shown(e)))), n |-> Len(Shown(e))]

Entry == [m : BOOLEAN, live : BOOLEAN]
Init == /\ \E n \in 0..MaxN : \E f \in [1..n -> Entry] : e = [i \in 1..n |-> [id |-> i, m |-> f[i].m, live |-> f[i].live]]
        /\ lim \in 1..MaxLim /\ off = 0 /\ got = <<>> /\ total = -1 /\ over = FALSE
Ask == LET a == Answer IN
       /\ ~over
       /\ got' = got \o a.p /\ total' = a.n
       /\ off' = off + lim /\ over' = (off + lim >= a.n)
       /\ UNCHANGED <<e, lim>>
Spec == Init /\ [][Ask]_vars

Ids == { got[i].id : i \in 1..Len(got) }
Inv_Once  == Cardinality(Ids) = Len(got)
Inv_Only  == \A i \in 1..Len(got) : Wanted(got[i])
Inv_All   == over => Ids = { e[i].id : i \in { i \in 1..Len(e) : Wanted(e[i]) } }
Inv_Total == total # -1 => total = Cardinality({ i \in 1..Len(e) : Wanted(e[i]) })
Inv_Short == Len(got) <= off
=============================================================================
