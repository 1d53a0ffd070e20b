------------------------------- MODULE Store -------------------------------
(***************************************************************************)
(* The key-value store of nexo: the entries that exist, each with the end  *)
(* of its lifetime.  StoreMC gives these operators to TLC as a state       *)
(* machine, StoreSweep refines set, get, delete and the cleanup sweep into *)
(* their steps, StoreTrace validates executions of the real server.        *)
(*                                                                         *)
(*   st     set of [k, v, lo, hi]: key k holds value v until an instant    *)
(*          between lo and hi (they differ only if the clock moved while   *)
(*          the set was in progress)                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

NoStore == {}
Of(st, k) == { e \in st : e.k = k }
Put(st, k, v, lo, hi) == (st \ Of(st, k)) \cup {[k |-> k, v |-> v, lo |-> lo, hi |-> hi]}
Remove(st, k) == st \ Of(st, k)
\* at the very instant its lifetime ends an entry may be seen or not
Alive(e, now) == now <= e.hi
Sure(e, now) == now < e.lo
\* does a get at time now answer v ("absent" if there is nothing)?
MayRead(st, k, v, now) ==
    IF v = "absent" THEN \A e \in Of(st, k) : ~Sure(e, now)
    ELSE \E e \in Of(st, k) : e.v = v /\ Alive(e, now)
\* cleanup: only entries whose lifetime is over disappear
Sweep(st, gone, now) == st \ gone
Sweepable(st, now) == { e \in st : ~Sure(e, now) }
Matching(st, now) == { e \in st : Alive(e, now) }
Certain(st, now) == { e \in st : Sure(e, now) }
=============================================================================
