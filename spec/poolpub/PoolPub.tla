------------------------------- MODULE PoolPub -------------------------------
(* Publishers with an object pool as their users see them.                    *)
(*   free    pooled objects nobody holds                                      *)
(*   pub     publishing call -> the object it fills and publishes:            *)
(*           [pooled, fresh (allocated for it), id (0: not seen   *)
(*           yet), v (contents), got (delivered)]                     *)
(*   obj     objects somebody holds: id -> [pooled, n (holders), v]           *)
(*   han     handle of a holder -> id                                         *)
(*   allocs  objects allocated so far, as the statistics count them           *)
(* Configuration: size of the pool, init / cloner / fin: an initializer,      *)
(* cloner, finalizer was given; weak: explored under weak memory ordering,    *)
(* where an acquisition may miss an object released just before.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Fresh(c) == [c |-> c, free |-> c.size, pub |-> <<>>, obj |-> <<>>, han |-> <<>>, allocs |-> c.size]
\* contents: a and b are written by whoever publishes, c by the initializer or the copied event (-1: unknown)
ByValue(s, v) == <<v, v * 10 + s.c.cloner, IF s.c.cloner = 0 THEN 9 ELSE IF s.c.init = 1 THEN 5 ELSE -1>>
InPlace(s, v, whole) == <<v, IF whole = 1 THEN v * 10 + 2 ELSE IF s.c.init = 1 THEN 7 ELSE -1, IF s.c.init = 1 THEN 5 ELSE -1>>
Same(want, got) == \A i \in 1..3 : want[i] = -1 \/ want[i] = got[i]
Use(s, t, pooled, fresh, v) == (t :> [pooled |-> pooled, fresh |-> fresh, id |-> 0, v |-> v, got |-> FALSE]) @@ s.pub
Acquire(s, t, v) ==
  (IF s.free > 0 THEN {[s EXCEPT !.free = @ - 1, !.pub = Use(s, t, TRUE, FALSE, v)]} ELSE {})
  \cup (IF s.free = 0 \/ s.c.weak = 1 THEN {[s EXCEPT !.allocs = @ + 1, !.pub = Use(s, t, FALSE, TRUE, v)]} ELSE {})
Own(s, t, v) == {[s EXCEPT !.pub = Use(s, t, FALSE, FALSE, v)]}
\* the publishing call is seen to use object id: nobody else may have it
InUse(s, id) == id \in DOMAIN s.obj \/ \E t \in DOMAIN s.pub : s.pub[t].id = id
Seen(s, t, id) == IF s.pub[t].id = id THEN {s}
                  ELSE IF s.pub[t].id # 0 \/ InUse(s, id) THEN {} ELSE {[s EXCEPT !.pub[t].id = id]}
Delivered(s, t, id, v) == IF t \in DOMAIN s.pub /\ ~s.pub[t].got /\ Same(s.pub[t].v, v)
                          THEN {[x EXCEPT !.pub[t].got = TRUE, !.pub[t].v = v] : x \in Seen(s, t, id)} ELSE {}
Hold(s, t, h) == LET p == s.pub[t] IN
  [s EXCEPT !.han = (h :> p.id) @@ @,
            !.obj = IF p.id \in DOMAIN @ THEN [@ EXCEPT ![p.id].n = @ + 1]
                    ELSE (p.id :> [pooled |-> p.pooled, n |-> 1, v |-> p.v]) @@ @]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
\* the publishing call gives up its own reference
Done(s, t) == LET p == s.pub[t] IN
  [s EXCEPT !.pub = Del(@, t),
            !.free = IF p.pooled /\ p.id \notin DOMAIN s.obj THEN @ + 1 ELSE @]
Drop(s, h) == LET id == s.han[h] o == s.obj[id]
                  stays == o.n > 1
                  publishing == \E t \in DOMAIN s.pub : s.pub[t].id = id IN
  [s EXCEPT !.han = Del(@, h),
            !.obj = IF stays THEN [@ EXCEPT ![id].n = @ - 1] ELSE Del(@, id),
            !.free = IF ~stays /\ ~publishing /\ o.pooled THEN @ + 1 ELSE @]
\* an allocation is counted while the call that makes it is under way
Counts(s) == LET busy == Cardinality({t \in DOMAIN s.pub : s.pub[t].fresh}) IN (s.allocs - busy)..s.allocs
Holds(s) == Cardinality(DOMAIN s.obj)
==============================================================================
