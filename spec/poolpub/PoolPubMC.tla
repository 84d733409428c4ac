------------------------------ MODULE PoolPubMC ------------------------------
(* All histories of the pool publisher specification within small bounds.     *)
EXTENDS PoolPub
CONSTANTS Callers, Ids, Handles, Size, MaxPubs
VARIABLES s, n, poolIds
vars == <<s, n, poolIds>>
\* ids of pooled objects are 1..Size; allocated ones have other identities
Init == s = Fresh([size |-> Size, init |-> 1, cloner |-> 1, fin |-> 0, weak |-> 0]) /\ n = 0 /\ poolIds = 1..Size
Begin(t) == t \notin DOMAIN s.pub /\ n < MaxPubs /\ n' = n + 1 /\ s' \in Acquire(s, t, ByValue(s, n + 1)) /\ UNCHANGED poolIds
Deliver(t) == /\ t \in DOMAIN s.pub
              /\ \E id \in Ids : (id \in poolIds) = s.pub[t].pooled /\ s' \in Delivered(s, t, id, s.pub[t].v)
              /\ UNCHANGED <<n, poolIds>>
Keep(t) == /\ t \in DOMAIN s.pub /\ s.pub[t].got /\ \E h \in Handles \ DOMAIN s.han : s' = Hold(s, t, h)
           /\ UNCHANGED <<n, poolIds>>
End(t) == t \in DOMAIN s.pub /\ s.pub[t].got /\ s' = Done(s, t) /\ UNCHANGED <<n, poolIds>>
Let == \E h \in DOMAIN s.han : s' = Drop(s, h) /\ UNCHANGED <<n, poolIds>>
Next == (\E t \in Callers : Begin(t) \/ Deliver(t) \/ Keep(t) \/ End(t)) \/ Let
Spec == Init /\ [][Next]_vars
\* ---- every object of the pool is free, being published or held
InPub == {t \in DOMAIN s.pub : s.pub[t].pooled}
HeldOnly == {id \in DOMAIN s.obj : s.obj[id].pooled /\ ~\E t \in InPub : s.pub[t].id = id}
Conserved == s.free + Cardinality(InPub) + Cardinality(HeldOnly) = Size
\* two publications in progress, or one and a holder of an earlier event, never share an object
Isolated == /\ \A t, u \in DOMAIN s.pub : t # u /\ s.pub[t].id # 0 => s.pub[t].id # s.pub[u].id
            /\ \A t \in DOMAIN s.pub : s.pub[t].id \in DOMAIN s.obj => s.obj[s.pub[t].id].v = s.pub[t].v
Unchanged == [][\A id \in DOMAIN s.obj : id \in DOMAIN s'.obj => s'.obj[id].v = s.obj[id].v]_vars
==============================================================================
