-------------------------------- MODULE Stack --------------------------------
(* The lock-free stack and the object pool on top of it, as users see them.   *)
(*   q       elements in the stack, top last;  cap: its nodes                 *)
(*   idle    objects in the pool      out    objects in somebody's hands      *)
(*   dying   objects their last holder destroys, the pool being gone          *)
(*   fin     finalized objects        dead   destroyed objects                *)
(*   ending  the pool is being destroyed;  gone: it has been                  *)
(*   late    objects that came back while the pool was being destroyed        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Fresh(c) == [q |-> c.init, cap |-> c.cap, idle |-> IF c.pool = 1 THEN 1..c.cap ELSE {}, out |-> {}, dying |-> {},
             fin |-> {}, dead |-> {}, ending |-> FALSE, gone |-> FALSE, late |-> {}, hasFin |-> c.fin, fails |-> 0, weak |-> c.weak]
Front(s) == SubSeq(s, 1, Len(s) - 1)
Objects(s) == s.idle \cup s.out \cup s.dying \cup s.dead

Acquire(s, o) == [s EXCEPT !.idle = @ \ {o}, !.out = @ \cup {o}]
Return(s, o) == [s EXCEPT !.out = @ \ {o}, !.idle = @ \cup {o}, !.late = IF s.ending THEN @ \cup {o} ELSE @]
Drop(s, o) == [s EXCEPT !.out = @ \ {o}, !.dying = @ \cup {o}]
CanFinalize(s, o) == s.ending /\ ~s.gone /\ o \in s.idle /\ o \notin s.fin
CanDestroy(s, o) == \/ o \in s.dying
                    \/ o \in s.idle /\ s.ending /\ (s.hasFin = 0 \/ o \in s.fin \/ o \in s.late)
Destroy(s, o) == [s EXCEPT !.dying = @ \ {o}, !.idle = @ \ {o}, !.dead = @ \cup {o}]
CanEnd(s) == s.idle \subseteq s.late
=============================================================================
