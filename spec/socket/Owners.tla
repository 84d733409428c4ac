-------------------------------- MODULE Owners --------------------------------
(* Ownership of descriptors: objects are made, moved, assigned, accepted,      *)
(* closed and destroyed in any order; the system reuses descriptors.           *)
EXTENDS Socket
CONSTANTS Objs, Fds, MaxSteps
VARIABLES s, n, alive, closes, opens
vars == <<s, n, alive, closes, opens>>
Init == s = Fresh(<<>>) /\ n = 0 /\ alive = {} /\ closes = 0 /\ opens = 0
Step == n < MaxSteps /\ n' = n + 1
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Free == Fds \ s.open
\* the system hands out the lowest free descriptor; construction may fail after it was opened, which closes it again
Make(o) == /\ Step /\ o \notin alive /\ Free # {}
           /\ LET fd == Least(Free) IN
              \/ /\ s' = Set([s EXCEPT !.open = @ \cup {fd}], o, fd) /\ alive' = alive \cup {o}
                 /\ opens' = opens + 1 /\ UNCHANGED closes
              \/ opens' = opens + 1 /\ closes' = closes + 1 /\ UNCHANGED <<s, alive>>
CloseFd(x, fd) == [x EXCEPT !.open = @ \ {fd}]
Close(o) == /\ Step /\ o \in alive /\ Own(s, o) # -1
            /\ s' = Set(CloseFd(s, Own(s, o)), o, -1) /\ closes' = closes + 1 /\ UNCHANGED <<alive, opens>>
\* constructed from another one, which owns nothing any more
Move(o, x) == /\ Step /\ o \notin alive /\ x \in alive /\ o # x
              /\ s' = Set(Set(s, o, Own(s, x)), x, -1) /\ alive' = alive \cup {o} /\ UNCHANGED <<closes, opens>>
\* assigned: exchanged (or the target's closed first), also with itself
Assign(o, x) == /\ Step /\ {o, x} \subseteq alive
                /\ s' = Set(Set(s, o, Own(s, x)), x, Own(s, o)) /\ UNCHANGED <<alive, closes, opens>>
Destroy(o) == /\ o \in alive /\ alive' = alive \ {o}
              /\ s' = [CloseFd(s, Own(s, o)) EXCEPT !.own = [y \in DOMAIN @ \ {o} |-> @[y]]]
              /\ closes' = closes + IF Own(s, o) = -1 THEN 0 ELSE 1
              /\ UNCHANGED <<n, opens>>
Next == (\E o \in Objs : Make(o) \/ Close(o) \/ Destroy(o)) \/ \E o, x \in Objs : Move(o, x) \/ Assign(o, x)
Spec == Init /\ [][Next]_vars
\* ----
OnlyOwner == \A o, x \in DOMAIN s.own : o # x /\ s.own[o] # -1 => s.own[o] # s.own[x]
OwnedIsOpen == Owned(s) = s.open
ClosedOnce == opens - closes = Cardinality(s.open)
NothingLeft == alive = {} => s.open = {}
===============================================================================
