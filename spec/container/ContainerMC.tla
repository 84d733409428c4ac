----------------------------- MODULE ContainerMC -----------------------------
(* All histories of a container within small bounds.                          *)
EXTENDS Container
CONSTANTS MaxSteps
VARIABLES s, n, att, starts
vars == <<s, n, att, starts>>
\* att: <<kind, object>> -> times attached and not detached
Obj(k) == IF k = 0 THEN {1} ELSE IF k = 2 THEN {1, 2} ELSE {10 * k}
Att(k, o) == IF <<k, o>> \in DOMAIN att THEN att[<<k, o>>] ELSE 0
Init == s = Fresh(<<>>) /\ n = 0 /\ att = <<>> /\ starts = 0
Step == n < MaxSteps /\ n' = n + 1
Set(k, o, v) == IF k = 0 THEN (<<0, o>> :> v) @@ att ELSE (<<k, o>> :> v) @@ att
Attaches == Step /\ \E k \in {0, 1, 3} : \E o \in Obj(k) : s' = Attach(s, k, o) /\ att' = Set(k, o, Att(k, o) + 1) /\ UNCHANGED starts
Detaches == Step /\ \E k \in {0, 1, 3} : \E o \in Obj(k) :
              s' = Detach(s, k, o) /\ att' = Set(k, o, IF Att(k, o) = 0 THEN 0 ELSE Att(k, o) - 1) /\ UNCHANGED starts
Starts == Step /\ ~s.running /\ s' = Start(s) /\ starts' = starts + 1 /\ UNCHANGED att
Stops == Step /\ s.running /\ s' = Stop(s) /\ UNCHANGED <<att, starts>>
Next == Attaches \/ Detaches \/ Starts \/ Stops
Spec == Init /\ [][Next]_vars
\* ----
Exact == \A k \in {0, 1, 3} : \A o \in Obj(k) : Count(s.reg[k], o) = Att(k, o)
ServiceStats == Count(s.reg[2], 1) = Att(0, 1)
\* never stopped more often than started; running exactly those attached (if none was detached meanwhile)
Balanced == \A o \in DOMAIN s.n : s.n[o][2] <= s.n[o][1]
==============================================================================
