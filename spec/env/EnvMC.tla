--------------------------------- MODULE EnvMC ---------------------------------
(* Two environments, documents exported from them and loaded with and without a  *)
(* root, section updates: what is stored is found, nothing else changes.         *)
EXTENDS Env
CONSTANTS Keys, Vals, MaxSteps
VARIABLES s, n, ghost
vars == <<s, n, ghost>>
\* ghost: environment -> address -> the value a lookup has to find
Envs == {1, 2}
None == [ok |-> TRUE, sec |-> {1, 2}, bad |-> {}, p |-> <<>>]
Init == /\ s = [New(New(Fresh(<<>>), 1, "config", <<>>), 2, "config", <<>>) EXCEPT !.doc = (1 :> None)]
        /\ n = 0 /\ ghost = [e \in Envs |-> <<>>]
Step == n < MaxSteps /\ n' = n + 1
Set(e) == /\ Step /\ \E t \in 1..2, k \in Keys, r \in {"", "r"}, v \in Vals :
               /\ s' = [s EXCEPT !.env[e].p = Put(@, <<t, Full(k, r)>>, v)]
               /\ ghost' = [ghost EXCEPT ![e] = (<<t, Full(k, r)>> :> v) @@ @]
Export(e) == /\ Step /\ \E sec \in {{1}, {2}, {1, 2}} :
                  s' = [s EXCEPT !.doc[1] = [ok |-> TRUE, sec |-> sec, bad |-> {},
                                             p |-> [x \in {y \in DOMAIN s.env[e].p : y[1] \in sec} |-> s.env[e].p[x]]]]
             /\ UNCHANGED ghost
Load(e) == /\ Step /\ \E r \in {"", "r"} : LET q == Below(s.doc[1].p, r) IN
                /\ s' = [s EXCEPT !.env[e].p = @ @@ q]
                /\ ghost' = [ghost EXCEPT ![e] = [x \in DOMAIN ghost[e] \cup DOMAIN q |->
                                                    IF x \in DOMAIN ghost[e] THEN ghost[e][x] ELSE q[x]]]
Update(e) == /\ Step /\ s' = [s EXCEPT !.env[e].p = Replaced(@, s.doc[1])]
             /\ LET d == s.doc[1] own == {x \in DOMAIN ghost[e] : x[1] \notin d.sec} IN
                ghost' = [ghost EXCEPT ![e] = [x \in own \cup DOMAIN d.p |-> IF x \in own THEN ghost[e][x] ELSE d.p[x]]]
Next == \E e \in Envs : Set(e) \/ Export(e) \/ Load(e) \/ Update(e)
Spec == Init /\ [][Next]_vars
\* ----
Finds == \A e \in Envs : s.env[e].p = ghost[e]
Reproduces == \A e \in Envs : LET d == [ok |-> TRUE, sec |-> Types, bad |-> {}, p |-> s.env[e].p] IN
                Below(d.p, "") = s.env[e].p /\ Replaced(s.env[3 - e].p, d) = s.env[e].p
================================================================================
