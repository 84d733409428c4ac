------------------------------ MODULE ServiceMC ------------------------------
(* All histories of two services on a bus, one on a second bus and one alone. *)
EXTENDS Service
CONSTANTS MaxCommands
VARIABLES s, n, hist
vars == <<s, n, hist>>
\* hist: what was published on each bus (0: asked of the service on its own), up to now
Init == s = Fresh([on |-> <<1, 1, 2, 0>>, sync |-> <<1, 0>>, chain |-> 1]) /\ n = 0 /\ hist = [k \in 1..4 |-> <<>>]
Note(k, cmd) == [hist EXCEPT ![k] = Append(@, cmd)]
Publish == /\ n < MaxCommands /\ n' = n + 1
           /\ \E b \in 1..2, cmd \in 0..2 :
                /\ s' = Command(s, b, cmd)
                /\ hist' = [k \in 1..4 |-> IF Reaches(s, b, k) THEN Append(hist[k], cmd) ELSE hist[k]]
Asked == /\ n < MaxCommands /\ n' = n + 1
         /\ \E k \in 1..4, cmd \in 0..1 : s' = Ask(s, k, cmd) /\ hist' = Note(k, cmd)
Takes == \E k \in 1..4, cmd \in 0..1 : Ready(s, k, cmd) /\ s' = Take(s, k) /\ UNCHANGED <<n, hist>>
Next == Publish \/ Asked \/ Takes
Spec == Init /\ [][Next]_vars /\ WF_vars(Takes)
\* ---- a service alternates; once it has taken everything it is where its last start or stop command put it
RECURSIVE Last(_, _)
Last(q, up) == IF q = <<>> THEN up ELSE Last(Tail(q), IF Head(q) = Start THEN TRUE ELSE IF Head(q) = Stop THEN FALSE ELSE up)
Obeys == \A k \in 1..4 : s.todo[k] = <<>> => s.up[k] = Last(hist[k], FALSE)
OnlyChanges == \A k \in 1..4 : s.todo[k] # <<>> => Head(s.todo[k]) = IF s.up[k] THEN Stop ELSE Start
Alone == (s.todo[4] = <<>> /\ ~s.up[4]) \/ hist[4] # <<>>
Settles == <>[](Settled(s))
==============================================================================
