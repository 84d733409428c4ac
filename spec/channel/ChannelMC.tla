------------------------------- MODULE ChannelMC -------------------------------
(* A pipeline: events are mapped on publication, travel on the wire in order     *)
(* and are mapped back and forwarded by the receiving thread.                    *)
EXTENDS Channel
CONSTANTS Publishers, MaxEvents
VARIABLES s, n, pub, fwd
vars == <<s, n, pub, fwd>>
Init == s = Fresh([pipes |-> 1]) /\ n = 0 /\ pub = <<>> /\ fwd = <<>>
Publish(t) == /\ n < MaxEvents /\ n' = n + 1 /\ s' = Published(s, 1, <<t, n + 1>>) /\ pub' = Append(pub, <<t, n + 1>>) /\ UNCHANGED fwd
\* a message that cannot be converted, or a publication that fails, goes nowhere
Refused(t) == n < MaxEvents /\ n' = n + 1 /\ UNCHANGED <<s, pub, fwd>>
Receive == /\ At(s.q, 1) # <<>> /\ At(s.f, <<1, 9>>) = <<>> /\ s' = Received(s, 1, 9) /\ UNCHANGED <<n, pub, fwd>>
Forward == /\ At(s.f, <<1, 9>>) # <<>> /\ s' = Forwarded(s, 1, 9) /\ fwd' = Append(fwd, Head(At(s.f, <<1, 9>>))) /\ UNCHANGED <<n, pub>>
Next == (\E t \in Publishers : Publish(t) \/ Refused(t)) \/ Receive \/ Forward
Spec == Init /\ [][Next]_vars /\ WF_vars(Receive) /\ WF_vars(Forward)
\* ---- exactly once and in order
InOrder == fwd \o At(s.f, <<1, 9>>) \o At(s.q, 1) = pub
Arrives == <>(fwd = pub /\ Settled(s)) /\ <>[](fwd = pub)
================================================================================
