------------------------------ MODULE ZmqEnvMC ------------------------------
(* Two environments that follow each other and a third which only listens.     *)
EXTENDS ZmqEnv
CONSTANTS MaxSets
VARIABLES s, n, busy, sent
vars == <<s, n, busy, sent>>
\* sent: what environment 1 has sent (3 follows it and nobody else)
Init == /\ s = [FreshZ(<<(<<2, 3>>), (<<1>>), (<<>>)>>) EXCEPT !.up = 1..3] /\ n = 0 /\ busy = [e \in 1..2 |-> FALSE] /\ sent = <<>>
Set(e) == /\ ~busy[e] /\ n < MaxSets /\ n' = n + 1
          /\ \E k \in {"a", "b"} : s' = Changed(s, e, <<1, k>>, n + 1)
          /\ busy' = [busy EXCEPT ![e] = TRUE] /\ UNCHANGED sent
Send(e) == /\ busy[e] /\ s' = Shared(s, e) /\ busy' = [busy EXCEPT ![e] = FALSE] /\ UNCHANGED n
           /\ sent' = IF e = 1 THEN Append(sent, s.env[1]) ELSE sent
Adopt(e) == CanAdopt(s, e) /\ s' = Adopted(s, e) /\ UNCHANGED <<n, busy, sent>>
Next == (\E e \in 1..2 : Set(e) \/ Send(e)) \/ \E e \in 1..3 : Adopt(e)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* ---- the one that only listens goes through the sent states in order and ends with the last
Follow == LET k == Len(sent) - Len(s.q[3]) IN s.env[3] = IF k = 0 THEN <<>> ELSE sent[k]
Ends == <>[](s.q[3] = <<>> /\ (sent # <<>> => s.env[3] = sent[Len(sent)]))
==============================================================================
