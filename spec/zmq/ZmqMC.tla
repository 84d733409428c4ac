-------------------------------- MODULE ZmqMC --------------------------------
(* All histories of one publisher and two subscribers within small bounds.    *)
EXTENDS Zmq
CONSTANTS Topics, MaxPubs, MaxSteps
VARIABLES s, n, steps, got, calm
vars == <<s, n, steps, got, calm>>
\* the first subscriber gets both topics, the second one only the first topic; got: what was delivered
Init == /\ s = Fresh(<<(<<(<<1, 2>>)>>), (<<(<<1>>)>>)>>) /\ n = 0 /\ steps = 0 /\ got = [k \in 1..2 |-> <<>>]
        /\ calm = [k \in 1..2 |-> [t \in Topics |-> <<>>]]
Step == steps < MaxSteps /\ steps' = steps + 1
\* calm: events published while subscriber k ran with the topic registered, since then
Publish == /\ n < MaxPubs /\ n' = n + 1
           /\ \E t \in Topics, bad \in BOOLEAN :
                /\ s' = Published(s, 1, t, IF bad THEN 0 ELSE n + 1)
                /\ calm' = [k \in 1..2 |-> [x \in Topics |-> IF x = t /\ ~bad /\ Gets(s, k, 1, t) /\ s.run[k] /\ t \in DOMAIN s.reg[k]
                                                             THEN Append(calm[k][x], n + 1) ELSE calm[k][x]]]
           /\ UNCHANGED <<steps, got>>
Forget(k, T) == calm' = [calm EXCEPT ![k] = [t \in Topics |-> IF t \in T THEN <<>> ELSE calm[k][t]]]
Reg == Step /\ \E k \in 1..2, t \in Topics : s' = Registered(s, k, t, 1) /\ UNCHANGED <<n, got, calm>>
Unreg == Step /\ \E k \in 1..2 : \E t \in DOMAIN s.reg[k] : s' = Unregistered(s, k, t) /\ Forget(k, {t}) /\ UNCHANGED <<n, got>>
Run == Step /\ \E k \in 1..2 : ~s.run[k] /\ s' = Started(s, k) /\ UNCHANGED <<n, got, calm>>
Halt == Step /\ \E k \in 1..2 : s.run[k] /\ s' = Stopped(s, k) /\ UNCHANGED <<n, got, calm>>
Deliver == \E k \in 1..2 : /\ s.run[k]
             /\ \E t \in DOMAIN s.reg[k] : \E ev \in 1..n : \E i \in Next1(s, k, t, ev) :
                  s' = Taken(s, k, i) /\ got' = [got EXCEPT ![k] = Append(@, <<t, ev>>)]
             /\ UNCHANGED <<n, steps, calm>>
Next == Publish \/ Reg \/ Unreg \/ Run \/ Halt \/ Deliver
Spec == Init /\ [][Next]_vars /\ WF_vars(Deliver)
\* ---- in order, at most once, and only topics a subscriber asked for
Sorted == \A k \in 1..2 : \A i, j \in DOMAIN got[k] : i < j => got[k][i][2] < got[k][j][2]
OwnTopics == \A i \in DOMAIN got[2] : got[2][i][1] = 1
\* what came for a topic registered throughout is delivered or still to be delivered
Kept == \A k \in 1..2, t \in Topics : \A i \in DOMAIN calm[k][t] :
          LET ev == calm[k][t][i] IN
          \/ \E j \in DOMAIN got[k] : got[k][j] = <<t, ev>>
          \/ \E j \in DOMAIN s.q[k] : s.q[k][j].ev = ev /\ ~s.q[k][j].skip
Drains == <>[](\A k \in 1..2 : s.run[k] => \A i \in DOMAIN s.q[k] : s.q[k][i].skip \/ s.q[k][i].topic \notin DOMAIN s.reg[k])
==============================================================================
