---------------------------------- MODULE Zmq ----------------------------------
(* Publish/subscribe channels over ZMQ.                                         *)
(*   wants  for each subscriber the topics it gets of each publisher            *)
(*   run    subscriber -> its poller runs                                       *)
(*   reg    subscriber -> (topic -> registration)                               *)
(*   q      subscriber -> messages received and not known to be processed:      *)
(*          topic, event (0 if malformed), skip (may have been passed over:     *)
(*          malformed, or not registered while the poller could have taken it)  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Fresh(w) == LET K == DOMAIN w IN
  [wants |-> w, run |-> [k \in K |-> FALSE], reg |-> [k \in K |-> <<>>], q |-> [k \in K |-> <<>>]]
Put(f, k, v) == (k :> v) @@ f
Ignored(s, k, m) == m.ev = 0 \/ m.topic \notin DOMAIN s.reg[k]
\* the poller may pass over what it ignores, in order
RECURSIVE Passed(_, _, _)
Passed(s, k, i) == IF i > Len(s.q[k]) THEN s
                   ELSE IF s.q[k][i].skip \/ Ignored(s, k, s.q[k][i]) THEN Passed([s EXCEPT !.q[k][i].skip = TRUE], k, i + 1)
                   ELSE s
Pass(s, k) == IF s.run[k] THEN Passed(s, k, 1) ELSE s
RECURSIVE PassAll(_, _)
PassAll(s, K) == IF K = {} THEN s ELSE LET k == CHOOSE k \in K : TRUE IN PassAll(Pass(s, k), K \ {k})
Gets(s, k, p, t) == \E i \in DOMAIN s.wants[k][p] : s.wants[k][p][i] = t
Published(s, p, t, ev) ==
  PassAll([s EXCEPT !.q = [k \in DOMAIN s.q |-> IF Gets(s, k, p, t) THEN Append(s.q[k], [topic |-> t, ev |-> ev, skip |-> FALSE])
                                                ELSE s.q[k]]], DOMAIN s.q)
Registered(s, k, t, r) == IF t \in DOMAIN s.reg[k] THEN s ELSE [s EXCEPT !.reg[k] = Put(@, t, r)]
Unregistered(s, k, t) == Pass([s EXCEPT !.reg[k] = [x \in DOMAIN @ \ {t} |-> @[x]]], k)
Started(s, k) == Pass([s EXCEPT !.run[k] = TRUE], k)
Stopped(s, k) == [s EXCEPT !.run[k] = FALSE]
\* the message the poller takes next to process it
Next1(s, k, t, ev) == {i \in DOMAIN s.q[k] : s.q[k][i].topic = t /\ s.q[k][i].ev = ev /\ \A j \in 1..(i - 1) : s.q[k][j].skip}
Taken(s, k, i) == Pass([s EXCEPT !.q[k] = SubSeq(@, i + 1, Len(@))], k)
Idle(s) == \A k \in DOMAIN s.q : s.run[k] => \A i \in DOMAIN s.q[k] : s.q[k][i].skip
================================================================================
