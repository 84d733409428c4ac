--------------------------------- MODULE ZmqEnv ---------------------------------
(* Configuration environments replicated over ZMQ.                               *)
(*   to   environment -> the others that follow it (same key, subscribed)        *)
(*   env  environment -> its properties, by type and full key                    *)
(*   q    environment -> what it has received and not yet adopted, in order      *)
(* A change is made locally and then everything the environment holds is sent.   *)
EXTENDS Env
FreshZ(to) == [to |-> to, env |-> [e \in DOMAIN to |-> <<>>], q |-> [e \in DOMAIN to |-> <<>>], up |-> {}]
Follows(s, x, e) == \E i \in DOMAIN s.to[e] : s.to[e][i] = x
Created(s, e, p) == [s EXCEPT !.env[e] = p, !.up = @ \cup {e}]
Changed(s, e, x, v) == [s EXCEPT !.env[e] = Put(@, x, v)]
Shared(s, e) == [s EXCEPT !.q = [x \in DOMAIN s.q |-> IF Follows(s, x, e) THEN Append(s.q[x], s.env[e]) ELSE s.q[x]]]
CanAdopt(s, e) == e \in s.up /\ s.q[e] # <<>>
Adopted(s, e) == [s EXCEPT !.env[e] = Head(s.q[e]), !.q[e] = Tail(@)]
AllAdopted(s) == [s EXCEPT !.env = [e \in DOMAIN s.env |-> IF CanAdopt(s, e) THEN s.q[e][Len(s.q[e])] ELSE s.env[e]],
                           !.q = [e \in DOMAIN s.q |-> IF CanAdopt(s, e) THEN <<>> ELSE s.q[e]]]
=================================================================================
