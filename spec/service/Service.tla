-------------------------------- MODULE Service --------------------------------
(* Managed services follow the start and stop commands of a bus.               *)
(*   on    service -> bus, 0 for services on their own                          *)
(*   sync  bus -> whether commands take effect within the publication           *)
(*   chain commands on bus 1 are forwarded to bus 2                             *)
(*   up    service -> started                                                   *)
(*   todo  service -> commands it has not taken yet, in the order published     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Start == 0
Stop == 1
Services(s) == DOMAIN s.on
Fresh(c) == [on |-> c.on, sync |-> c.sync, chain |-> c.chain = 1,
             up |-> [k \in DOMAIN c.on |-> FALSE], todo |-> [k \in DOMAIN c.on |-> <<>>]]
Reaches(s, b, k) == s.on[k] = b \/ (s.chain /\ b = 1 /\ s.on[k] = 2)
\* commands without effect on a service in the given state
Idle(cmd, up) == cmd \notin {Start, Stop} \/ (cmd = Start /\ up) \/ (cmd = Stop /\ ~up)
RECURSIVE Skip(_, _)
Skip(q, up) == IF q = <<>> \/ ~Idle(Head(q), up) THEN q ELSE Skip(Tail(q), up)
Norm(s) == [s EXCEPT !.todo = [k \in DOMAIN s.on |-> Skip(s.todo[k], s.up[k])]]
Command(s, b, cmd) == Norm([s EXCEPT !.todo = [k \in DOMAIN s.on |-> IF Reaches(s, b, k) THEN Append(@[k], cmd) ELSE @[k]]])
Ready(s, k, cmd) == s.todo[k] # <<>> /\ Head(s.todo[k]) = cmd
Take(s, k) == Norm([s EXCEPT !.up[k] = (Head(s.todo[k]) = Start), !.todo[k] = Tail(@)])
Ask(s, k, cmd) == Norm([s EXCEPT !.todo[k] = Append(@, cmd)])
Calm(s, b) == \A k \in DOMAIN s.on : Reaches(s, b, k) => s.todo[k] = <<>>
Settled(s) == \A k \in DOMAIN s.on : s.todo[k] = <<>>
================================================================================
