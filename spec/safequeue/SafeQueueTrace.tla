---- MODULE SafeQueueTrace ----
(* Conformance of recorded SafeQueue histories. *)
EXTENDS SafeQueue, LinTrace
SQInit(cfg) == {[q |-> [i \in 1..Len(cfg.cap) |-> <<>>], cap |-> cfg.cap]}
\* a timed pop gives up only at a moment at or after its deadline (a[3]) at which the queue is empty:
\* internal steps happen before the next event E, which carries a time stamp in timed scenarios
MayGiveUp(c) == IF c.a[2] = 0 THEN TRUE ELSE IF "ts" \in DOMAIN E THEN E.ts >= c.a[3] ELSE TRUE
SQLin(st, p) == LET c == p.c IN
  { <<o.s, Finish(p)>> : o \in {x \in Apply(st, c.o, c.a) :
       Got(c, x.r) /\ (IF c.o = "timedpop" /\ x.r = <<0>> THEN MayGiveUp(c) ELSE TRUE)} }
SQObs(st, e, p) == {st}
SQStuck(st, p) == NoneCanMove(st, p)
====
