--------------------------------- MODULE Fsm ---------------------------------
(* State machines and state machine listeners as their users see them.        *)
(*   M     machine -> [cur (state), on (started), q (queued events), obs      *)
(*         (observers in order of registration), notes (notifications still   *)
(*         to be given: <<state, changed>>), d (notification being given)]    *)
(*   acts  actions of the listeners, in order of registration:                *)
(*         [l, kind (1 one-time, 2 entry, 3 periodic), m, st, id]             *)
(* Configuration: mach, machine -> state -> sequence of <<event, destination>>*)
(* (the first state is the initial one). Observers: [l |-> 0, k] is a         *)
(* function, [l |-> listener, k |-> 0] a listener.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
NoD == [on |-> FALSE, failed |-> FALSE]
Fresh(c) == [c |-> c, acts |-> <<>>,
             M |-> [m \in DOMAIN c.mach |-> [cur |-> 1, on |-> FALSE, q |-> <<>>, obs |-> <<>>, notes |-> <<>>, d |-> NoD]]]
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
\* the first transition of the state which fits the event decides
Match(s, m, st, e) == {i \in DOMAIN s.c.mach[m][st] : s.c.mach[m][st][i][1] = e}
Dest(s, m, st, e) == IF Match(s, m, st, e) = {} THEN 0 ELSE s.c.mach[m][st][Least(Match(s, m, st, e))][2]
\* events are taken from the queue up to the first which is a transition
RECURSIVE Consume(_, _, _, _)
Consume(s, m, st, q) == IF q = <<>> THEN <<st, FALSE, <<>> >>
                        ELSE LET to == Dest(s, m, st, Head(q)) IN
                             IF to = 0 THEN Consume(s, m, st, Tail(q)) ELSE <<to, TRUE, Tail(q)>>
Note(s, m, chg) == [s EXCEPT !.M[m].notes = Append(@, <<s.M[m].cur, chg>>)]
Start(s, m) == Note([s EXCEPT !.M[m].on = TRUE], m, 1)
Stop(s, m) == [s EXCEPT !.M[m].on = FALSE]
Reset(s, m) == [s EXCEPT !.M[m].on = FALSE, !.M[m].cur = 1, !.M[m].q = <<>>]
Enqueue(s, m, e) == IF s.M[m].on THEN [s EXCEPT !.M[m].q = Append(@, e)] ELSE s
Update(s, m) == IF ~s.M[m].on THEN s
                ELSE LET r == Consume(s, m, s.M[m].cur, s.M[m].q)
                     IN Note([s EXCEPT !.M[m].cur = r[1], !.M[m].q = r[3]], m, IF r[2] THEN 1 ELSE 0)
\* ---- notifications, one after the other; of a listener: its actions kind by kind
ActsOf(s, l, k, m, st) == SelectSeq(s.acts, LAMBDA a : a.l = l /\ a.kind = k /\ a.m = m /\ a.st = st)
Ids(q) == [i \in DOMAIN q |-> q[i].id]
Has(s, id) == \E i \in DOMAIN s.acts : s.acts[i].id = id
Without(s, test(_)) == [s EXCEPT !.acts = SelectSeq(@, LAMBDA a : ~test(a))]
NextNote(s, m) == LET n == s.M[m].notes[1] IN
  [s EXCEPT !.M[m].notes = Tail(@),
            !.M[m].d = [on |-> TRUE, failed |-> FALSE, st |-> n[1], chg |-> n[2], obs |-> s.M[m].obs, ph |-> 0, list |-> <<>>, top |-> <<>>]]
Dispatching(s, m) == s.M[m].d.on
NextObs(s, m) == [s EXCEPT !.M[m].d.obs = Tail(@), !.M[m].d.ph = 0, !.M[m].d.list = <<>>, !.M[m].d.top = <<>>]
\* the listener goes on to its next kind of actions: those registered now, or when it was told
NextKind(s, m) == LET d == s.M[m].d
                      l == Head(d.obs).l
                      now(k) == Ids(ActsOf(s, l, k, m, d.st))
                      top == IF d.ph = 0 THEN [k \in 1..3 |-> now(k)] ELSE d.top
                      k == d.ph + 1
                  IN {LET x == [s EXCEPT !.M[m].d.ph = k, !.M[m].d.list = q, !.M[m].d.top = top]
                      IN IF k = 1 /\ d.chg = 1 THEN Without(x, LAMBDA a : a.l = l /\ a.kind = 1 /\ a.m = m /\ a.st = d.st) ELSE x
                      : q \in IF k < 3 /\ d.chg = 0 THEN {<<>>} ELSE {now(k), top[k]}}
\* steps of a notification which cannot be seen
Silent(s, m) == LET d == s.M[m].d IN
  IF d.obs = <<>> THEN IF s.M[m].notes = <<>> THEN {} ELSE {NextNote(s, m)}
  ELSE IF Head(d.obs).l = 0 THEN {}
  ELSE IF d.list = <<>> THEN IF d.ph = 3 THEN {NextObs(s, m)} ELSE NextKind(s, m)
  ELSE IF d.ph > 1 /\ ~Has(s, Head(d.list)) THEN {[s EXCEPT !.M[m].d.list = Tail(@)]} ELSE {}
Ready(s, m) == s.M[m].d.on /\ s.M[m].d.obs = <<>> /\ s.M[m].notes = <<>>
EndDispatch(s, m) == [s EXCEPT !.M[m].d = NoD]
Told(s, m, k, st, chg) == LET d == s.M[m].d IN
  IF d.on /\ d.obs # <<>> /\ Head(d.obs) = [l |-> 0, k |-> k] /\ d.st = st /\ d.chg = chg THEN {NextObs(s, m)} ELSE {}
Acted(s, m, l, id, st) == LET d == s.M[m].d IN
  IF d.on /\ d.obs # <<>> /\ Head(d.obs).l = l /\ l # 0 /\ d.st = st /\ d.list # <<>> /\ Head(d.list) = id
  THEN {[s EXCEPT !.M[m].d.list = Tail(@)]} ELSE {}
\* an observer or an action ends with an exception: the call which gives the notifications ends
\* with it; those left are given with the next update, or dropped
Failed(s, m) == IF s.M[m].d.on THEN {[s EXCEPT !.M[m].d = [on |-> FALSE, failed |-> TRUE], !.M[m].notes = q] : q \in {<<>>, s.M[m].notes}} ELSE {}
==============================================================================
