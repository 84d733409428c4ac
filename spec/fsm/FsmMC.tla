-------------------------------- MODULE FsmMC --------------------------------
(* All histories of one machine with a function and a listener observing it.  *)
EXTENDS Fsm
CONSTANTS Events, MaxQ, MaxSteps, MaxFails
VARIABLES s, busy, n, processed, told, acted, left, fails \* left: notifications a failure left over
vars == <<s, busy, n, processed, told, acted, left, fails>>
\* three states; two transitions for the same event in state 2: the first one counts
Machine == <<(<<(<<1, 2>>), (<<2, 3>>)>>), (<<(<<1, 3>>), (<<1, 1>>)>>), (<<(<<2, 1>>)>>)>>
Init == /\ s = [Fresh([mach |-> <<Machine>>]) EXCEPT
                  !.acts = <<[l |-> 7, kind |-> 1, m |-> 1, st |-> 2, id |-> 1], [l |-> 7, kind |-> 2, m |-> 1, st |-> 2, id |-> 2],
                             [l |-> 7, kind |-> 3, m |-> 1, st |-> 2, id |-> 3]>>,
                  !.M[1].obs = <<[l |-> 0, k |-> 1], [l |-> 7, k |-> 0]>>]
        /\ busy = FALSE /\ n = 0 /\ processed = <<>> /\ told = <<>> /\ acted = <<>> /\ left = 0 /\ fails = 0
Idle == ~busy /\ n < MaxSteps /\ n' = n + 1
\* what a call does at once; told and acted: what the observers have seen since the call began
Call(x, ev) == /\ busy' = (x.M[1].notes # s.M[1].notes) /\ s' = IF x.M[1].notes # s.M[1].notes THEN NextNote(x, 1) ELSE x
               /\ processed' = processed \o ev /\ told' = <<>> /\ acted' = <<>> /\ UNCHANGED fails /\ left' = Len(s.M[1].notes)
Starts == Idle /\ ~s.M[1].on /\ Call(Start(s, 1), <<>>)
Stops == Idle /\ Call(Stop(s, 1), <<>>)
Resets == Idle /\ s' = Reset(s, 1) /\ processed' = <<>> /\ told' = <<>> /\ acted' = <<>> /\ UNCHANGED <<busy, left, fails>>
Puts == Idle /\ Len(s.M[1].q) < MaxQ /\ \E e \in Events : s' = Enqueue(s, 1, e) /\ UNCHANGED <<busy, processed, told, acted, left, fails>>
Updates == Idle /\ LET x == Update(s, 1) IN Call(x, SubSeq(s.M[1].q, 1, Len(s.M[1].q) - Len(x.M[1].q)))
Keep == UNCHANGED <<n, processed, left, fails>>
Tells == busy /\ \E st \in 1..3, c \in 0..1 : s' \in Told(s, 1, 1, st, c) /\ told' = Append(told, <<st, c>>) /\ UNCHANGED <<busy, acted>> /\ Keep
Acts == busy /\ \E st \in 1..3, i \in 1..3 : s' \in Acted(s, 1, 7, i, st) /\ acted' = Append(acted, i) /\ UNCHANGED <<busy, told>> /\ Keep
Quiet == busy /\ s.M[1].d.on /\ s' \in Silent(s, 1) /\ UNCHANGED <<busy, told, acted>> /\ Keep
Fails == /\ busy /\ fails < MaxFails /\ ~s.M[1].d.failed /\ s' \in Failed(s, 1) /\ fails' = fails + 1
         /\ UNCHANGED <<busy, told, acted, n, processed, left>>
Ends == busy /\ (Ready(s, 1) \/ s.M[1].d.failed) /\ s' = EndDispatch(s, 1) /\ busy' = FALSE /\ UNCHANGED <<told, acted>> /\ Keep
Next == Starts \/ Stops \/ Resets \/ Puts \/ Updates \/ Tells \/ Acts \/ Quiet \/ Fails \/ Ends
Spec == Init /\ [][Next]_vars /\ WF_vars(Tells \/ Acts \/ Quiet \/ Ends)
\* ----
RECURSIVE Run(_, _)         \* where the processed events lead
Run(st, evs) == IF evs = <<>> THEN st
                ELSE LET d == Dest(s, 1, st, Head(evs)) IN Run(IF d = 0 THEN st ELSE d, Tail(evs))
State == s.M[1].cur = Run(1, processed)
AtRest == ~busy => ~s.M[1].d.on /\ ~s.M[1].d.failed /\ (fails = 0 => s.M[1].notes = <<>>)
ToldOnce == Len(told) <= 1 + left /\ (Len(told) > left => told[Len(told)][1] = s.M[1].cur)
ActsRight == \* no action of another state, each at most once, in the order one-time, entry, periodic
  /\ acted # <<>> /\ left = 0 => s.M[1].cur = 2
  /\ left = 0 => \A i, j \in DOMAIN acted : i < j => acted[i] < acted[j]
  /\ left = 0 => \A i \in DOMAIN acted : acted[i] \in {1, 2} => told = <<(<<2, 1>>)>>
Gone == (\E i \in DOMAIN acted : acted[i] = 1) => ~Has(s, 1)
CallsReturn == busy ~> ~busy
==============================================================================
