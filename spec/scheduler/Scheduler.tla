------------------------------ MODULE Scheduler ------------------------------
(* Task schedulers as their users see them. Time in units of 100 ns.          *)
(*   T   name -> the task under that name: [gen, after, repeat, base (time of *)
(*       the call that started it), n (runs begun), in (running now), b (beginning    *)
(*       of the last run), e1, e2 (ends of the last run and the one before)]  *)
(* Configuration: loop = 1 if tasks are handed over to an event loop, which   *)
(* runs them one at a time, possibly after the task has been stopped.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Fresh(c) == [prompt |-> c.prompt, loop |-> c.loop, T |-> <<>>, old |-> {}, gone |-> FALSE]
Task(g, after, rep, ts, s) == [gen |-> g, bar |-> {o.gen : o \in s.old}, after |-> after * 10, repeat |-> rep, base |-> ts, n |-> 0, in |-> FALSE, e1 |-> ts, e2 |-> ts, b |-> ts]
Has(s, n) == n \in DOMAIN s.T
Busy(s, n) == Has(s, n) /\ s.T[n].in
NameOf(s, g) == {n \in DOMAIN s.T : s.T[n].gen = g}
OneAtATime(s) == s.loop = 0 \/ ((\A n \in DOMAIN s.T : ~s.T[n].in) /\ (\A o \in s.old : ~o.in))
\* run k of a task is due k periods after its start, and a period after the beginning of the run before it,
\* which began after the end of the one before that
\* (runs handed over to a busy event loop follow each other without a pause)
Due(s, t, ts) == /\ ts >= t.base + (t.n + 1) * (t.after - 10)
                 /\ s.loop = 1 \/ ts >= t.e2 + t.after - 20
\* where sleepers wake up in time, a task waits no longer than a period after it began, unless it was running
Slack == 5000
Larger(a, b) == IF a >= b THEN a ELSE b
NotLate(s, t, ts) == s.prompt = 0 \/ t.n = 0 \/ ts <= Larger(t.b + t.after, t.e1) + Slack
MayRun(s, t, ts) == /\ ~t.in /\ (t.repeat = 0 => t.n = 0) /\ Due(s, t, ts) /\ NotLate(s, t, ts)
Began(t, ts) == [t EXCEPT !.in = TRUE, !.n = @ + 1, !.b = ts]
Ended(t, ts) == [t EXCEPT !.in = FALSE, !.e2 = t.e1, !.e1 = ts]
\* a loop runs what it is handed in that order: once a task runs, nothing comes any more of those which
\* had been stopped when it was started
Barred(s, t) == {o \in s.old : o.gen \notin t.bar}
\* the task under name n ends (handed over runs may still come)
Drop(s, n) == [s EXCEPT !.T = [m \in DOMAIN s.T \ {n} |-> s.T[m]],
                        !.old = IF s.loop = 1 /\ Has(s, n) THEN @ \cup {s.T[n]} ELSE @]
CanDrop(s, n) == s.loop = 1 \/ ~Busy(s, n)
Put(s, n, t) == [s EXCEPT !.T = (n :> t) @@ @]
==============================================================================
