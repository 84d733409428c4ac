--------------------------- MODULE SchedulerTrace ---------------------------
(* Conformance of recorded histories of schedulers. *)
EXTENDS Scheduler, LinTrace
SInit(cfg) == {Fresh(cfg)}
Runs(st, g) == IF NameOf(st, g) = {} THEN 0 ELSE st.T[CHOOSE n \in NameOf(st, g) : TRUE].n
SLin(st, p) == LET c == p.c IN
  CASE c.o = "start" -> IF p.ph = 0 /\ CanDrop(st, c.a[1]) /\ Got(c, <<>>)
                        THEN LET d == Drop(st, c.a[1]) IN
                             {<<Put(d, c.a[1], Task(c.a[2], c.a[3], c.a[4], c.ts, d)), Finish(p)>>} ELSE {}
    [] c.o = "stop" -> IF CanDrop(st, c.a[1]) /\ Got(c, <<>>) THEN {<<Drop(st, c.a[1]), Finish(p)>>} ELSE {}
    [] c.o = "await" -> IF Runs(st, c.a[1]) >= c.a[2] THEN {<<st, Finish(p)>>} ELSE {}
    [] c.o = "destroy" -> IF \A n \in DOMAIN st.T : ~st.T[n].in
                          THEN {<<[st EXCEPT !.T = <<>>, !.old = {}, !.gone = TRUE], Finish(p)>>} ELSE {}
    [] OTHER -> {}
SObs(st, e, p) ==
  CASE e.e = "run" -> IF ~OneAtATime(st) THEN {} ELSE
         {[st EXCEPT !.T[n] = Began(@, e.ts), !.old = Barred(st, st.T[n])] : n \in {n \in NameOf(st, e.a[1]) : MayRun(st, st.T[n], e.ts)}}
         \cup {[st EXCEPT !.old = (Barred(st, o) \ {o}) \cup {Began(o, e.ts)}] : o \in {o \in st.old : o.gen = e.a[1] /\ MayRun(st, o, e.ts)}}
    [] e.e = "ran" ->
         {[st EXCEPT !.T[n] = Ended(@, e.ts)] : n \in {n \in NameOf(st, e.a[1]) : st.T[n].in}}
         \cup {[st EXCEPT !.old = (@ \ {o}) \cup {Ended(o, e.ts)}] : o \in {o \in st.old : o.gen = e.a[1] /\ o.in}}
    [] e.e = "end" -> {st}
    [] OTHER -> {}
SStuck(st, p) == FALSE
==============================================================================
