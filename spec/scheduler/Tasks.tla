-------------------------------- MODULE Tasks --------------------------------
(* Step-by-step model of the basic scheduler: one thread per scheduled task   *)
(* which sleeps, runs the task and tests a flag; stopping clears the flag and *)
(* joins the thread; a task started under a name in use replaces it; the      *)
(* destructor stops all tasks.                                                *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Names, Gens, MaxRuns
None == 0
VARIABLES map,      \* name -> generation scheduled under it, or None
          th,       \* generation -> state of its thread
          flag,     \* generation -> "keep running"
          rep,      \* generation -> repeats
          runs, used, ctl
vars == <<map, th, flag, rep, runs, used, ctl>>
Init == /\ map = [n \in Names |-> None] /\ th = [g \in Gens |-> "none"] /\ flag = [g \in Gens |-> FALSE]
        /\ rep = [g \in Gens |-> FALSE] /\ runs = [g \in Gens |-> 0] /\ used = 0 /\ ctl = <<"idle">>
\* the controlling thread
CallStart == /\ ctl = <<"idle">> /\ \E n \in Names, g \in Gens : g = used + 1 /\ used' = g
                   /\ \E r \in BOOLEAN : rep' = [rep EXCEPT ![g] = r]
                   /\ ctl' = <<"stopping", n, <<"create", n, g>> >>
             /\ UNCHANGED <<map, th, flag, runs>>
CallStop == /\ ctl = <<"idle">> /\ \E n \in Names : ctl' = <<"stopping", n, <<"idle">> >>
            /\ UNCHANGED <<map, th, flag, rep, runs, used>>
CallDestroy == /\ ctl = <<"idle">> /\ ctl' = <<"destroying">> /\ UNCHANGED <<map, th, flag, rep, runs, used>>
ClearFlag == /\ ctl[1] = "stopping"
             /\ IF map[ctl[2]] = None THEN ctl' = ctl[3] /\ UNCHANGED flag
                ELSE flag' = [flag EXCEPT ![map[ctl[2]]] = FALSE] /\ ctl' = <<"joining", ctl[2], ctl[3]>>
             /\ UNCHANGED <<map, th, rep, runs, used>>
Join == /\ ctl[1] = "joining" /\ th[map[ctl[2]]] \in {"none", "done"}
        /\ map' = [map EXCEPT ![ctl[2]] = None] /\ ctl' = ctl[3] /\ UNCHANGED <<th, flag, rep, runs, used>>
Create == /\ ctl[1] = "create" /\ map' = [map EXCEPT ![ctl[2]] = ctl[3]]
          /\ flag' = [flag EXCEPT ![ctl[3]] = TRUE] /\ th' = [th EXCEPT ![ctl[3]] = "test"]
          /\ ctl' = <<"idle">> /\ UNCHANGED <<rep, runs, used>>
DestroyNext == /\ ctl = <<"destroying">>
               /\ \/ \E n \in Names : map[n] # None /\ ctl' = <<"stopping", n, <<"destroying">> >>
                  \/ (\A n \in Names : map[n] = None) /\ ctl' = <<"gone">>
               /\ UNCHANGED <<map, th, flag, rep, runs, used>>
\* the threads of the tasks
Test(g) == /\ th[g] = "test" /\ th' = [th EXCEPT ![g] = IF flag[g] THEN "sleep" ELSE "done"]
           /\ UNCHANGED <<map, flag, rep, runs, used, ctl>>
Wake(g) == /\ th[g] = "sleep" /\ runs[g] < MaxRuns /\ th' = [th EXCEPT ![g] = "in"] /\ UNCHANGED <<map, flag, rep, runs, used, ctl>>
\* (a repeated task that has run often enough for the model stays asleep until it is stopped)
WakeStopped(g) == /\ th[g] = "sleep" /\ runs[g] >= MaxRuns /\ ~flag[g] /\ th' = [th EXCEPT ![g] = "done"]
                  /\ UNCHANGED <<map, flag, rep, runs, used, ctl>>
End(g) == /\ th[g] = "in" /\ runs' = [runs EXCEPT ![g] = @ + 1]
          /\ th' = [th EXCEPT ![g] = IF rep[g] THEN "test" ELSE "done"] /\ UNCHANGED <<map, flag, rep, used, ctl>>
Ctl == CallStart \/ CallStop \/ CallDestroy \/ ClearFlag \/ Join \/ Create \/ DestroyNext
Thr(g) == Test(g) \/ Wake(g) \/ WakeStopped(g) \/ End(g)
Next == Ctl \/ \E g \in Gens : Thr(g)
Spec == Init /\ [][Next]_vars /\ WF_vars(ClearFlag \/ Join \/ Create \/ DestroyNext) /\ \A g \in Gens : WF_vars(Thr(g))
\* ----
Live(g) == th[g] \in {"test", "sleep", "in"}
\* a thread that lives belongs to the task under one name, which the destructor can find
Owned == \A g \in Gens : Live(g) => \E n \in Names : map[n] = g
OneTaskPerName == \A g \in Gens : Cardinality({n \in Names : map[n] = g}) <= 1
OneShotOnce == \A g \in Gens : ~rep[g] => runs[g] <= 1
NothingAfterDestroy == ctl = <<"gone">> => \A g \in Gens : ~Live(g)
\* every call of the controlling thread returns, destruction included
StopReturns == (ctl[1] \in {"stopping", "joining"}) ~> (ctl[1] \in {"idle", "create", "destroying"})
DestroyEnds == (ctl = <<"destroying">>) ~> (ctl = <<"gone">>)
\* a one-shot task that stays scheduled runs
Runs == \A g \in Gens : [](th[g] = "sleep" => <>(th[g] # "sleep" \/ runs[g] >= MaxRuns))
==============================================================================
