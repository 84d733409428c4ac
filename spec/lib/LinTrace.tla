---------------------------- MODULE LinTrace ----------------------------
(* Generic trace validation of concurrent histories.                      *)
(*                                                                        *)
(* A history is a sequence of events recorded from the real code:         *)
(*   call (t,o,a) / ret (t)  - invocation and response of operation o by  *)
(*                             thread t; the call record also carries the *)
(*                             response (d=1, r, x) if there was one      *)
(*   stuck                   - nothing can run (or nothing makes progress)*)
(*   end                     - the scenario finished                      *)
(*   anything else           - an observation, handled by Observe         *)
(* The component specification supplies                                   *)
(*   InitStates(cfg)  set of initial abstract states                      *)
(*   Lin(s,c)         set of <<s',c'>>: the internal (linearization) steps*)
(*                    a pending call c can take in abstract state s; a    *)
(*                    call that has taken its last step has c'.done=TRUE  *)
(*   Observe(s,e,p)   set of states after observation e                   *)
(*   StuckOK(s,p)     may the system be stuck here                        *)
(* A history is accepted iff some placement of internal steps explains it.*)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS InitStates(_), Lin(_, _), Observe(_, _, _), StuckOK(_, _)

Traces == ndJsonDeserialize(IOEnv.TRACES)
NT == Len(Traces)

VARIABLES tid, l, s, pend
vars == <<tid, l, s, pend>>

Idle == [idle |-> TRUE, done |-> FALSE, ph |-> 0, m |-> 0, c |-> [t |-> -1]]
Ev == Traces[tid].ev

Init == /\ tid \in 1..NT
        /\ l = 1
        /\ s \in InitStates(Traces[tid].cfg)
        /\ pend = [t \in {Traces[tid].threads[i] : i \in DOMAIN Traces[tid].threads} |-> Idle]

More == l <= Len(Ev)
E == Ev[l]

Call == /\ More /\ E.e = "call"
        /\ pend[E.t].idle
        /\ pend' = [pend EXCEPT ![E.t] = [idle |-> FALSE, done |-> FALSE, ph |-> 0, m |-> 0, c |-> E]]
        /\ l' = l + 1 /\ UNCHANGED <<tid, s>>

CanRet == E.e = "ret" /\ pend[E.t].done
Ret == /\ More /\ CanRet
       /\ pend' = [pend EXCEPT ![E.t] = Idle]
       /\ l' = l + 1 /\ UNCHANGED <<tid, s>>

(* internal steps are taken as late as possible: just before an event that is not a call *)
(* (and a return which is possible comes first, unless steps depend on which calls are pending) *)
ReturnsFirst == TRUE
Internal == /\ More /\ E.e # "call" /\ (~CanRet \/ ~ReturnsFirst)
            /\ \E t \in DOMAIN pend :
                 /\ ~pend[t].idle /\ ~pend[t].done
                 /\ \E r \in Lin(s, pend[t]) :
                      /\ s' = r[1]
                      /\ pend' = [pend EXCEPT ![t] = r[2]]
            /\ UNCHANGED <<tid, l>>

Obs == /\ More /\ E.e \notin {"call", "ret", "stuck", "crash", "hang", "impossible"}
       /\ s' \in Observe(s, E, pend)
       /\ l' = l + 1 /\ UNCHANGED <<tid, pend>>

Stuck == /\ More /\ E.e = "stuck"
         /\ StuckOK(s, pend) = TRUE
         /\ l' = l + 1 /\ UNCHANGED <<tid, s, pend>>

Next == Call \/ Ret \/ Internal \/ Obs \/ Stuck

(* helpers for specifications *)
Finish(p) == [p EXCEPT !.done = TRUE]
Phase(p, n) == [p EXCEPT !.ph = n]
Got(c, r) == c.d = 0 \/ (c.x = "" /\ c.r = r)      \* the observed response, if any, is r
Threw(c, x) == c.d = 0 \/ c.x = x
NoneCanMove(st, p) ==
  \A t \in DOMAIN p : IF p[t].idle THEN TRUE ELSE IF p[t].done THEN FALSE ELSE Lin(st, p[t]) = {}

(* acceptance: register i holds the furthest event reached in trace i *)
ASSUME \A i \in 1..NT : TLCSet(i, 0)
ASSUME TLCSet(NT + 1, 0)
Accept == /\ TLCGet(tid) <= Len(Ev)
          /\ TLCSet(tid, IF l > TLCGet(tid) THEN l ELSE TLCGet(tid))
Report == /\ \A i \in 1..NT : TLCGet(i) > Len(Traces[i].ev) \/ PrintT(<<"REJECTED", i, TLCGet(i)>>)
          /\ PrintT(<<"CHECKED", NT>>)
=========================================================================
