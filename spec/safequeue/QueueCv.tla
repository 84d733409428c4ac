------------------------------- MODULE QueueCv -------------------------------
(* Step-by-step model of the blocking queue: one mutex (a critical section is *)
(* one step) and two condition variables, whose notifications wake one waiter *)
(* or all, whose waits may end for no reason or, for timed pops, at any time. *)
EXTENDS SafeQueue, FiniteSets, TLC
CONSTANTS Poppers, TimedPoppers, Pushers, Forcers, Setter, Each, Cap, Caps
VARIABLES st, pc, left, in, out, gone, last
vars == <<st, pc, left, in, out, gone, last>>
\* pc: idle, wait (in the wait set), woken (has to take the mutex again), done
Threads == Poppers \cup TimedPoppers \cup Pushers \cup Forcers \cup Setter
Takers == Poppers \cup TimedPoppers
Init == /\ st = [q |-> <<(<<>>)>>, cap |-> <<Cap>>]
        /\ pc = [t \in Threads |-> "idle"] /\ left = [t \in Threads |-> Each]
        /\ in = <<>> /\ out = <<>> /\ gone = <<>> /\ last = [t \in Threads |-> 0]
Waiting(T) == {t \in T : pc[t] = "wait"}
\* what the processes look like after t moved to w and one of W (or all of them) was woken
WakeOne(W, t, w) == IF W = {} THEN {[pc EXCEPT ![t] = w]} ELSE {[pc EXCEPT ![t] = w, ![x] = "woken"] : x \in W}
WakeAll(W, t, w) == {[x \in Threads |-> IF x = t THEN w ELSE IF x \in W THEN "woken" ELSE pc[x]]}
Active(t) == pc[t] = "woken" \/ (pc[t] = "idle" /\ left[t] > 0)
Step(t) == left' = [left EXCEPT ![t] = @ - 1]
Val(t) == <<t, Each - left[t] + 1>>
DoPush(t) ==
  /\ t \in Pushers /\ Active(t)
  /\ IF Push(st, 1, Val(t)) = {} THEN /\ pc' = [pc EXCEPT ![t] = "wait"] /\ UNCHANGED <<st, left, in, out, gone, last>>
     ELSE /\ \E o \in Push(st, 1, Val(t)) : st' = o.s
          /\ in' = Append(in, Val(t)) /\ Step(t) /\ pc' \in WakeOne(Waiting(Takers), t, "idle")
          /\ UNCHANGED <<out, gone, last>>
DoForce(t) ==
  /\ t \in Forcers /\ Active(t)
  /\ \E o \in ForcePush(st, 1, Val(t)) : /\ st' = o.s
                                         /\ gone' = gone \o SubSeq(st.q[1], 1, o.r[1])
  /\ in' = Append(in, Val(t)) /\ Step(t) /\ pc' \in WakeOne(Waiting(Takers), t, "idle")
  /\ UNCHANGED <<out, last>>
DoPop(t) ==
  /\ t \in Takers /\ Active(t)
  /\ IF Pop(st, 1) = {}
     THEN /\ pc' = [pc EXCEPT ![t] = "wait"] /\ UNCHANGED <<st, left, in, out, gone, last>>
     ELSE /\ \E o \in Pop(st, 1) : st' = o.s /\ out' = Append(out, o.r[2])
          /\ Step(t) /\ pc' \in WakeOne(Waiting(Pushers), t, "idle") /\ UNCHANGED <<in, gone, last>>
\* a timed pop whose time is over looks again, and gives up if there is nothing
GiveUp(t) ==
  /\ t \in TimedPoppers /\ pc[t] \in {"wait", "woken"} /\ st.q[1] = <<>>
  /\ pc' = [pc EXCEPT ![t] = "idle"] /\ Step(t) /\ UNCHANGED <<st, in, out, gone, last>>
Late(t) == /\ t \in TimedPoppers /\ pc[t] = "wait" /\ pc' = [pc EXCEPT ![t] = "woken"]
           /\ UNCHANGED <<st, left, in, out, gone, last>>
Spurious(t) == /\ pc[t] = "wait" /\ last[t] = 0 /\ last' = [last EXCEPT ![t] = 1]
               /\ pc' = [pc EXCEPT ![t] = "woken"] /\ UNCHANGED <<st, left, in, out, gone>>
DoSet(t) ==
  /\ t \in Setter /\ Active(t) /\ \E n \in Caps : st' = [st EXCEPT !.cap[1] = n]
  /\ Step(t) /\ pc' \in WakeAll(Waiting(Pushers), t, "idle") /\ UNCHANGED <<in, out, gone, last>>
Run(t) == DoPush(t) \/ DoForce(t) \/ DoPop(t) \/ DoSet(t)
Next == \E t \in Threads : Run(t) \/ GiveUp(t) \/ Late(t) \/ Spurious(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Run(t))
\* ---- what users rely on
RECURSIVE Fifo(_, _)       \* p is a subsequence of w
Fifo(p, w) == IF p = <<>> THEN TRUE ELSE IF w = <<>> THEN FALSE
              ELSE IF p[1] = w[1] THEN Fifo(Tail(p), Tail(w)) ELSE Fifo(p, Tail(w))
InOrder == Fifo(out \o st.q[1], in)
Exact == Len(out) + Len(gone) + Len(st.q[1]) = Len(in)
RoomKept == Setter = {} => Len(st.q[1]) <= Cap
\* no lost wakeup: a thread sleeps on a condition which holds only while another has been woken for it
NoLostPop == (st.q[1] # <<>> /\ Waiting(Takers) # {}) => \E t \in Takers : pc[t] = "woken"
NoLostPush == (~Full(st, 1) /\ Waiting(Pushers) # {}) => \E t \in Pushers : pc[t] = "woken"
\* whoever can proceed for good does
PopsReturn == \A t \in Takers : (pc[t] = "wait" /\ st.q[1] # <<>>) ~> (pc[t] # "wait" \/ st.q[1] = <<>>)
PushesReturn == \A t \in Pushers : (pc[t] = "wait" /\ ~Full(st, 1)) ~> (pc[t] # "wait" \/ Full(st, 1))
==============================================================================
