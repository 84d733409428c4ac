------------------------------- MODULE PoolEnd -------------------------------
(* Step-by-step model of pooled objects: holders give them back through a     *)
(* weak reference to the store while the pool may be destroyed.               *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Objects, Threads, Turns
VARIABLES idle, refs, have, pc, left, pool, cur, made, finz, died
vars == <<idle, refs, have, pc, left, pool, cur, made, finz, died>>
None == 0
\* idle: objects in the store; refs: strong references to it; pool: live, drain, finalize, destroy, gone
Init == /\ idle = Objects /\ refs = 1 /\ have = [t \in Threads |-> None] /\ pc = [t \in Threads |-> "idle"]
        /\ left = [t \in Threads |-> Turns] /\ pool = "live" /\ cur = None
        /\ made = Objects /\ finz = [o \in Objects |-> 0] /\ died = [o \in Objects |-> 0]
Kill(S) == died' = [o \in Objects |-> died[o] + IF o \in S THEN 1 ELSE 0]
\* the last reference to the store destroys it, with what is in it
Unref == /\ refs' = refs - 1
         /\ IF refs = 1 THEN idle' = {} /\ Kill(idle) ELSE UNCHANGED <<idle, died>>
Acquire(t) == /\ pc[t] = "idle" /\ pool = "live" /\ left[t] > 0 /\ left' = [left EXCEPT ![t] = @ - 1]
              /\ IF idle = {} THEN UNCHANGED <<idle, have, pc>>
                 ELSE \E o \in idle : idle' = idle \ {o} /\ have' = [have EXCEPT ![t] = o] /\ pc' = [pc EXCEPT ![t] = "holds"]
              /\ UNCHANGED <<refs, pool, cur, made, finz, died>>
GiveBack(t) == /\ pc[t] = "holds"
               /\ IF refs > 0 THEN refs' = refs + 1 /\ pc' = [pc EXCEPT ![t] = "push"]
                  ELSE UNCHANGED refs /\ pc' = [pc EXCEPT ![t] = "delete"]
               /\ UNCHANGED <<idle, have, left, pool, cur, made, finz, died>>
PushBack(t) == /\ pc[t] = "push" /\ idle' = idle \cup {have[t]} /\ have' = [have EXCEPT ![t] = None]
               /\ pc' = [pc EXCEPT ![t] = "unref"] /\ UNCHANGED <<refs, left, pool, cur, made, finz, died>>
LetGo(t) == /\ pc[t] = "unref" /\ Unref /\ pc' = [pc EXCEPT ![t] = "idle"]
            /\ UNCHANGED <<have, left, pool, cur, made, finz>>
Delete(t) == /\ pc[t] = "delete" /\ Kill({have[t]}) /\ have' = [have EXCEPT ![t] = None] /\ pc' = [pc EXCEPT ![t] = "idle"]
             /\ UNCHANGED <<idle, refs, left, pool, cur, made, finz>>
\* destroying the pool: whatever is in the store is finalized and destroyed, then the store is let go
Destroy == /\ pool = "live" /\ \A t \in Threads : left[t] = 0 \/ pc[t] = "holds"
           /\ pool' = "drain" /\ UNCHANGED <<idle, refs, have, pc, left, cur, made, finz, died>>
Drain == /\ pool = "drain"
         /\ IF idle = {} THEN pool' = "release" /\ UNCHANGED <<idle, cur>>
            ELSE \E o \in idle : idle' = idle \ {o} /\ cur' = o /\ pool' = "finalize"
         /\ UNCHANGED <<refs, have, pc, left, made, finz, died>>
Finalize == /\ pool = "finalize" /\ finz' = [finz EXCEPT ![cur] = @ + 1] /\ Kill({cur}) /\ cur' = None /\ pool' = "drain"
            /\ UNCHANGED <<idle, refs, have, pc, left, made>>
Release == /\ pool = "release" /\ Unref /\ pool' = "gone" /\ UNCHANGED <<have, pc, left, cur, made, finz>>
Step(t) == GiveBack(t) \/ PushBack(t) \/ LetGo(t) \/ Delete(t)
Next == (\E t \in Threads : Acquire(t) \/ Step(t)) \/ Destroy \/ Drain \/ Finalize \/ Release
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Step(t)) /\ WF_vars(Destroy \/ Drain \/ Finalize \/ Release) /\ WF_vars(\E u \in Threads : Acquire(u))
\* ----
Places(o) == (IF o \in idle THEN 1 ELSE 0) + Cardinality({t \in Threads : have[t] = o}) + (IF cur = o THEN 1 ELSE 0) + died[o]
OnePlace == \A o \in Objects : Places(o) = 1
NoUseAfter == \A t \in Threads : pc[t] = "push" => refs > 0
FinalizedOnce == \A o \in Objects : finz[o] <= 1 /\ (finz[o] = 1 => died[o] = 1)
AllDestroyed == <>(\A o \in Objects : died[o] = 1)
==============================================================================
