-------------------------------- MODULE CacheMC --------------------------------
(* Step-by-step model of the multi-threaded cache listener: the count and the   *)
(* event change together under the lock, readers take the pair under it.        *)
EXTENDS Cache
CONSTANTS Writers, Readers, Each
VARIABLES s, lock, pc, left, seen, orders
vars == <<s, lock, pc, left, seen, orders>>
Init == /\ s = Fresh(<<>>) /\ lock = 0 /\ pc = [t \in Writers \cup Readers |-> "idle"]
        /\ left = [t \in Writers \cup Readers |-> Each] /\ seen = [t \in Readers |-> <<0, 0>>] /\ orders = <<>>
Lock(t) == /\ pc[t] = "idle" /\ left[t] > 0 /\ lock = 0 /\ lock' = t /\ pc' = [pc EXCEPT ![t] = "in"]
           /\ UNCHANGED <<s, left, seen, orders>>
Val(t) == 10 * t + left[t]
Write(t) == /\ t \in Writers /\ pc[t] = "in" /\ s' = Receive(s, Val(t), 0, 1) /\ orders' = Append(orders, Val(t))
            /\ pc' = [pc EXCEPT ![t] = "out"] /\ UNCHANGED <<lock, left, seen>>
Read(t) == /\ t \in Readers /\ pc[t] = "in" /\ seen' = [seen EXCEPT ![t] = <<s.n, s.last>>]
           /\ pc' = [pc EXCEPT ![t] = "out"] /\ UNCHANGED <<s, lock, left, orders>>
Unlock(t) == /\ pc[t] = "out" /\ lock' = 0 /\ pc' = [pc EXCEPT ![t] = "idle"] /\ left' = [left EXCEPT ![t] = @ - 1]
             /\ UNCHANGED <<s, seen, orders>>
Next == \E t \in Writers \cup Readers : Lock(t) \/ Write(t) \/ Read(t) \/ Unlock(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* ---- a reader sees the event that belongs to the count, and counts never go back
Together == \A t \in Readers : seen[t][2] # 0 => s.obj[seen[t][2]] = orders[seen[t][1]]
Counts == s.n = Len(orders) /\ (s.n > 0 => s.obj[s.last] = orders[s.n])
Forward == [][\A t \in Readers : seen'[t][1] >= seen[t][1]]_vars
AllIn == <>(s.n = Each * Cardinality(Writers))
================================================================================
