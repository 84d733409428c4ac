------------------------------ MODULE MuxDesign ------------------------------
(* Step-by-step model of the data multiplexer: one publisher that never       *)
(* waits, and subscribers that handle runs of published slots, delivering     *)
(* only the last one of a run while the publisher keeps writing.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Subs, Events, Size
VARIABLES next,        \* sequences claimed
          cursor,      \* sequences published
          writing,     \* the publisher is writing this sequence's slot (0: none)
          slot, sent, acc, lost,
          released,    \* subscriber -> its sequence (gates the publisher)
          tp, at, av,  \* subscriber -> place, slot being handled, end of the run
          got, skip    \* subscriber -> values delivered / skipped
vars == <<next, cursor, writing, slot, sent, acc, lost, released, tp, at, av, got, skip>>
Init == /\ next = 0 /\ cursor = 0 /\ writing = 0 /\ slot = [i \in 0..(Size - 1) |-> 0] /\ sent = 0
        /\ acc = <<>> /\ lost = {}
        /\ released = [u \in Subs |-> 0] /\ tp = [u \in Subs |-> "wait"] /\ at = [u \in Subs |-> 1]
        /\ av = [u \in Subs |-> 0] /\ got = [u \in Subs |-> <<>>] /\ skip = [u \in Subs |-> {}]
MinRel == CHOOSE m \in {released[u] : u \in Subs} : \A u \in Subs : m <= released[u]
U == UNCHANGED <<released, tp, at, av, got, skip>>
Claim == /\ writing = 0 /\ sent < Events /\ sent' = sent + 1
         /\ IF next + 1 - Size > MinRel THEN lost' = lost \cup {sent + 1} /\ UNCHANGED <<next, writing, acc>>
            ELSE next' = next + 1 /\ writing' = next + 1 /\ acc' = Append(acc, sent + 1) /\ UNCHANGED lost
         /\ UNCHANGED <<cursor, slot>> /\ U
Write == /\ writing # 0 /\ slot[writing % Size] # sent /\ slot' = [slot EXCEPT ![writing % Size] = sent]
         /\ UNCHANGED <<next, cursor, writing, sent, acc, lost>> /\ U
Publish == /\ writing # 0 /\ slot[writing % Size] = sent /\ cursor' = writing /\ writing' = 0
           /\ UNCHANGED <<next, slot, sent, acc, lost>> /\ U
P == UNCHANGED <<next, cursor, writing, slot, sent, acc, lost>>
Wait(u) == /\ tp[u] = "wait" /\ cursor >= at[u] /\ av' = [av EXCEPT ![u] = cursor] /\ tp' = [tp EXCEPT ![u] = "run"]
           /\ UNCHANGED <<released, at, got, skip>> /\ P
Handle(u) == /\ tp[u] = "run" /\ at[u] <= av[u]
             /\ IF at[u] = av[u] THEN got' = [got EXCEPT ![u] = Append(@, slot[at[u] % Size])] /\ UNCHANGED skip
                ELSE skip' = [skip EXCEPT ![u] = @ \cup {slot[at[u] % Size]}] /\ UNCHANGED got
             /\ at' = [at EXCEPT ![u] = @ + 1] /\ UNCHANGED <<released, tp, av>> /\ P
Release(u) == /\ tp[u] = "run" /\ at[u] > av[u] /\ released' = [released EXCEPT ![u] = av[u]]
              /\ tp' = [tp EXCEPT ![u] = "wait"] /\ UNCHANGED <<at, av, got, skip>> /\ P
Next == Claim \/ Write \/ Publish \/ \E u \in Subs : Wait(u) \/ Handle(u) \/ Release(u)
Spec == Init /\ [][Next]_vars /\ WF_vars(Write) /\ WF_vars(Publish)
             /\ \A u \in Subs : WF_vars(Wait(u)) /\ WF_vars(Handle(u)) /\ WF_vars(Release(u))
\* ----
Rng(q) == {q[i] : i \in DOMAIN q}
Increasing == \A u \in Subs : \A i, j \in DOMAIN got[u] : i < j => got[u][i] < got[u][j]
Published == \A u \in Subs : Rng(got[u]) \cup skip[u] \subseteq {acc[i] : i \in 1..cursor}
EachOnce == \A u \in Subs : /\ Rng(got[u]) \cap skip[u] = {}
                            /\ Rng(got[u]) \cup skip[u] = {acc[i] : i \in 1..(at[u] - 1)}
NotOverwritten == \A u \in Subs : \A i \in at[u]..cursor : slot[i % Size] = acc[i]
Accounted == Rng(acc) \cup lost = 1..sent /\ Rng(acc) \cap lost = {}
EndsNewest == (sent = Events) ~> (\A u \in Subs : acc = <<>> \/ (got[u] # <<>> /\ got[u][Len(got[u])] = acc[Len(acc)]))
===============================================================================
