------------------------------ MODULE Sequencer ------------------------------
(* The multi-producer claim / publish protocol step by step: every shared     *)
(* read and write of next(), publish() and of a consumer is one action.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Producers, Consumers, N, Batches, Claims    \* Batches: sizes a producer may ask for

VARIABLES cursor, cache, flag, slot, pos,    \* shared: cursor, gating cache, availability lap, contents, consumer sequences
          pc, cur, n, g, i, left, mine,      \* producers
          cpc, seen                          \* consumers
vars == <<cursor, cache, flag, slot, pos, pc, cur, n, g, i, left, mine, cpc, seen>>
Slots == 0..(N - 1)
Init == /\ cursor = -1 /\ cache = -1
        /\ flag = [x \in Slots |-> -1] /\ slot = [x \in Slots |-> -1]
        /\ pos = [c \in Consumers |-> -1]
        /\ pc = [p \in Producers |-> "idle"] /\ cur = [p \in Producers |-> 0] /\ n = [p \in Producers |-> 1]
        /\ g = [p \in Producers |-> 0] /\ i = [p \in Producers |-> 0] /\ left = [p \in Producers |-> Claims]
        /\ mine = [p \in Producers |-> {}]
        /\ cpc = [c \in Consumers |-> "look"] /\ seen = [c \in Consumers |-> <<>>]
Goto(p, l) == pc' = [pc EXCEPT ![p] = l]
UnP == UNCHANGED <<cpc, seen, pos>>
Ask(p) == /\ pc[p] = "idle" /\ left[p] > 0
          /\ \E b \in Batches : n' = [n EXCEPT ![p] = b]
          /\ left' = [left EXCEPT ![p] = @ - 1] /\ Goto(p, "read")
          /\ UNCHANGED <<cursor, cache, flag, slot, cur, g, i, mine>> /\ UnP
ReadCursor(p) == /\ pc[p] = "read" /\ cur' = [cur EXCEPT ![p] = cursor] /\ Goto(p, "cache")
                 /\ UNCHANGED <<cursor, cache, flag, slot, n, g, i, left, mine>> /\ UnP
TestCache(p) == /\ pc[p] = "cache"
                /\ IF cur[p] + n[p] - N > cache \/ cache > cur[p] THEN Goto(p, "min") ELSE Goto(p, "cas")
                /\ g' = [g EXCEPT ![p] = cur[p]] /\ i' = [i EXCEPT ![p] = 1]
                /\ UNCHANGED <<cursor, cache, flag, slot, cur, n, left, mine>> /\ UnP
CSeq == CHOOSE s \in [1..Cardinality(Consumers) -> Consumers] : \A a, b \in DOMAIN s : s[a] = s[b] => a = b
ReadGate(p) == /\ pc[p] = "min"
               /\ IF i[p] <= Len(CSeq)
                  THEN /\ g' = [g EXCEPT ![p] = IF pos[CSeq[i[p]]] < @ THEN pos[CSeq[i[p]]] ELSE @]
                       /\ i' = [i EXCEPT ![p] = @ + 1] /\ UNCHANGED <<pc, cache>>
                  ELSE /\ Goto(p, "read") /\ UNCHANGED <<g, i>>
                       /\ IF cur[p] + n[p] - N > g[p] THEN UNCHANGED cache ELSE cache' = g[p]
               /\ UNCHANGED <<cursor, flag, slot, cur, n, left, mine>> /\ UnP
Cas(p) == /\ pc[p] = "cas"
          /\ IF cursor = cur[p]
             THEN /\ cursor' = cur[p] + n[p] /\ Goto(p, "write") /\ i' = [i EXCEPT ![p] = cur[p] + 1]
                  /\ mine' = [mine EXCEPT ![p] = @ \cup ((cur[p] + 1)..(cur[p] + n[p]))]
             ELSE Goto(p, "read") /\ UNCHANGED <<cursor, i, mine>>
          /\ UNCHANGED <<cache, flag, slot, cur, n, g, left>> /\ UnP
Write(p) == /\ pc[p] = "write" /\ slot' = [slot EXCEPT ![i[p] % N] = i[p]]
            /\ IF i[p] = cur[p] + n[p] THEN Goto(p, "pub") /\ i' = [i EXCEPT ![p] = cur[p] + 1]
               ELSE i' = [i EXCEPT ![p] = @ + 1] /\ UNCHANGED pc
            /\ UNCHANGED <<cursor, cache, flag, cur, n, g, left, mine>> /\ UnP
Publish(p) == /\ pc[p] = "pub" /\ flag' = [flag EXCEPT ![i[p] % N] = i[p] \div N]
              /\ IF i[p] = cur[p] + n[p] THEN Goto(p, "idle") /\ UNCHANGED i
                 ELSE i' = [i EXCEPT ![p] = @ + 1] /\ UNCHANGED pc
              /\ UNCHANGED <<cursor, cache, slot, cur, n, g, left, mine>> /\ UnP
UnC == UNCHANGED <<cursor, cache, flag, slot, pc, cur, n, g, i, left, mine>>
Nxt(c) == Len(seen[c])
Look(c) == /\ cpc[c] = "look" /\ Nxt(c) <= cursor /\ flag[Nxt(c) % N] = Nxt(c) \div N
           /\ cpc' = [cpc EXCEPT ![c] = "handle"] /\ UNCHANGED <<pos, seen>> /\ UnC
HandleIt(c) == /\ cpc[c] = "handle" /\ seen' = [seen EXCEPT ![c] = Append(@, slot[Nxt(c) % N])]
               /\ cpc' = [cpc EXCEPT ![c] = "rel"] /\ UNCHANGED pos /\ UnC
Rel(c) == /\ cpc[c] = "rel" /\ pos' = [pos EXCEPT ![c] = Nxt(c) - 1]
          /\ cpc' = [cpc EXCEPT ![c] = "look"] /\ UNCHANGED seen /\ UnC
Total == cursor + 1
Done == /\ \A p \in Producers : left[p] = 0 /\ pc[p] = "idle"
        /\ \A c \in Consumers : pos[c] = cursor
        /\ UNCHANGED vars
Next == \/ \E p \in Producers : Ask(p) \/ ReadCursor(p) \/ TestCache(p) \/ ReadGate(p) \/ Cas(p) \/ Write(p) \/ Publish(p)
        \/ \E c \in Consumers : Look(c) \/ HandleIt(c) \/ Rel(c)
        \/ Done
Fair == WF_vars(Next) /\ \A p \in Producers : WF_vars(Ask(p)) /\ WF_vars(ReadCursor(p)) /\ WF_vars(TestCache(p))
                         /\ WF_vars(ReadGate(p)) /\ WF_vars(Cas(p)) /\ WF_vars(Write(p)) /\ WF_vars(Publish(p))
        /\ \A c \in Consumers : WF_vars(Look(c)) /\ WF_vars(HandleIt(c)) /\ WF_vars(Rel(c))
Spec == Init /\ [][Next]_vars /\ Fair

Unique == /\ \A p, q \in Producers : p # q => mine[p] \cap mine[q] = {}
          /\ UNION {mine[p] : p \in Producers} = 0..cursor
NoOverwrite == \A c \in Consumers : cursor - N <= pos[c]
Intact == \A c \in Consumers : \A k \in DOMAIN seen[c] : seen[c][k] = k - 1
Finishes == <>[](\A c \in Consumers : pos[c] = cursor /\ \A p \in Producers : left[p] = 0 /\ pc[p] = "idle")
=============================================================================
