------------------------------- MODULE LockFree -------------------------------
(* The lock-free stack step by step: two linked lists of nodes (used, free)   *)
(* headed by a (tag, node) word; every shared access is one action.           *)
(* abs is the abstract stack: it changes at the successful exchange of the    *)
(* used list's head, which is where an operation takes effect.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Threads, Nodes, Ops, Tags, Filled     \* Tags: number of distinct tags; Filled: initially full?
None == 0
NodeSet == 1..Nodes
VARIABLES head, free, nxt, data,            \* shared
          pc, op, orig, new, node, val, left, got,  \* per thread
          abs, made, gone, ok               \* ghosts
vars == <<head, free, nxt, data, pc, op, orig, new, node, val, left, got, abs, made, gone, ok>>
Init == /\ head = [tag |-> 0, n |-> IF Filled THEN 1 ELSE None]
        /\ free = [tag |-> 0, n |-> IF Filled THEN None ELSE 1]
        /\ nxt = [i \in NodeSet |-> IF i = Nodes THEN None ELSE i + 1]
        /\ data = [i \in NodeSet |-> IF Filled THEN i ELSE 0]
        /\ pc = [t \in Threads |-> "idle"] /\ op = [t \in Threads |-> "-"]
        /\ orig = [t \in Threads |-> [tag |-> 0, n |-> None]] /\ new = orig
        /\ node = [t \in Threads |-> None] /\ val = [t \in Threads |-> 0]
        /\ left = [t \in Threads |-> Ops] /\ got = [t \in Threads |-> {}]
        /\ abs = IF Filled THEN [i \in NodeSet |-> Nodes + 1 - i] ELSE <<>>
        /\ made = IF Filled THEN Nodes ELSE 0
        /\ gone = {} /\ ok = TRUE
Goto(t, l) == pc' = [pc EXCEPT ![t] = l]
Shared == <<head, free, nxt, data>>
Ghost == <<abs, made, gone, ok>>
List(t) == IF (op[t] = "pop") = (pc[t] \in {"load", "next", "cas"}) THEN head ELSE free  \* list the thread is at
Start(t) == /\ pc[t] = "idle" /\ left[t] > 0
            /\ \E o \in {"push", "pop"} : op' = [op EXCEPT ![t] = o]
            /\ left' = [left EXCEPT ![t] = @ - 1] /\ Goto(t, "load")
            /\ UNCHANGED <<Shared, Ghost, orig, new, node, val, got>>
\* what an operation that finds its list empty says about the stack
MayFail(t) == IF op[t] = "pop" THEN abs = <<>>
              ELSE Len(abs) + Cardinality({u \in Threads \ {t} : pc[u] # "idle"}) >= Nodes
\* taking a node off a list
Load(t) == /\ pc[t] = "load" /\ orig' = [orig EXCEPT ![t] = List(t)]
           /\ IF List(t).n = None
              THEN /\ Goto(t, "idle")
                   /\ ok' = (ok /\ MayFail(t))
              ELSE Goto(t, "next") /\ UNCHANGED ok
           /\ UNCHANGED <<Shared, abs, made, gone, op, new, node, val, left, got>>
Next1(t) == /\ pc[t] = "next"
            /\ new' = [new EXCEPT ![t] = [tag |-> (orig[t].tag + 1) % Tags, n |-> nxt[orig[t].n]]]
            /\ Goto(t, "cas") /\ UNCHANGED <<Shared, Ghost, op, orig, node, val, left, got>>
Cas(t) == /\ pc[t] = "cas"
          /\ IF List(t) = orig[t]
             THEN /\ node' = [node EXCEPT ![t] = orig[t].n] /\ Goto(t, "data") /\ UNCHANGED orig
                  /\ IF op[t] = "pop"
                     THEN /\ head' = new[t] /\ UNCHANGED free
                          /\ abs' = SubSeq(abs, 1, Len(abs) - 1)
                          /\ val' = [val EXCEPT ![t] = abs[Len(abs)]]
                     ELSE free' = new[t] /\ UNCHANGED <<head, abs, val>>
             ELSE /\ orig' = [orig EXCEPT ![t] = List(t)] /\ UNCHANGED <<node, head, free, abs, val>>
                  /\ Goto(t, IF List(t).n = None THEN "idle" ELSE "next")
          /\ ok' = (ok /\ (List(t) = orig[t] \/ List(t).n # None \/ MayFail(t)))
          /\ UNCHANGED <<nxt, data, made, gone, op, new, left, got>>
\* using the node
Data(t) == /\ pc[t] = "data"
           /\ IF op[t] = "push"
              THEN /\ data' = [data EXCEPT ![node[t]] = made + 1] /\ made' = made + 1
                   /\ val' = [val EXCEPT ![t] = made + 1]
                   /\ UNCHANGED <<ok, gone, got>>
              ELSE /\ ok' = (ok /\ data[node[t]] = val[t] /\ val[t] \notin gone)
                   /\ gone' = gone \cup {val[t]} /\ got' = [got EXCEPT ![t] = @ \cup {val[t]}]
                   /\ data' = [data EXCEPT ![node[t]] = 0] /\ UNCHANGED <<made, val>>
           /\ Goto(t, "load2") /\ UNCHANGED <<head, free, nxt, abs, op, orig, new, node, left>>
\* putting it on the other list
Load2(t) == /\ pc[t] = "load2" /\ orig' = [orig EXCEPT ![t] = List(t)] /\ Goto(t, "link")
            /\ UNCHANGED <<Shared, Ghost, op, new, node, val, left, got>>
Link(t) == /\ pc[t] = "link" /\ nxt' = [nxt EXCEPT ![node[t]] = orig[t].n]
           /\ new' = [new EXCEPT ![t] = [tag |-> (orig[t].tag + 1) % Tags, n |-> node[t]]]
           /\ Goto(t, "cas2") /\ UNCHANGED <<head, free, data, Ghost, op, orig, node, val, left, got>>
Cas2(t) == /\ pc[t] = "cas2"
           /\ IF List(t) = orig[t]
              THEN /\ Goto(t, "idle") /\ node' = [node EXCEPT ![t] = None] /\ UNCHANGED orig
                   /\ IF op[t] = "push" THEN head' = new[t] /\ abs' = Append(abs, val[t]) /\ UNCHANGED free
                      ELSE free' = new[t] /\ UNCHANGED <<head, abs>>
              ELSE /\ orig' = [orig EXCEPT ![t] = List(t)] /\ Goto(t, "link") /\ UNCHANGED <<head, free, abs, node>>
           /\ UNCHANGED <<nxt, data, made, gone, ok, op, new, val, left, got>>
Step(t) == Start(t) \/ Load(t) \/ Next1(t) \/ Cas(t) \/ Data(t) \/ Load2(t) \/ Link(t) \/ Cas2(t)
Done == \A t \in Threads : pc[t] = "idle" /\ left[t] = 0
Next == (\E t \in Threads : Step(t)) \/ (Done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
RECURSIVE Chain(_, _)
Chain(n, k) == IF n = None \/ k = 0 THEN <<>> ELSE <<n>> \o Chain(nxt[n], k - 1)
SetOf(q) == {q[i] : i \in DOMAIN q}
Used == Chain(head.n, Nodes + 1)
Idle == Chain(free.n, Nodes + 1)
Held == {node[t] : t \in {u \in Threads : pc[u] \in {"data", "load2", "link", "cas2"}}}
NodesKept == /\ Len(Used) + Len(Idle) + Cardinality(Held) = Nodes
             /\ SetOf(Used) \cup SetOf(Idle) \cup Held = NodeSet
Refines == /\ Len(Used) = Len(abs)
           /\ \A i \in DOMAIN Used : data[Used[i]] = abs[Len(abs) + 1 - i]
Sym == Permutations(Threads)
Good == ok
Unique == \A t, u \in Threads : t # u => got[t] \cap got[u] = {}
=============================================================================
