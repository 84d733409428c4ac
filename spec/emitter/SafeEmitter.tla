----------------------------- MODULE SafeEmitter -----------------------------
(* The thread-safe emitter step by step: emissions take a snapshot under the  *)
(* lock (removing one-shot listeners from the registry in the same critical   *)
(* section) and call the listeners afterwards, without the lock; listeners    *)
(* may register, remove and emit.                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Callers, Tags, OnceTags, MaxEmits, MaxDepth
VARIABLES regs,     \* registered listeners, in order
          fresh,    \* listeners not yet registered
          stack,    \* caller -> nested emissions, innermost last: [todo, must, calls]
          calls,    \* tag -> number of calls overall
          emits, lock
vars == <<regs, fresh, stack, calls, emits, lock>>
Range(q) == {q[i] : i \in DOMAIN q}
Init == /\ regs = <<>> /\ fresh = Tags /\ stack = [c \in Callers |-> <<>>]
        /\ calls = [t \in Tags |-> 0] /\ emits = 0 /\ lock = {}
Free == lock = {}
Top(c) == stack[c][Len(stack[c])]
\* user code runs at top level and inside listeners
Register(t) == /\ Free /\ t \in fresh
               /\ fresh' = fresh \ {t} /\ regs' = Append(regs, t)
               /\ UNCHANGED <<stack, calls, emits, lock>>
Drop(t, st) == [c \in Callers |-> [i \in DOMAIN st[c] |-> [st[c][i] EXCEPT !.must = @ \ {t}]]]
Remove(t) == /\ Free /\ t \in Range(regs)
             /\ regs' = SelectSeq(regs, LAMBDA x : x # t)
             /\ stack' = Drop(t, stack)
             /\ UNCHANGED <<fresh, calls, emits, lock>>
Snapshot(c) == /\ Free /\ emits < MaxEmits /\ Len(stack[c]) < MaxDepth
               /\ emits' = emits + 1
               /\ stack' = [stack EXCEPT ![c] = Append(@, [todo |-> regs, must |-> Range(regs), called |-> {}])]
               /\ regs' = SelectSeq(regs, LAMBDA x : x \notin OnceTags)
               /\ UNCHANGED <<fresh, calls, lock>>
CallNext(c) == /\ stack[c] # <<>> /\ Top(c).todo # <<>>
               /\ LET t == Top(c).todo[1] IN
                  /\ calls' = [calls EXCEPT ![t] = @ + 1]
                  /\ stack' = [stack EXCEPT ![c][Len(stack[c])] =
                                 [@ EXCEPT !.todo = Tail(@), !.called = @ \cup {t}]]
               /\ UNCHANGED <<regs, fresh, emits, lock>>
Done(c) == /\ stack[c] # <<>> /\ Top(c).todo = <<>>
           /\ stack' = [stack EXCEPT ![c] = SubSeq(@, 1, Len(@) - 1)]
           /\ UNCHANGED <<regs, fresh, calls, emits, lock>>
Next == \/ \E t \in Tags : Register(t) \/ Remove(t)
        \/ \E c \in Callers : Snapshot(c) \/ CallNext(c) \/ Done(c)
Spec == Init /\ [][Next]_vars
\* a one-shot listener is called once overall
OnceOnce == \A t \in OnceTags : calls[t] <= 1
\* an emission about to end has called everybody registered throughout
AllCalled == \A c \in Callers : \A i \in DOMAIN stack[c] :
               stack[c][i].todo = <<>> => stack[c][i].must \subseteq stack[c][i].called
\* nobody is called twice by one emission, and in registration order
InOrder == \A c \in Callers : \A i \in DOMAIN stack[c] :
             /\ Cardinality(Range(stack[c][i].todo)) = Len(stack[c][i].todo)
             /\ Range(stack[c][i].todo) \cap stack[c][i].called = {}
\* a one-shot listener out of the registry is, or will be, called
OnceKept == \A t \in OnceTags : (t \notin fresh /\ t \notin Range(regs) /\ calls[t] = 0)
              => \/ \E c \in Callers : \E i \in DOMAIN stack[c] : t \in Range(stack[c][i].todo)
                 \/ \A c \in Callers : \A i \in DOMAIN stack[c] : t \notin stack[c][i].must
==============================================================================
