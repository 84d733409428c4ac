------------------------------- MODULE EmitterMC -------------------------------
(* All histories of an emitter within small bounds: registrations, removals and   *)
(* emissions, the listeners of which register, remove and emit again.             *)
EXTENDS Emitter
CONSTANTS Kind, MaxSteps
VARIABLES s, n, tags, depth, log
vars == <<s, n, tags, depth, log>>
\* depth: emissions in progress (callers 1..depth, each within a listener of the one before)
\* log: caller -> positions called in its emission
Init == s = Fresh([kind |-> Kind, cont |-> 0, sub |-> 0]) /\ n = 0 /\ tags = 0 /\ depth = 0 /\ log = [t \in 1..2 |-> <<>>]
Step == n < MaxSteps /\ n' = n + 1
Register == /\ Step /\ tags < 3 /\ tags' = tags + 1 /\ \E ev \in {"e", "f"}, once \in BOOLEAN :
                 IF ~once /\ ~Accepts(s, tags) THEN UNCHANGED s ELSE s' = Add(s, tags + 1, ev, tags, once, tags + 1)
            /\ UNCHANGED <<depth, log>>
Remove == Step /\ \E r \in Range(s.regs) : s' = Without(s, {r.tag}) /\ UNCHANGED <<tags, depth, log>>
\* the one-shot listeners of the event are taken when the emission begins, in one step
RECURSIVE TakeAll(_, _, _)
TakeAll(x, t, S) == IF S = {} THEN x ELSE LET r == CHOOSE r \in S : TRUE IN TakeAll(TakeOnce(x, t, r), t, S \ {r})
Emit == /\ Step /\ depth < 2 /\ depth' = depth + 1
        /\ \E ev \in {"e", "f"} : LET x == Begin(s, depth + 1, ev, n) IN s' = TakeAll(x, depth + 1, Takeable(x, depth + 1))
        /\ log' = [log EXCEPT ![depth + 1] = <<>>] /\ UNCHANGED tags
\* (nobody who has to be called is skipped)
NoneBefore(tag) == \A x \in (s.em[depth].must \cup s.em[depth].mine) \ s.em[depth].done : x >= tag
Hits == /\ depth > 0 /\ \E tag \in 1..tags : CanHit(s, depth, tag, s.em[depth].v) /\ NoneBefore(tag)
                          /\ s' = Hit(s, depth, tag) /\ log' = [log EXCEPT ![depth] = Append(@, tag)]
        /\ UNCHANGED <<n, tags, depth>>
Ends == depth > 0 /\ CanEnd(s, depth) /\ s' = End(s, depth) /\ depth' = depth - 1 /\ UNCHANGED <<n, tags, log>>
Next == Register \/ Remove \/ Emit \/ Hits \/ Ends
Spec == Init /\ [][Next]_vars
\* ---- a listener is called at most once per emission, in the order of registration, for its event only
InOrder == \A t \in 1..2 : \A i, j \in DOMAIN log[t] : i < j => log[t][i] < log[t][j]
OwnEvent == \A t \in 1..depth : \A tag \in s.em[t].done : \E r \in s.em[t].may : r.tag = tag /\ r.ev = s.em[t].ev
\* an emission that ends has called every listener that was there throughout
CalledAll == [][depth' < depth => \A r \in Range(s.regs) : (r.tag \in s.em[depth].must) => r.tag \in s.em[depth].done]_vars
OnceOnce == \A tag \in 1..tags : \A t, u \in 1..depth : t # u => ~(tag \in s.em[t].mine /\ tag \in s.em[u].mine)
UniqueNames == Kind = 1 => Cardinality(Names(s)) = Cardinality({r \in Range(s.regs) : ~r.once})
SingleOnly == Kind = 0 => Cardinality({r \in Range(s.regs) : ~r.once}) <= 1
CountsRight == \A r \in Range(s.regs) : r.proc <= n
GoesOn == depth > 0 => CanEnd(s, depth) \/ \E tag \in 1..tags : CanHit(s, depth, tag, s.em[depth].v)
================================================================================
