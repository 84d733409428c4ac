---------------------------- MODULE SafeQueue ----------------------------
(* The bounded FIFO queue of the in-memory middleware (C10, C11).         *)
(* Several queue objects q[1..n]; each operation is one atomic step.      *)
EXTENDS Integers, Sequences

\* abstract state: [q |-> sequence of contents per queue, cap |-> capacities (0 = no limit)]
Bounded(st, i) == st.cap[i] > 0
Full(st, i) == Bounded(st, i) /\ Len(st.q[i]) >= st.cap[i]
Excess(st, i) == IF Full(st, i) THEN Len(st.q[i]) - st.cap[i] + 1 ELSE 0

Put(st, i, v) == [st EXCEPT !.q[i] = Append(@, v)]
Drop(st, i, n) == [st EXCEPT !.q[i] = SubSeq(@, n + 1, Len(@))]

(* Every operation: set of records [s |-> next state, r |-> result].  The *)
(* empty set means: the operation has to wait.                            *)
Push(st, i, v) == IF Full(st, i) THEN {} ELSE {[s |-> Put(st, i, v), r |-> <<1>>]}
TryPush(st, i, v) == IF Full(st, i) THEN {[s |-> st, r |-> <<0>>]}
                     ELSE {[s |-> Put(st, i, v), r |-> <<1>>]}
ForcePush(st, i, v) == LET n == Excess(st, i)
                       IN {[s |-> Put(Drop(st, i, n), i, v), r |-> <<n>>]}
Pop(st, i) == IF st.q[i] = <<>> THEN {}
              ELSE {[s |-> Drop(st, i, 1), r |-> <<1, Head(st.q[i])>>]}
TryPop(st, i) == IF st.q[i] = <<>> THEN {[s |-> st, r |-> <<0>>]} ELSE Pop(st, i)
\* a timed pop may give up at any moment at which the queue is empty (the clock decides when)
TimedPop(st, i) == TryPop(st, i)
Size(st, i) == {[s |-> st, r |-> <<Len(st.q[i])>>]}
Empty(st, i) == {[s |-> st, r |-> <<IF st.q[i] = <<>> THEN 1 ELSE 0>>]}
IsFull(st, i) == {[s |-> st, r |-> <<IF Full(st, i) THEN 1 ELSE 0>>]}
SetCap(st, i, n) == {[s |-> [st EXCEPT !.cap[i] = n], r |-> <<>>]}
Swap(st, i, j) == {[s |-> [st EXCEPT !.q[i] = st.q[j], !.q[j] = st.q[i]], r |-> <<>>]}
CopyFrom(st, i, j) == {[s |-> [st EXCEPT !.q[i] = st.q[j]], r |-> <<>>]}
MoveFrom(st, i, j) == {[s |-> [st EXCEPT !.q[i] = st.q[j], !.q[j] = <<>>], r |-> <<>>]}
\* a queue constructed from another one has the same contents and the same limit
CopyNew(st, i, j) == {[s |-> [st EXCEPT !.q[i] = st.q[j], !.cap[i] = st.cap[j]], r |-> <<>>]}
MoveNew(st, i, j) == {[s |-> [st EXCEPT !.q[i] = st.q[j], !.cap[i] = st.cap[j], !.q[j] = <<>>], r |-> <<>>]}

Apply(st, o, a) ==
  CASE o = "push" -> Push(st, a[1], a[2])
    [] o = "trypush" -> TryPush(st, a[1], a[2])
    [] o = "force" -> ForcePush(st, a[1], a[2])
    [] o = "pop" -> Pop(st, a[1])
    [] o = "trypop" -> TryPop(st, a[1])
    [] o = "timedpop" -> TimedPop(st, a[1])
    [] o = "size" -> Size(st, a[1])
    [] o = "empty" -> Empty(st, a[1])
    [] o = "full" -> IsFull(st, a[1])
    [] o = "setcap" -> SetCap(st, a[1], a[2])
    [] o = "swap" -> Swap(st, a[1], a[2])
    [] o = "copy" -> CopyFrom(st, a[1], a[2])
    [] o = "move" -> MoveFrom(st, a[1], a[2])
    [] o = "copynew" -> CopyNew(st, a[1], a[2])
    [] o = "movenew" -> MoveNew(st, a[1], a[2])
==========================================================================
