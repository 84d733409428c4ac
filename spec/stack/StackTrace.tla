----------------------------- MODULE StackTrace -----------------------------
(* Conformance of recorded histories of LockFreeStack and SmartObjectPool. *)
EXTENDS Stack, LinTrace
OtherCallsMatter == FALSE
SInit(cfg) == {Fresh(cfg)}
\* other operations that may hold on to a node at this moment
Others(p) == Cardinality({t \in DOMAIN pend : ~pend[t].idle /\ pend[t].c.t # p.c.t})
\* another release under way, which may be the one that disposes of what the pool left
Releasing(p) == \E t \in DOMAIN pend : ~pend[t].idle /\ pend[t].c.o = "release" /\ pend[t].c.t # p.c.t
\* in runs with weak memory order, a thread may see the stack as it was before others used it
SLin(st, p) == LET c == p.c IN
  CASE c.o = "push" ->
         {<<r, Finish(p)>> : r \in
            (IF Len(st.q) < st.cap /\ Got(c, <<1>>) THEN {[st EXCEPT !.q = Append(@, c.a[1])]} ELSE {})
            \cup (IF (Len(st.q) + Others(p) >= st.cap \/ st.weak = 1) /\ Got(c, <<0>>) THEN {st} ELSE {})}
    [] c.o = "pop" ->
         IF st.q = <<>> \/ (st.weak = 1 /\ c.d = 1 /\ c.r = <<>>)
         THEN (IF Got(c, <<>>) THEN {<<st, Finish(p)>>} ELSE {})
         ELSE IF Got(c, <<st.q[Len(st.q)]>>) THEN {<<[st EXCEPT !.q = Front(@)], Finish(p)>>} ELSE {}
    [] c.o = "acquire" ->
         IF st.idle = {} \/ (st.weak = 1 /\ c.d = 1 /\ c.x # "") THEN (IF Threw(c, "empty") THEN {<<[st EXCEPT !.fails = @ + 1], Finish(p)>>} ELSE {})
         ELSE {<<Acquire(st, o), Finish(p)>> : o \in {x \in st.idle : Got(c, <<x>>)}}
    [] c.o = "release" -> LET o == c.a[1] IN
         IF p.ph = 0
         THEN (IF ~st.gone \/ Releasing(p) THEN {<<Return(st, o), Finish(p)>>} ELSE {})
              \cup (IF st.ending THEN {<<Drop(st, o), [p EXCEPT !.ph = 1]>>} ELSE {})
         ELSE IF o \in st.dead THEN {<<st, Finish(p)>>} ELSE {}
    [] c.o = "endpool" ->
         IF p.ph = 0 THEN {<<[st EXCEPT !.ending = TRUE], [p EXCEPT !.ph = 1]>>}
         ELSE IF CanEnd(st) THEN {<<[st EXCEPT !.gone = TRUE], Finish(p)>>} ELSE {}
    [] c.o = "fails" -> IF Got(c, <<st.fails>>) THEN {<<st, Finish(p)>>} ELSE {}
    [] OTHER -> {}
SObs(st, e, p) ==
  CASE e.e = "fin" -> IF CanFinalize(st, e.a[1]) THEN {[st EXCEPT !.fin = @ \cup {e.a[1]}]} ELSE {}
    [] e.e = "destroyed" -> IF CanDestroy(st, e.a[1]) THEN {Destroy(st, e.a[1])} ELSE {}
    \* contents of an object in hand: untouched by anybody else
    [] e.e = "intact" -> IF e.a[1] = 1 THEN {st} ELSE {}
    \* the initializer ran exactly once on each object
    [] e.e = "inits" -> IF e.a = [i \in 1..Len(e.a) |-> 1] THEN {st} ELSE {}
    \* at the very end nothing is lost
    [] e.e = "final" -> IF st.idle = {} /\ st.dying = {} /\ st.out = {} THEN {st} ELSE {}
    [] e.e = "end" -> {st}
    [] OTHER -> {}
SStuck(st, p) == NoneCanMove(st, p)
=============================================================================
