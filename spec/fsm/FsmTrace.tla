------------------------------- MODULE FsmTrace -------------------------------
(* Conformance of recorded histories of state machines and their listeners. *)
EXTENDS Fsm, LinTrace
SInit(cfg) == {Fresh(cfg)}
Obsr(c) == IF c.o = "observe" THEN [l |-> 0, k |-> c.a[2]] ELSE [l |-> c.a[2], k |-> 0]
Effect(st, c) == LET m == c.a[1] IN
  CASE c.o = "start" -> Start(st, m)
    [] c.o = "stop" -> Stop(st, m)
    [] c.o = "reset" -> Reset(st, m)
    [] c.o = "enqueue" -> Enqueue(st, m, c.a[2])
    [] c.o = "update" -> Update(st, m)
    [] c.o = "enqueueUpdate" -> Update(Enqueue(st, m, c.a[2]), m)
    [] c.o \in {"observe", "listen"} -> [st EXCEPT !.M[m].obs = Append(@, Obsr(c))]
    [] c.o = "unobserve" -> [st EXCEPT !.M[m].obs = <<>>]
    \* of listeners: [listener, kind, machine, state, action]
    [] c.o = "add" -> [st EXCEPT !.acts = Append(@, [l |-> c.a[1], kind |-> c.a[2], m |-> c.a[3], st |-> c.a[4], id |-> c.a[5]])]
    [] c.o = "remove" -> Without(st, LAMBDA a : a.l = c.a[1] /\ a.m = c.a[2] /\ a.st = c.a[3])
    [] c.o = "removeAll" -> Without(st, LAMBDA a : a.l = c.a[1])
OfMachine(c) == c.o \in {"start", "update", "enqueueUpdate"}
SLin(st, p) == LET c == p.c m == c.a[1] IN
  IF p.ph = 0
  THEN LET x == Effect(st, c) IN
       IF OfMachine(c) /\ x.M[m].notes # st.M[m].notes /\ ~Dispatching(x, m) THEN {<<NextNote(x, m), Phase(p, 1)>>}
       ELSE IF Got(c, <<>>) THEN {<<x, Finish(p)>>} ELSE {}
  ELSE IF st.M[m].d.failed THEN IF Threw(c, "exception") THEN {<<EndDispatch(st, m), Finish(p)>>} ELSE {}
  ELSE {<<x, p>> : x \in Silent(st, m)} \cup (IF Ready(st, m) /\ Got(c, <<>>) THEN {<<EndDispatch(st, m), Finish(p)>>} ELSE {})
SObs(st, e, p) ==
  CASE e.e = "told" -> Told(st, e.a[1], e.a[2], e.a[3], e.a[4])
    [] e.e = "act" -> Acted(st, e.a[1], e.a[2], e.a[3], e.a[4])
    [] e.e = "failed" -> Failed(st, e.a[1])
    [] e.e = "end" -> {st}
    [] OTHER -> {}
SStuck(st, p) == FALSE
===============================================================================
