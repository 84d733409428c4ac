---------------------------- MODULE ContainerTrace ----------------------------
(* Conformance of recorded histories of the container. *)
EXTENDS Container, LinTrace
SInit(cfg) == {Fresh(cfg)}
SLin(st, p) == LET c == p.c IN
  CASE c.o = "attach" -> IF Got(c, <<>>) THEN {<<Attach(st, c.a[1], c.a[2]), Finish(p)>>} ELSE {}
    [] c.o = "detach" -> IF Got(c, <<>>) THEN {<<Detach(st, c.a[1], c.a[2]), Finish(p)>>} ELSE {}
    [] c.o = "start" -> IF Got(c, <<>>) THEN {<<Start(st), Finish(p)>>} ELSE {}
    [] c.o = "stop" -> IF Got(c, <<>>) THEN {<<Stop(st), Finish(p)>>} ELSE {}
    [] c.o = "list" -> IF c.d = 0 \/ SameBag(c.r, st.reg[c.a[1]]) THEN {<<st, Finish(p)>>} ELSE {}
    [] c.o = "counts" -> IF Got(c, N(st, c.a[1])) THEN {<<st, Finish(p)>>} ELSE {}
    [] OTHER -> {}
SObs(st, e, p) == IF e.e = "end" THEN {st} ELSE {}
SStuck(st, p) == FALSE
===============================================================================
