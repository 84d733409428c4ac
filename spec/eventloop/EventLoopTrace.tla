---------------------------- MODULE EventLoopTrace ----------------------------
(* Conformance of recorded histories of event loops. The loop is a pseudo     *)
(* call that is always pending and takes events.                              *)
EXTENDS EventLoop, LinTrace
SInit(cfg) == {Fresh(cfg)}
B(x) == IF x THEN 1 ELSE 0
(* the outcome of a publication is known where nobody else publishes that event *)
MayBe(c, r) == c.d = 0 \/ (c.x = "" /\ (c.r = <<>> \/ c.r = <<r>>))
SLin(st, p) == LET c == p.c IN
  CASE c.o = "publish" ->
         IF p.ph = 1 THEN {<<Publish0(st, c.t), Finish(p)>>}
         ELSE (IF CanAccept(st) /\ MayBe(c, 1) THEN {<<Accept0(st, c.a[1], c.a[2], c.t), Phase(p, 1)>>} ELSE {})
              \cup (IF CanDrop(st) /\ MayBe(c, 0) THEN {<<Drop(st, c.a[1]), Finish(p)>>} ELSE {})
    [] c.o = "loop" ->
         (IF CanTake(st) THEN {<<Take(st), p>>} ELSE {})
         \cup (IF st.gone THEN {<<st, Finish(p)>>} ELSE {})
    [] c.o = "start" -> IF Got(c, <<1>>) THEN {<<[st EXCEPT !.run = TRUE], Finish(p)>>} ELSE {}
    [] c.o = "stop" -> IF Quiet(st) /\ Got(c, <<0>>) THEN {<<Stop(st), Finish(p)>>} ELSE {}
    [] c.o = "unloop" -> IF Quiet(st) /\ Got(c, <<>>) THEN {<<Unloop(st), Finish(p)>>} ELSE {}
    [] c.o = "reloop" -> IF Got(c, <<>>) THEN {<<Reloop(st), Finish(p)>>} ELSE {}
    [] c.o = "running" -> IF Got(c, <<B(st.run)>>) THEN {<<st, Finish(p)>>} ELSE {}
    [] c.o = "drain" -> IF Quiet(st) /\ st.q = <<>> THEN {<<st, Finish(p)>>} ELSE {}
    [] c.o = "discarded" -> IF Got(c, <<st.disc[c.a[1]]>>) THEN {<<st, Finish(p)>>} ELSE {}
    [] c.o = "reg" -> IF Got(c, <<>>) THEN {<<Reg(st, c.a[1], c.a[2]), Finish(p)>>} ELSE {}
    [] c.o = "unreg" -> IF Got(c, <<>>) THEN {<<Unreg(st, c.a[1], c.a[2]), Finish(p)>>} ELSE {}
    [] c.o = "destroy" -> IF Quiet(st) THEN {<<[st EXCEPT !.run = FALSE, !.gone = TRUE], Finish(p)>>} ELSE {}
    [] OTHER -> {}
SObs(st, e, p) ==
  CASE e.e = "deliver" -> IF CanServe(st, e.a[1], e.a[2]) THEN {Serve(st, e.a[1])} ELSE {}
    [] e.e = "served" -> IF CanServed(st, e.a[1], e.a[2]) THEN {Served(st)} ELSE {}
    [] e.e = "end" -> {st}
    [] OTHER -> {}
SStuck(st, p) == NoneCanMove(st, p)
===============================================================================
