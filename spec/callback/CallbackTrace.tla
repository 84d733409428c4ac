---------------------------- MODULE CallbackTrace ----------------------------
(* Conformance of recorded histories of request/reply handlers. *)
EXTENDS Callback, LinTrace
SInit(cfg) == {Fresh(cfg)}
SLin(st, p) == LET c == p.c IN
  CASE c.o = "request" ->
         IF p.ph = 0 THEN {<<Add(st, c.a[1], c.a[2]), Phase(p, 1)>>}
         ELSE IF Expected(st, c.t) = -1 /\ Got(c, <<>>) THEN {<<Called(st, c.t), Finish(p)>>} ELSE {}
    [] c.o = "reply" ->
         IF p.ph = 0 THEN (IF Matches(st, c.a[1]) = {} THEN {<<st, Finish(p)>>}
                           ELSE {<<TakeReply(st, c.t, c.a[1]), Phase(p, 1)>>})
         ELSE IF Expected(st, c.t) = 0 /\ Got(c, <<>>) THEN {<<st, Finish(p)>>} ELSE {}
    [] c.o = "destroy" -> {<<[st EXCEPT !.open = <<>>], Finish(p)>>}
    [] OTHER -> {}
SObs(st, e, p) ==
  CASE e.e = "sent" ->  \* the request is published once, and a reply to it would be matched from now on
         IF e.t \in DOMAIN p /\ ~p[e.t].idle /\ p[e.t].c.o = "request" /\ p[e.t].c.a[1] = e.a[1]
            /\ p[e.t].ph = 1 /\ Expected(st, e.t) # -1
         THEN {[st EXCEPT !.exp = (e.t :> -1) @@ @]} ELSE {}
    [] e.e = "cb" -> IF e.a[1] # 0 /\ Expected(st, e.t) = e.a[1] /\ p[e.t].c.a[1] = e.a[2]
                     THEN {Called(st, e.t)} ELSE {}
    [] e.e = "end" -> {st}
    [] OTHER -> {}
SStuck(st, p) == FALSE
===============================================================================
