---------------------------- MODULE PoolPubTrace ----------------------------
(* Conformance of recorded histories of publishers with an object pool. *)
EXTENDS PoolPub, LinTrace
\* kinds of publication: 0 by value, 1 by pointer, 2 in place (all fields), 3 in place (one field),
\* 4 in place by a function which throws
SInit(cfg) == {Fresh(cfg)}
Throws(st, c) == c.a[1] = 4 \/ (c.a[1] = 0 /\ c.a[2] < 0 /\ st.c.cloner = 1)
SLin(st, p) == LET c == p.c IN
  CASE c.o = "publish" ->
         IF p.ph = 0
         THEN {<<x, Phase(p, 1)>> : x \in
                 CASE c.a[1] = 0 -> Acquire(st, c.t, ByValue(st, c.a[2]))
                   [] c.a[1] = 1 -> Own(st, c.t, <<c.a[2], c.a[2] * 10 + 3, 4>>)
                   [] OTHER -> Acquire(st, c.t, InPlace(st, c.a[2], IF c.a[1] = 3 THEN 0 ELSE 1))}
         ELSE IF Throws(st, c) THEN IF ~st.pub[c.t].got /\ Threw(c, "exception") THEN {<<Done(st, c.t), Finish(p)>>} ELSE {}
         ELSE IF st.pub[c.t].got /\ Got(c, <<>>) THEN {<<Done(st, c.t), Finish(p)>>} ELSE {}
    [] c.o = "drop" -> IF c.a[1] \in DOMAIN st.han THEN {<<Drop(st, c.a[1]), Finish(p)>>} ELSE {}
    [] c.o = "allocs" -> IF \E n \in Counts(st) : Got(c, <<n>>) THEN {<<st, Finish(p)>>} ELSE {}
    \* live objects and objects finalized by the destruction of the publisher
    [] c.o = "destroy" -> IF Got(c, <<Holds(st), IF st.c.fin = 1 THEN st.free ELSE 0>>)
                          THEN {<<[st EXCEPT !.free = -1000], Finish(p)>>} ELSE {}
    [] c.o = "live" -> IF Got(c, <<Holds(st)>>) THEN {<<st, Finish(p)>>} ELSE {}
    [] OTHER -> {}
Here(st, e, p) == e.t \in DOMAIN p /\ ~p[e.t].idle /\ e.t \in DOMAIN st.pub
SObs(st, e, p) ==
  CASE e.e = "fill" -> IF Here(st, e, p) THEN  \* the object handed to the function, as prepared
                         (LET want == IF st.c.init = 1 THEN <<-1, 7, 5>> ELSE <<-1, -1, -1>>
                         IN IF Same(want, <<e.a[2], e.a[3], e.a[4]>>) THEN Seen(st, e.t, e.a[1]) ELSE {}) ELSE {}
    [] e.e = "clone" -> IF Here(st, e, p) THEN Seen(st, e.t, e.a[1]) ELSE {}
    [] e.e = "got" -> IF Here(st, e, p) THEN Delivered(st, e.t, e.a[1], <<e.a[2], e.a[3], e.a[4]>>) ELSE {}
    [] e.e = "hold" -> IF Here(st, e, p) THEN {Hold(st, e.t, e.a[1])} ELSE {}
    [] e.e = "look" -> IF e.a[1] \in DOMAIN st.han /\ st.obj[st.han[e.a[1]]].v = <<e.a[2], e.a[3], e.a[4]>> THEN {st} ELSE {}
    [] e.e = "end" -> {st}
    [] OTHER -> {}
SStuck(st, p) == FALSE
==============================================================================
