------------------------------- MODULE CacheTrace -------------------------------
(* Conformance of recorded histories of cache listeners. Values are pairs, the   *)
(* second one derived from the first, so that a torn copy shows.                 *)
EXTENDS Cache, LinTrace
SInit(cfg) == {Fresh(cfg)}
Val(v) == <<v, v * 3 + 1>>
SLin(st, p) == LET c == p.c ok(x) == {<<x, Finish(p)>>} IN
  CASE c.o = "receive" -> \* [value, least time the copy takes]; returns the time the call took
         IF c.d = 0 THEN ok(Receive(st, c.a[1], c.a[2], 1000000))
         ELSE IF c.x = "" THEN ok(Receive(st, c.a[1], c.a[2], c.r[1])) ELSE {}
    [] c.o = "make" -> ok(Hold(Obj(st, c.a[2]), c.a[1], Len(st.obj) + 1)) \* a handle to a new object
    [] c.o = "raw" -> IF Got(c, <<>>) THEN ok(Share(st, st.han[c.a[1]])) ELSE {}
    [] c.o = "last" -> \* a handle to the latest event
         IF st.last = 0 THEN IF Got(c, <<>>) THEN ok(st) ELSE {}
         ELSE IF Got(c, Val(st.obj[st.last])) THEN ok(Hold(st, c.a[1], st.last)) ELSE {}
    [] c.o = "both" -> \* count and latest event together
         IF Got(c, <<st.n>> \o (IF st.last = 0 THEN <<>> ELSE Val(st.obj[st.last])))
         THEN ok(IF st.last = 0 THEN st ELSE Hold(st, c.a[1], st.last)) ELSE {}
    [] c.o = "count" -> IF Got(c, <<st.n>>) THEN ok(st) ELSE {}
    [] c.o = "time" -> IF c.d = 0 \/ (c.x = "" /\ st.lo <= c.r[1] /\ c.r[1] <= st.hi) THEN ok(st) ELSE {}
    [] c.o = "look" -> IF Got(c, Val(st.obj[st.han[c.a[1]]])) THEN ok(st) ELSE {}
    [] c.o = "change" -> ok([st EXCEPT !.obj[st.han[c.a[1]]] = c.a[2]])
    [] OTHER -> {}
SObs(st, e, p) == IF e.e = "end" THEN {st} ELSE {}
SStuck(st, p) == FALSE
=================================================================================
