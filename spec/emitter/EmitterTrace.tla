----------------------------- MODULE EmitterTrace -----------------------------
(* Conformance of recorded histories of the event emitters. *)
EXTENDS Emitter, LinTrace
SInit(cfg) == {Fresh(cfg)}
B(x) == IF x THEN 1 ELSE 0
RegLin(st, p, tag, ev, n, once) == LET c == p.c IN
  IF c.d = 1 /\ c.x # "" THEN {}
  ELSE LET id == IF c.d = 1 /\ c.r # <<>> THEN c.r[1] ELSE 100000 + tag IN
       (IF once THEN (IF id \notin Ids(st) THEN {<<Add(st, tag, ev, n, TRUE, id), Finish(p)>>} ELSE {})
        ELSE IF st.sub = 0 /\ c.d = 1 /\ ~IdOk(st, n, id) THEN {}
        ELSE IF Accepts(st, n) THEN {<<Add(st, tag, ev, n, FALSE, id), Finish(p)>>}
        ELSE {<<st, Finish(p)>>})
SLin(st, p) == LET c == p.c IN
  CASE c.o \in {"on", "reg"} -> RegLin(st, p, c.a[1], c.a[2], c.a[3], FALSE)
    [] c.o \in {"once", "regonce"} ->
         IF st.kind = 2 THEN RegLin(st, p, c.a[1], c.a[2], -1, TRUE)
         ELSE IF Threw(c, "exception") THEN {<<st, Finish(p)>>} ELSE {}
    [] c.o = "regnull" -> IF Threw(c, "exception") THEN {<<st, Finish(p)>>} ELSE {}
    [] c.o = "remove" ->
         IF c.a[1] \in Ids(st) THEN (IF Got(c, <<>>) THEN {<<Without(st, {ById(st, c.a[1]).tag}), Finish(p)>>} ELSE {})
         ELSE IF st.kind = 2 THEN (IF Threw(c, "exception") THEN {<<st, Finish(p)>>} ELSE {})
         ELSE IF Got(c, <<>>) THEN {<<st, Finish(p)>>} ELSE {}
    [] c.o = "rmname" ->
         IF ~Got(c, <<>>) THEN {}
         ELSE IF c.a[1] \in Names(st) THEN {<<Without(st, {ByName(st, c.a[1]).tag}), Finish(p)>>}
         ELSE {<<st, Finish(p)>>}
    [] c.o = "removeall" -> IF Got(c, <<>>) THEN {<<Without(st, {r.tag : r \in Range(st.regs)}), Finish(p)>>} ELSE {}
    [] c.o = "emit" ->
         IF c.t \notin DOMAIN st.em \/ ~st.em[c.t].on THEN {}
         ELSE {<<TakeOnce(st, c.t, r), p>> : r \in Takeable(st, c.t)}
              \cup (IF CanEnd(st, c.t) /\ Got(c, <<>>) THEN {<<End(st, c.t), Finish(p)>>} ELSE {})
    [] c.o = "discard" -> IF Got(c, <<>>) THEN {<<Discard(st, c.a[1]), Finish(p)>>} ELSE {}
    [] c.o = "exists" ->
         LET has == c.a[1] \in Ids(st) /\ HasStats(st, ById(st, c.a[1])) IN
         IF Got(c, <<B(has)>>) THEN {<<st, Finish(p)>>} ELSE {}
    [] c.o = "stats" ->
         IF Got(c, IF c.a[1] \in Ids(st) /\ HasStats(st, ById(st, c.a[1]))
                   THEN StatsOf(st, ById(st, c.a[1])) ELSE <<0, 0, 0, 0>>) THEN {<<st, Finish(p)>>} ELSE {}
    [] c.o = "statsname" ->
         IF Got(c, IF c.a[1] \in Names(st) /\ HasStats(st, ByName(st, c.a[1]))
                   THEN StatsOf(st, ByName(st, c.a[1])) ELSE <<0, 0, 0, 0>>) THEN {<<st, Finish(p)>>} ELSE {}
    [] c.o = "attached" -> IF Got(c, <<Attached(st)>>) THEN {<<st, Finish(p)>>} ELSE {}
    [] OTHER -> {}
SObs(st, e, p) ==
  CASE e.e = "begin" -> {Begin(st, e.t, e.a[1], e.a[2])}
    [] e.e = "hit" -> IF CanHit(st, e.t, e.a[1], e.a[2]) THEN {Hit(st, e.t, e.a[1])} ELSE {}
    [] e.e = "end" -> {st}
    [] OTHER -> {}
SStuck(st, p) == FALSE
===============================================================================
