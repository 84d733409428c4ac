------------------------------ MODULE ServiceTrace ------------------------------
(* Conformance of recorded histories of managed services.                        *)
EXTENDS Service, LinTrace
SInit(cfg) == {Fresh(cfg)}
SLin(st, p) == LET c == p.c IN
  CASE c.o = "command" -> \* [bus, command]
         IF p.ph = 0 THEN {<<Command(st, c.a[1], c.a[2]), Phase(p, 1)>>}
         ELSE IF Got(c, <<>>) /\ (st.sync[c.a[1]] = 1 => Calm(st, c.a[1])) THEN {<<st, Finish(p)>>} ELSE {}
    [] c.o = "settle" -> IF Settled(st) THEN {<<st, Finish(p)>>} ELSE {}
    [] c.o \in {"startup", "shutdown"} ->
         IF p.ph = 0 THEN {<<Ask(st, c.a[1], IF c.o = "startup" THEN Start ELSE Stop), Phase(p, 1)>>}
         ELSE IF st.todo[c.a[1]] = <<>> /\ Got(c, <<>>) THEN {<<st, Finish(p)>>} ELSE {}
    [] c.o = "run" -> IF Got(c, <<IF st.up[c.a[1]] THEN 1 ELSE 0>>) THEN {<<st, Finish(p)>>} ELSE {}
    [] OTHER -> {}
SObs(st, e, p) ==
  CASE e.e = "start" -> IF Ready(st, e.a[1], Start) THEN {Take(st, e.a[1])} ELSE {}
    [] e.e = "stop" -> IF Ready(st, e.a[1], Stop) THEN {Take(st, e.a[1])} ELSE {}
    [] e.e = "end" -> IF Settled(st) THEN {st} ELSE {}
    [] OTHER -> {}
SStuck(st, p) == FALSE
=================================================================================
