-------------------------------- MODULE ZmqTrace --------------------------------
(* Conformance of recorded histories of ZMQ channels.                             *)
EXTENDS Zmq, LinTrace
SInit(cfg) == {Fresh(cfg.wants)}
SLin(st, p) == LET c == p.c ok(x) == IF Got(c, <<>>) THEN {<<x, Finish(p)>>} ELSE {} IN
  CASE c.o = "publish" -> IF c.a[3] = 3 THEN (IF Threw(c, "exception") THEN {<<st, Finish(p)>>} ELSE {})
                          ELSE ok(Published(st, c.a[1], c.a[2], c.a[4]))
    [] c.o = "garbage" -> ok(Published(st, c.a[1], c.a[2], 0))
    [] c.o = "register" -> ok(Registered(st, c.a[1], c.a[2], c.a[3]))
    [] c.o = "unregister" -> ok(Unregistered(st, c.a[1], c.a[2]))
    [] c.o = "start" -> ok(Started(st, c.a[1]))
    [] c.o \in {"stop", "destroy"} -> ok(Stopped(st, c.a[1]))
    [] OTHER -> {}
SObs(st, e, p) ==
  CASE e.e = "got" -> LET k == e.a[1] t == e.a[3] IN
         IF st.run[k] /\ t \in DOMAIN st.reg[k] /\ e.a[5] = 1
         THEN IF st.reg[k][t] = e.a[2] THEN {Taken(st, k, i) : i \in Next1(st, k, t, e.a[4])} ELSE {}
         ELSE {}
    [] e.e = "settle" -> IF Idle(st) THEN {[st EXCEPT !.q = [k \in DOMAIN st.q |-> IF st.run[k] THEN <<>> ELSE st.q[k]]]} ELSE {}
    [] e.e = "end" -> {st}
    [] OTHER -> {}
SStuck(st, p) == FALSE
=================================================================================
