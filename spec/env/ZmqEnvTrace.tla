------------------------------ MODULE ZmqEnvTrace ------------------------------
(* Conformance of recorded histories of ZMQ environments.                         *)
EXTENDS ZmqEnv, LinTrace
SInit(cfg) == {FreshZ(cfg.to)}
Adopt(st, p) == IF CanAdopt(st, p.c.a[1]) /\ p.ph < 9 THEN {<<Adopted(st, p.c.a[1]), p>>} ELSE {}
SLin(st, p) == LET c == p.c e == c.a[1] fin(r, x) == IF Got(c, r) THEN {<<x, Finish(p)>>} ELSE {} IN
  CASE c.o = "new" -> fin(<<>>, Created(st, e, Listed(c.v, c.ks)))
    [] c.o = "set" ->
         IF p.ph = 0 THEN Adopt(st, p) \cup {<<Changed(st, e, <<c.a[2], Full(c.k, c.n)>>, c.a[3]), Phase(p, 1)>>}
         ELSE Adopt(st, p) \cup fin(<<>>, Shared(st, e))
    [] c.o = "get" -> LET x == <<c.a[2], Full(c.k, c.n)>> IN
         Adopt(st, p) \cup fin(IF x \in DOMAIN st.env[e] THEN <<1, st.env[e][x]>> ELSE <<0, c.a[3]>>, st)
    [] c.o = "load" ->
         IF p.ph = 0
         THEN Adopt(st, p) \cup
              (IF c.a[2] = 0 THEN {<<st, Phase(p, 2)>>}
               ELSE LET own == st.env[e] new == Listed(c.v, c.ks) IN
                    {<<[st EXCEPT !.env[e] = @ @@ new], Phase(p, IF Conflict(own, new) THEN 2 ELSE 1)>>})
         ELSE Adopt(st, p) \cup fin(<<IF p.ph = 1 THEN 1 ELSE 0>>, Shared(st, e))
    [] c.o = "garbage" -> fin(<<>>, st)
    [] OTHER -> {}
SObs(st, e, p) ==
  CASE e.e = "settle" -> {AllAdopted(st)}
    [] e.e = "end" -> {st}
    [] OTHER -> {}
SStuck(st, p) == FALSE
=================================================================================
