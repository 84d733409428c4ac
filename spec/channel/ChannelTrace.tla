------------------------------ MODULE ChannelTrace ------------------------------
(* Conformance of recorded histories of middleware channels.                     *)
(* publish [channel, kind, event]: by value, by pointer, prepared by a function,  *)
(* prepared by a function that throws, refused by the middleware                  *)
EXTENDS Channel, LinTrace
SInit(cfg) == {Fresh(cfg)}
Fails(c) == c.o = "publish" /\ c.a[2] \in {3, 4}
In(st, p, t, o, k) == t \in DOMAIN p /\ (IF p[t].idle THEN FALSE ELSE p[t].c.o = o /\ p[t].c.a[1] = k)
\* the event the pending call of t has sent or delivered, 0 if none
Did(st, t) == IF t \in DOMAIN st.did THEN st.did[t] ELSE 0
Do(st, t, e) == [st EXCEPT !.did = (t :> e) @@ @]
SLin(st, p) == LET c == p.c IN
  CASE c.o = "publish" /\ Fails(c) -> IF Did(st, c.t) = 0 /\ Threw(c, "exception") THEN {<<st, Finish(p)>>} ELSE {}
    [] c.o = "publish" -> \* recorded as a message by this thread, or sent on into a pipeline
         IF Did(st, c.t) = c.a[3]
         THEN (IF Got(c, <<>>) THEN {<<Do(st, c.t, 0), Finish(p)>>} ELSE {})
         ELSE IF p.ph = 0 /\ st.pipes THEN {<<Published(st, c.a[1], c.a[3]), Phase(p, 1)>>}
         ELSE IF p.ph = 1 /\ Got(c, <<>>) THEN {<<st, Finish(p)>>} ELSE {}
    [] c.o = "deliver" ->
         IF c.a[3] = 1 THEN (IF Did(st, c.t) = 0 /\ Threw(c, "exception") THEN {<<st, Finish(p)>>} ELSE {})
         ELSE IF Did(st, c.t) = st.wire[c.a[2]] /\ Got(c, <<>>) THEN {<<Do(st, c.t, 0), Finish(p)>>} ELSE {}
    [] OTHER -> {}
SObs(st, e, p) ==
  CASE e.e = "msg" -> \* a message encoding the event of the pending publication
         IF In(st, p, e.t, "publish", e.a[1]) /\ ~Fails(p[e.t].c) /\ p[e.t].c.a[3] = e.a[3] /\ e.a[4] = 1
            /\ Did(st, e.t) = 0 /\ e.a[2] \notin DOMAIN st.wire
         THEN {Do(Sent(st, e.a[2], e.a[3]), e.t, e.a[3])} ELSE {}
    [] e.e = "got" -> \* the event encoded by the message being delivered
         IF In(st, p, e.t, "deliver", e.a[1]) /\ p[e.t].c.a[3] = 0 /\ st.wire[p[e.t].c.a[2]] = e.a[2] /\ e.a[3] = 1
            /\ Did(st, e.t) = 0
         THEN {Do(st, e.t, e.a[2])} ELSE {}
    [] e.e = "pipe" -> IF First(st.q, e.a[1], e.a[2]) /\ e.a[3] = 1 THEN {Received(st, e.a[1], e.t)} ELSE {}
    [] e.e = "fwd" -> IF First(st.f, <<e.a[1], e.t>>, e.a[2]) /\ e.a[3] = 1 THEN {Forwarded(st, e.a[1], e.t)} ELSE {}
    [] e.e = "end" -> IF Settled(st) THEN {st} ELSE {}
    [] OTHER -> {}
SStuck(st, p) == FALSE
=================================================================================
