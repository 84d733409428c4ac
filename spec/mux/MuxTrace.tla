------------------------------- MODULE MuxTrace -------------------------------
(* Conformance of recorded histories of data multiplexers. The subscribers    *)
(* are pseudo calls that are always pending (thread 100 + subscriber).        *)
EXTENDS Mux, LinTrace
SInit(cfg) == {Fresh(cfg)}
SLin(st, p) == LET c == p.c IN
  CASE c.o = "publish" ->
         IF p.ph = 1 THEN {<<Publish0(st), Finish(p)>>}
         ELSE (IF CanAccept(st) /\ Got(c, <<1>>) THEN {<<Accept0(st, c.a[1]), Phase(p, 1)>>} ELSE {})
              \cup (IF CanDrop(st) /\ Got(c, <<0>>) THEN {<<Drop(st), Finish(p)>>} ELSE {})
    [] c.o = "mux" -> IF st.gone THEN {<<st, Finish(p)>>} ELSE {}
    [] c.o = "sub" -> IF Got(c, <<>>) THEN {<<Join(st, c.a[1]), Finish(p)>>} ELSE {}
    [] c.o = "reg" -> IF Got(c, <<>>) THEN {<<Reg(st, c.a[1], c.a[2]), Finish(p)>>} ELSE {}
    [] c.o = "unreg" -> IF Got(c, <<>>) THEN {<<Unreg(st, c.a[1], c.a[2]), Finish(p)>>} ELSE {}
    [] c.o = "drain" -> IF Rest(st) THEN {<<st, Finish(p)>>} ELSE {}
    [] c.o = "stats" -> IF Got(c, Stats(st, c.a[1], c.a[2])) THEN {<<st, Finish(p)>>} ELSE {}
    [] c.o = "dropped" -> IF Got(c, <<st.dropped>>) THEN {<<st, Finish(p)>>} ELSE {}
    [] c.o = "destroy" -> IF Quiet(st) THEN {<<[st EXCEPT !.gone = TRUE], Finish(p)>>} ELSE {}
    [] OTHER -> {}
SObs(st, e, p) ==
  CASE e.e = "deliver" ->
         LET u == e.a[1] ll == e.a[2] v == e.a[3] IN
         IF u \notin DOMAIN st.S \/ st.gone THEN {}
         ELSE {Serve(s1, u, ll) : s1 \in {x \in {st} \cup {Take(st, u, k) : k \in {k \in 1..st.npub : CanTake(st, u, k)}} :
                                          CanServe(x, u, ll, v)}}
    [] e.e = "served" -> IF CanServed(st, e.a[1], e.a[2], e.a[3]) THEN {Served(st, e.a[1])} ELSE {}
    [] e.e = "end" -> {st}
    [] OTHER -> {}
SStuck(st, p) == FALSE
===============================================================================
