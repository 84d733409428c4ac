----------------------------- MODULE MemoryTrace -----------------------------
(* Conformance of recorded histories of the in-memory middleware. The poller  *)
(* is a pseudo call that is always pending and takes events.                  *)
EXTENDS Memory, LinTrace
SInit(cfg) == {Fresh(cfg)}
MayDrop(st, c) == st.conc = 0 \/ c.d = 0 \/ st.disc < c.r[1]
SLin(st, p) == LET c == p.c IN
  CASE c.o = "publish" ->
         (IF (HasRoom(st) \/ p.ph = 1) /\ (st.conc = 1 => Got(c, <<st.disc>>)) THEN {<<Put(st, c.a[1]), Finish(p)>>} ELSE {})
         \cup (IF st.discard = 1 /\ p.ph = 0 /\ Full(st) /\ MayDrop(st, c)
               THEN {IF st.conc = 0 THEN <<Put(DropOne(st), c.a[1]), Finish(p)>>
                     ELSE <<DropOne(st), [p EXCEPT !.ph = 1, !.m = 1]>>} ELSE {})
         \* the lock-free queue frees whole blocks: it drops one by one until there is a free block
         \cup (IF p.ph = 1 /\ p.m < 32 /\ MayDrop(st, c) /\ st.q # <<>> THEN {<<DropOne(st), [p EXCEPT !.m = @ + 1]>>} ELSE {})
    [] c.o = "poller" ->
         (IF CanTake(st) THEN {<<Take(st), p>>} ELSE {})
         \cup (IF st.gone THEN {<<st, Finish(p)>>} ELSE {})
    [] c.o = "start" -> IF Got(c, <<1>>) THEN {<<[st EXCEPT !.run = TRUE], Finish(p)>>} ELSE {}
    [] c.o = "stop" -> IF Quiet(st) /\ Got(c, <<0>>) THEN {<<[st EXCEPT !.run = FALSE], Finish(p)>>} ELSE {}
    [] c.o = "drain" -> IF Quiet(st) /\ st.q = <<>> THEN {<<st, Finish(p)>>} ELSE {}
    [] c.o = "discarded" -> IF Got(c, <<st.disc>>) THEN {<<st, Finish(p)>>} ELSE {}
    [] c.o = "destroy" -> IF Quiet(st) THEN {<<[st EXCEPT !.run = FALSE, !.gone = TRUE], Finish(p)>>} ELSE {}
    [] OTHER -> {}
SObs(st, e, p) ==
  CASE e.e = "deliver" -> IF CanServe(st, e.a[1], e.a[2]) THEN {Serve(st)} ELSE {}
    [] e.e = "served" -> IF st.inl /\ st.at = e.a[1] THEN {Served(st)} ELSE {}
    [] e.e = "end" -> {st}
    [] OTHER -> {}
SStuck(st, p) == NoneCanMove(st, p)
=============================================================================
