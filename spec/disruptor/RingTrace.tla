------------------------------ MODULE RingTrace ------------------------------
(* Conformance of recorded ring buffer histories. *)
EXTENDS Ring, LinTrace

RInit(cfg) == {Fresh(cfg)}
B(b) == IF b THEN 1 ELSE 0

AllDeps(st) == 1..st.c.k          \* the barrier of the manual waiters tracks every manual consumer
WAvail(st, p) == Avail(st, AllDeps(st), st.hi, p)
\* timeouts (ns) so long that they never elapse while anything else happens; half of that is long after
Prompt == 100000
WaitLin(st, p) ==
  LET c == p.c
      sq == c.a[1]
      a == WAvail(st, sq)
      r == IF c.r = <<>> THEN sq - 1 ELSE c.r[1]
  IN IF p.ph = 0
     THEN (IF st.alerted /\ Threw(c, "alert") THEN {<<st, Finish(p)>>} ELSE {})
          \cup (IF ~st.alerted \/ st.c.weak = 1
                THEN {<<st, [p EXCEPT !.ph = 1, !.m = IF st.c.weak = 1 THEN sq - 1 ELSE a]>>} ELSE {})
     ELSE {<<st, Finish(p)>> : x \in {y \in {"res", "alert", "timeout"} :
            CASE y = "res" -> IF c.d = 0 THEN a >= sq
                              ELSE c.x = "" /\ r <= a /\ r >= p.m
                                   /\ (IF r >= sq THEN TRUE ELSE st.c.multi = 1 /\ st.cl >= sq /\ r = sq - 1)
              [] y = "alert" -> st.alerted /\ Threw(c, "alert")
              [] y = "timeout" -> /\ c.a[3] > 0 /\ Threw(c, "timeout") /\ p.m < sq
                                  /\ (IF "ts" \in DOMAIN E THEN E.ts >= c.a[2] ELSE TRUE)
                                  \* not long after everything it waits for has been published
                                  /\ (IF "ts" \in DOMAIN E /\ c.a[3] > Prompt
                                      THEN Contig(st, sq) < sq \/ E.ts <= st.last + Prompt \div 200 ELSE TRUE)}}
PubLin(st, p) ==
  LET lo == p.c.a[1] hi == p.c.a[2] id == p.c.a[3] IN
  LET s1 == [st EXCEPT !.last = IF "ts" \in DOMAIN E THEN E.ts ELSE 0] IN
  IF st.c.multi = 0 THEN {<<PutAll(s1, lo, hi, id), Finish(p)>>}
  ELSE LET i == lo + p.ph IN
       {<<Put(s1, i, id + p.ph), IF i = hi THEN Finish(p) ELSE [p EXCEPT !.ph = @ + 1]>>}
RunLin(st, p) ==
  LET k == p.c.a[1] t == p.c.t IN
  CASE p.ph = 0 -> IF st.pr[k].act = -1 THEN {<<Enter(st, k, t), [p EXCEPT !.ph = 1]>>}
                   ELSE IF Threw(p.c, "running") THEN {<<st, Finish(p)>>} ELSE {}
    [] p.ph = 1 -> {<<SetUp(st, k), [p EXCEPT !.ph = 2]>>}
    [] st.c.noop = 1 -> IF st.pr[k].halted /\ Threw(p.c, "") THEN {<<Leave(st, k), Finish(p)>>} ELSE {}
    [] OTHER -> IF st.pr[k].st = 3 /\ st.pr[k].act = t /\ Threw(p.c, "")
                THEN {<<Leave(st, k), Finish(p)>>} ELSE {}
HaltLin(st, p) ==
  LET k == p.c.a[1] IN
  IF p.ph = 0
  THEN IF st.pr[k].up THEN {<<[st EXCEPT !.pr[k].up = FALSE], [p EXCEPT !.ph = 1]>>}
       ELSE {<<st, Finish(p)>>}
  ELSE {<<[st EXCEPT !.pr[k].halted = TRUE], Finish(p)>>}

RECURSIVE Query(_, _)
Query(st, c) ==    \* C07: what a query must answer, with the system at rest
  CASE c.o = "remaining" -> st.c.n - (st.cl - GateOf(st, st.hi))
    [] c.o = "hascap" -> B(MayClaim(st, c.a[1]))
    [] c.o = "cursor" -> IF st.c.multi = 1 THEN st.cl ELSE IF DOMAIN st.dat = {} THEN 0 ELSE MaxOf(DOMAIN st.dat)
    [] c.o = "isavail" -> B(Published(st, c.a[1])
                            /\ (st.c.multi = 0 \/ (c.a[1] + st.c.n) \notin DOMAIN st.dat))
    [] c.o = "highest" -> Min2(c.a[2], IF st.c.multi = 1 THEN Contig(st, c.a[1]) ELSE c.a[2])
    [] c.o = "minseq" -> IF st.gate = {} THEN 999999 ELSE MinOf({st.hi[g] : g \in st.gate})
    [] c.o = "barcur" -> IF c.a = <<>> THEN Query(st, [c EXCEPT !.o = "cursor"]) ELSE MinOf({st.hi[g] : g \in Range(c.a)})
    [] c.o = "bufsize" -> st.c.n
    [] c.o = "rmgate" -> B(c.a[1] \in st.gate)
    [] OTHER -> 0
Top(st) == IF DOMAIN st.dat = {} THEN 0 ELSE MaxOf(DOMAIN st.dat)

RLin(st, p) == LET c == p.c IN
  CASE c.o = "next" -> IF c.a[1] < 1 THEN (IF Threw(c, "inval") THEN {<<st, Finish(p)>>} ELSE {})
                       ELSE IF MayClaim(st, c.a[1]) /\ Got(c, <<st.cl + c.a[1]>>)
                            THEN {<<Claim(st, c.a[1]), Finish(p)>>} ELSE {}
    [] c.o = "try" -> IF c.a[1] < 1 THEN (IF Threw(c, "inval") THEN {<<st, Finish(p)>>} ELSE {})
                      ELSE {<<r, Finish(p)>> : r \in
                             (IF MayClaim(st, c.a[1]) /\ Got(c, <<st.cl + c.a[1]>>) THEN {Claim(st, c.a[1])} ELSE {})
                             \cup (IF MayBeFull(st, c.a[1]) /\ Threw(c, "full") THEN {st} ELSE {})}
    [] c.o = "pub" -> PubLin(st, p)
    [] c.o = "rel" -> {<<Release(st, c.a[1], c.a[2]), Finish(p)>>}
    [] c.o = "peek" -> IF p.ph = 0 THEN {<<st, [p EXCEPT !.ph = 1, !.m = IF st.c.weak = 1 THEN 0 ELSE Contig(st, c.a[2])]>>}
                       ELSE IF c.d = 0 THEN {<<st, Finish(p)>>}
                       ELSE IF c.x = "" /\ c.r[1] >= p.m /\ c.r[1] <= Contig(st, c.a[2])
                            THEN {<<st, Finish(p)>>} ELSE {}
    [] c.o = "wait" -> WaitLin(st, p)
    [] c.o = "alert" -> {<<[st EXCEPT !.alerted = TRUE], Finish(p)>>}
    [] c.o = "clear" -> {<<[st EXCEPT !.alerted = FALSE], Finish(p)>>}
    [] c.o = "isalert" -> IF Got(c, <<B(st.alerted)>>) THEN {<<st, Finish(p)>>} ELSE {}
    [] c.o = "isrunning" -> IF st.c.weak = 1 \/ Got(c, <<B(st.pr[c.a[1]].up)>>) THEN {<<st, Finish(p)>>} ELSE {}
    [] c.o = "run" -> RunLin(st, p)
    [] c.o = "halt" -> HaltLin(st, p)
    [] c.o = "catchup" -> IF Contig(st, 1) = st.cl /\ st.pr[c.a[1]].act # -1 THEN {<<st, Finish(p)>>} ELSE {}
    [] c.o = "sget" -> IF Got(c, <<st.sq>>) THEN {<<st, Finish(p)>>} ELSE {}
    [] c.o = "sset" -> {<<[st EXCEPT !.sq = c.a[1]], Finish(p)>>}
    [] c.o = "scas" -> {<<r, Finish(p)>> : r \in
                          (IF st.sq = c.a[1] /\ Got(c, <<1>>) THEN {[st EXCEPT !.sq = c.a[2]]} ELSE {})
                          \cup (IF Got(c, <<0>>) THEN {st} ELSE {})}      \* it may fail for no reason
    [] c.o \in {"sinc", "sadd"} -> LET v == st.sq + (IF c.o = "sinc" THEN 1 ELSE c.a[1]) IN
                          IF Got(c, <<v>>) THEN {<<[st EXCEPT !.sq = v], Finish(p)>>} ELSE {}
    [] c.o = "addgate" -> {<<[st EXCEPT !.gate = @ \cup {c.a[1]}, !.lo[c.a[1]] = Top(st), !.hi[c.a[1]] = Top(st)], Finish(p)>>}
    [] c.o = "rmgate" -> IF Got(c, <<Query(st, c)>>) THEN {<<[st EXCEPT !.gate = @ \ {c.a[1]}], Finish(p)>>} ELSE {}
    [] OTHER -> IF Got(c, <<Query(st, c)>>) THEN {<<st, Finish(p)>>} ELSE {}

RObs(st, e, p) ==
  LET k == e.a[1] t == e.t IN
  CASE e.e = "see" -> IF Published(st, e.a[2]) /\ e.a[3] = st.dat[e.a[2]] /\ e.a[4] = st.dat[e.a[2]] THEN {st} ELSE {}
    [] e.e = "start" -> IF CanStart(st, k, t) THEN {Start(st, k)} ELSE {}
    [] e.e = "startexc" -> IF st.pr[k].act = t /\ st.pr[k].st = 21 THEN {StartFailed(st, k)} ELSE {}
    [] e.e = "shutdown" -> IF CanShut(st, k, t) THEN {Shut(st, k)} ELSE {}
    [] e.e = "stopexc" -> IF st.pr[k].act = t /\ st.pr[k].st = 31 THEN {[st EXCEPT !.pr[k].st = 3]} ELSE {}
    [] e.e = "ev" -> IF CanHandle(st, k, t, e.a[2], e.a[3], e.a[4] = 1, e.a[5]) THEN {Handle(st, k, e.a[2], e.a[3])} ELSE {}
    [] e.e = "evend" -> IF CanEnd(st, k, t, e.a[2], e.a[3])
                        THEN {IF e.a[5] = 1 THEN EndThrow(st, k) ELSE EndOk(st, k, e.a[2], e.a[4] = 1)} ELSE {}
    [] e.e = "exc" -> IF CanExc(st, k, t, e.a[2], e.a[3]) /\ e.a[4] = 1 THEN {Exc(st, k, e.a[2])} ELSE {}
    [] e.e = "tmo" -> IF st.pr[k].act = t /\ st.pr[k].st = 2 /\ st.pr[k].inev = 0 /\ ~st.pr[k].cont
                         /\ e.a[2] = st.pr[k].nxt - 1 THEN {st} ELSE {}
    [] e.e = "isrun" -> IF (e.a[2] = 1) = st.pr[k].up THEN {st} ELSE {}
    [] e.e = "seq" -> IF e.a[2] = st.pr[k].nxt - 1 THEN {st} ELSE {}
    [] e.e = "noopseq" -> IF e.a[2] <= Contig(st, 1) THEN {st} ELSE {}
    [] e.e = "end" -> {st}
    [] OTHER -> {}

RStuck(st, p) == NoneCanMove(st, p) /\ \A k \in 1..st.c.k : st.c.manual[k] = 1 \/ AtRest(st, k)
=============================================================================
