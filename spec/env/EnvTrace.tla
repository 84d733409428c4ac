-------------------------------- MODULE EnvTrace --------------------------------
(* Conformance of recorded histories of configuration environments.              *)
EXTENDS Env, LinTrace
SInit(cfg) == {Fresh(cfg)}
Is(c, r) == Got(c, r)
No(c) == c.d = 0 \/ c.x # ""
ToSet(q) == {q[i] : i \in DOMAIN q}
SLin(st, p) == LET c == p.c ok(x) == {<<x, Finish(p)>>} IN
  CASE c.o = "new" -> IF Is(c, <<>>) THEN ok(New(st, c.a[1], c.k, <<>>)) ELSE {}
    [] c.o = "doc" -> ok([st EXCEPT !.doc = Put(@, c.a[1], [ok |-> c.a[2] = 1, sec |-> ToSet(c.sec), bad |-> ToSet(c.bad),
                                                           p |-> Listed(c.v, c.ks)])])
    [] c.o = "newfile" -> \* an environment from a document below a root; there is no document 0
         IF c.a[2] # 0 /\ Good(st.doc[c.a[2]])
         THEN IF Is(c, <<>>) THEN ok(New(st, c.a[1], "config", Below(st.doc[c.a[2]].p, c.n))) ELSE {}
         ELSE IF No(c) THEN ok(st) ELSE {}
    [] c.o = "lines" -> \* a property file: one property per line, unless a line is malformed or repeats a key
         IF c.a[2] = 1 THEN IF Is(c, <<>>) THEN ok(New(st, c.a[1], "file", Listed(c.v, c.ks))) ELSE {}
         ELSE IF No(c) THEN ok(st) ELSE {}
    [] c.o = "set" -> LET e == st.env[c.a[1]] IN
         IF ~Is(c, <<>>) THEN {}
         ELSE IF e.k = "file" THEN ok(st)
         ELSE ok([st EXCEPT !.env[c.a[1]].p = Put(@, <<c.a[2], Full(c.k, c.n)>>, c.a[3])])
    [] c.o = "get" -> LET e == st.env[c.a[1]] x == <<c.a[2], Full(c.k, c.n)>> IN
         IF Is(c, IF x \in DOMAIN e.p THEN <<1, e.p[x]>> ELSE <<0, c.a[3]>>) THEN ok(st) ELSE {}
    [] c.o = "export" -> IF Is(c, <<>>)
         THEN ok([st EXCEPT !.doc = Put(@, c.a[2], [ok |-> TRUE, sec |-> Types, bad |-> {}, p |-> st.env[c.a[1]].p])]) ELSE {}
    [] c.o = "load" -> \* adds the properties of a document below a root: those present are kept and reported
         LET e == st.env[c.a[1]] IN
         IF e.k # "config" \/ c.a[2] = 0 \/ ~Good(st.doc[c.a[2]]) THEN IF Is(c, <<0>>) THEN ok(st) ELSE {}
         ELSE LET q == Below(st.doc[c.a[2]].p, c.n) IN
              IF Is(c, <<IF Conflict(e.p, q) THEN 0 ELSE 1>>) THEN ok([st EXCEPT !.env[c.a[1]].p = @ @@ q]) ELSE {}
    [] c.o = "update" -> \* replaces the sections the document has
         LET e == st.env[c.a[1]] d == st.doc[c.a[2]] IN
         IF ~Good(d) THEN IF Is(c, <<0>>) THEN ok(st) ELSE {}
         ELSE IF Is(c, <<1>>) THEN ok([st EXCEPT !.env[c.a[1]].p = Replaced(@, d)]) ELSE {}
    \* properties of changing type: the key alone addresses them
    [] c.o = "dset" -> LET e == st.env[c.a[1]] IN
         IF c.k \in DOMAIN e.p /\ e.p[c.k][1] # c.a[2] THEN IF Is(c, <<0>>) THEN ok(st) ELSE {}
         ELSE IF Is(c, <<1>>) THEN ok([st EXCEPT !.env[c.a[1]].p = Put(@, c.k, <<c.a[2], c.a[3]>>)]) ELSE {}
    [] c.o = "dget" -> LET e == st.env[c.a[1]] IN \* -2: left as it was
         IF Is(c, IF c.k \in DOMAIN e.p /\ e.p[c.k][1] = c.a[2] THEN <<1, e.p[c.k][2]>> ELSE <<0, -2>>) THEN ok(st) ELSE {}
    [] c.o = "dcopy" -> LET e == st.env[c.a[1]] f == st.env[c.a[2]].p
                            q == [x \in {Full(y, c.n) : y \in DOMAIN f} |-> f[CHOOSE y \in DOMAIN f : Full(y, c.n) = x]] IN
         IF Is(c, <<>>) THEN ok([st EXCEPT !.env[c.a[1]].p = @ @@ q]) ELSE {}
    [] c.o = "dclone" -> \* exported and loaded into another one
         IF Is(c, <<>>) THEN ok([st EXCEPT !.env[c.a[2]].p = st.env[c.a[1]].p]) ELSE {}
    [] OTHER -> {}
SObs(st, e, p) == IF e.e = "end" THEN {st} ELSE {}
SStuck(st, p) == FALSE
=================================================================================
