------------------------------ MODULE SocketTrace ------------------------------
(* Conformance of recorded histories of sockets: calls of their users and the    *)
(* system calls (sys events) made on their behalf.                               *)
EXTENDS Socket, LinTrace
SInit(cfg) == {Fresh(cfg)}
OK(c) == c.d = 0 \/ c.x = ""
Failed(c) == c.d = 0 \/ c.x # ""
Constructs(c) == c.o \in {"connect", "server", "adopt"}
\* a call that constructs or accepts: the new object owns what was opened, unless it failed
Needs(c) == CASE c.o = "connect" -> <<"connect">> [] c.o = "server" -> <<"bind", "listen">> [] OTHER -> <<>>
Ctor(st, p, o) == LET c == p.c d == st.do[c.t] IN
  IF d.err = "" /\ d.new # -1 /\ d.did = Needs(c) /\ OK(c) THEN {<<Set(st, o, d.new), Finish(p)>>}
  ELSE IF d.err # "" /\ (d.new = -1 \/ d.closed) /\ Failed(c) THEN {<<st, Finish(p)>>} ELSE {}
SLin(st, p) == LET c == p.c t == c.t IN
  IF p.ph = 0 THEN {<<Begin(st, t), Phase(p, 1)>>} ELSE
  LET d == st.do[t] IN
  \* on an object which owns nothing
  CASE c.o \in {"put", "send", "end", "get", "receive"} /\ Own(st, c.a[1]) = -1 ->
         IF Failed(c) \/ (c.o = "put" /\ c.b = <<>>) \/ (c.o = "get" /\ c.a[2] = 0) THEN {<<st, Finish(p)>>} ELSE {}
    [] c.o = "pair" -> \* the harness makes two connected descriptors
         {<<[st EXCEPT !.open = @ \cup {c.a[1], c.a[2]},
                       !.inq = (c.a[1] :> <<>>) @@ (c.a[2] :> <<>>) @@ @, !.eof = @ \ {c.a[1], c.a[2]},
                       !.peer = (c.a[1] :> c.a[2]) @@ (c.a[2] :> c.a[1]) @@ @], Finish(p)>>}
    [] c.o = "adopt" -> IF c.a[2] = -1 THEN IF Failed(c) THEN {<<st, Finish(p)>>} ELSE {}
                        ELSE IF OK(c) THEN {<<Set(st, c.a[1], c.a[2]), Finish(p)>>} ELSE {}
    [] c.o \in {"connect", "server"} -> Ctor(st, p, c.a[1])
    [] c.o = "accept" -> IF Own(st, c.a[2]) = -1 THEN IF Failed(c) /\ d.new = -1 THEN {<<st, Finish(p)>>} ELSE {}
                         ELSE Ctor(st, p, c.a[1])
    \* moved: what the target had owned is the source's from then on, or closed
    [] c.o = "move" -> IF OK(c) THEN {<<Set(Set(st, c.a[1], Own(st, c.a[2])), c.a[2], -1), Finish(p)>>} ELSE {}
    [] c.o \in {"swap", "assign"} -> IF OK(c) THEN {<<Set(Set(st, c.a[1], Own(st, c.a[2])), c.a[2], Own(st, c.a[1])), Finish(p)>>} ELSE {}
    [] c.o = "close" -> IF ~d.closed THEN IF Own(st, c.a[1]) = -1 /\ Failed(c) THEN {<<st, Finish(p)>>} ELSE {}
                        ELSE IF \/ d.err = "" /\ OK(c)
                                \/ d.err = "EINTR"
                                \/ d.err \notin {"", "EINTR"} /\ Failed(c)
                             THEN {<<st, Finish(p)>>} ELSE {}
    [] c.o = "destroy" -> IF Own(st, c.a[1]) = -1 /\ OK(c)
                          THEN {<<[st EXCEPT !.own = [o \in DOMAIN @ \ {c.a[1]} |-> @[o]]], Finish(p)>>} ELSE {}
    [] c.o = "put" -> \* [object], b message
         IF \/ d.n = Len(c.b) /\ OK(c) /\ (d.err = "" \/ Len(c.b) = 0)
            \/ d.n < Len(c.b) /\ d.err # "" /\ ~Passing(d.err) /\ Failed(c)
         THEN {<<st, Finish(p)>>} ELSE {}
    [] c.o = "send" -> \* a whole message: then the end of the stream
         IF \/ d.n = Len(c.b) /\ d.closed /\ d.err = "" /\ OK(c)
            \/ d.err # "" /\ (d.n = Len(c.b) \/ ~Passing(d.err)) /\ Failed(c)
         THEN {<<st, Finish(p)>>} ELSE {}
    [] c.o = "end" -> IF (d.closed /\ d.err = "" /\ OK(c)) \/ (d.err # "" /\ Failed(c)) THEN {<<st, Finish(p)>>} ELSE {}
    [] c.o = "get" -> \* [object, size, stop]: up to size bytes, or until stop bytes have been seen
         IF \/ OK(c) /\ (c.d = 0 \/ c.r = d.got)
               /\ (Len(d.got) = c.a[2] \/ d.ended \/ (c.a[3] > 0 /\ Len(d.got) >= c.a[3]))
            \/ d.err # "" /\ ~PassingRead(d.err) /\ ~EndOfStream(d.err) /\ Failed(c)
         THEN {<<st, Finish(p)>>} ELSE {}
    [] c.o = "receive" -> \* everything up to the end of the stream
         IF \/ OK(c) /\ (c.d = 0 \/ c.r = d.got) /\ EndOfStream(d.err)
            \/ d.err # "" /\ ~PassingRead(d.err) /\ ~EndOfStream(d.err) /\ Failed(c)
         THEN {<<st, Finish(p)>>} ELSE {}
    [] OTHER -> {}
Did(st, t, f) == [st EXCEPT !.do[t] = f]
\* the object a call works on
Obj(c) == IF c.o = "accept" THEN c.a[2] ELSE c.a[1]
Mine(st, c, fd) == LET d == st.do[c.t] IN
  fd = -1 \/ (fd \in st.open /\ (Own(st, Obj(c)) = fd \/ (d.new = fd /\ ~d.closed)))
SObs(st, e, p) ==
  IF e.e = "end" THEN (IF st.open = {} THEN {st} ELSE {})     \* nothing is left open
  ELSE IF e.e # "sys" \/ e.t \notin DOMAIN p \/ p[e.t].idle \/ e.t \notin DOMAIN st.do THEN {}
  ELSE LET c == p[e.t].c d == st.do[e.t] failed == e.err # "" IN
  CASE e.o \in {"socket", "accept"} ->
         IF e.o = "accept" /\ ~Mine(st, c, e.fd) THEN {} ELSE
         IF failed THEN {Did(st, e.t, [d EXCEPT !.err = e.err])}
         ELSE IF d.new # -1 THEN {}
         ELSE {Did([st EXCEPT !.open = @ \cup {e.r}, !.inq = (e.r :> <<>>) @@ @, !.eof = @ \ {e.r}, !.peer = (e.r :> -1) @@ @],
                   e.t, [d EXCEPT !.new = e.r, !.err = ""])}
    [] e.o = "close" ->
         \* of its own open descriptor, once, by a call that closes, destroys or fails to construct
         IF e.fd = -1 \/ ~Mine(st, c, e.fd) \/ d.closed
            \/ ~(c.o \in {"close", "destroy", "connect", "server", "assign"} \/ (c.o = "accept" /\ e.fd = d.new)) THEN {}
         ELSE {LET x == [st EXCEPT !.open = @ \ {e.fd},
                                   !.own = [o \in DOMAIN @ |-> IF @[o] = e.fd THEN -1 ELSE @[o]],
                                   !.eof = IF st.peer[e.fd] = -1 THEN @ ELSE @ \cup {st.peer[e.fd]},
                                   !.peer = [f \in DOMAIN @ |-> IF f = e.fd \/ @[f] = e.fd THEN -1 ELSE @[f]]]
               IN Did(x, e.t, [d EXCEPT !.closed = TRUE, !.err = IF c.o = "close" THEN e.err ELSE @])}
    [] e.o = "write" -> \* the next bytes of the message, of which e.b were taken
         IF ~Mine(st, c, e.fd) \/ c.o \notin {"put", "send"} \/ e.n < 1 \/ d.n + e.n > Len(c.b) THEN {}
         ELSE IF failed THEN {Did(st, e.t, [d EXCEPT !.err = e.err])}
         ELSE IF Len(e.b) > e.n \/ e.b # SubSeq(c.b, d.n + 1, d.n + Len(e.b)) THEN {}
         ELSE {Did(Sent(st, e.fd, e.b), e.t, [d EXCEPT !.n = @ + Len(e.b), !.err = ""])}
    [] e.o = "shutdown" -> \* of the sending side only
         IF e.n # 1 \/ ~Mine(st, c, e.fd) \/ c.o \notin {"send", "end"} \/ (c.o = "send" /\ d.n < Len(c.b)) THEN {}
         ELSE IF failed THEN {Did(st, e.t, [d EXCEPT !.err = e.err])}
         ELSE {Did([st EXCEPT !.eof = IF st.peer[e.fd] = -1 THEN @ ELSE @ \cup {st.peer[e.fd]}], e.t,
                   [d EXCEPT !.closed = TRUE, !.err = ""])}
    [] e.o = "read" ->
         IF ~Mine(st, c, e.fd) \/ c.o \notin {"get", "receive"} \/ (c.o = "get" /\ d.ended) THEN {}
         ELSE IF failed THEN {Did(st, e.t, [d EXCEPT !.err = e.err, !.ended = @ \/ EndOfStream(e.err)])}
         ELSE IF e.n < 1 \/ Len(e.b) > e.n \/ (c.o = "get" /\ (Len(d.got) + e.n > c.a[2] \/ (c.a[3] > 0 /\ Len(d.got) >= c.a[3])))
                 \/ ~IsPrefix(e.b, Bytes(st, e.fd)) THEN {}
         ELSE IF e.b = <<>> THEN {Did(st, e.t, [d EXCEPT !.err = "eof", !.ended = TRUE])}
         ELSE {Did(Received(st, e.fd, Len(e.b)), e.t, [d EXCEPT !.got = @ \o e.b, !.err = ""])}
    [] e.o \in {"connect", "bind", "listen"} -> \* to the address asked for, and not after a failure
         IF ~Mine(st, c, e.fd) \/ c.o \notin {"connect", "server"} \/ d.err # ""
            \/ (e.o # "listen" /\ e.b # <<c.a[2], c.a[3]>>) THEN {}
         ELSE {Did(st, e.t, [d EXCEPT !.err = e.err, !.did = Append(@, e.o)])}
    [] e.o = "wait" -> IF ~Mine(st, c, e.fd) THEN {} ELSE {Did(st, e.t, [d EXCEPT !.err = e.err])}
    [] e.o \in {"fcntl", "setsockopt"} -> IF ~Mine(st, c, e.fd) THEN {} ELSE {st}
    [] OTHER -> {}
SStuck(st, p) == FALSE
===============================================================================
