-------------------------------- MODULE Socket --------------------------------
(* Sockets: what their objects ask of the operating system.                   *)
(*   own   object -> its descriptor, or -1 (moved from, closed)               *)
(*   open  descriptors the operating system has handed out and not closed     *)
(*   inq   descriptor -> bytes on their way to it, eof descriptors whose peer *)
(*         has ended its stream, peer descriptor -> its peer (or -1)          *)
(*   do    thread -> what the call under way has done so far:                 *)
(*         fd (descriptor it works on), n (bytes written), got (bytes read),  *)
(*         err (last system call: "", an error, or "eof"), did (address calls)*)
EXTENDS Integers, Sequences, FiniteSets, TLC
Fresh(c) == [own |-> <<>>, open |-> {}, inq |-> <<>>, eof |-> {}, peer |-> <<>>, do |-> <<>>]
Nothing == [fd |-> -1, n |-> 0, got |-> <<>>, err |-> "", closed |-> FALSE, new |-> -1, did |-> <<>>, ended |-> FALSE]
Begin(s, t) == [s EXCEPT !.do = (t :> Nothing) @@ @]
Own(s, o) == IF o \in DOMAIN s.own THEN s.own[o] ELSE -1
Set(s, o, fd) == [s EXCEPT !.own = (o :> fd) @@ @]
Owned(s) == {s.own[o] : o \in DOMAIN s.own} \ {-1}
\* errors which a sender or receiver has to sit out, and those which mean the end of the stream
Passing(e) == e \in {"EINTR", "EAGAIN"}
PassingRead(e) == Passing(e) \/ e = "ETIMEDOUT"
EndOfStream(e) == e \in {"eof", "ECONNRESET", "ENOTCONN"}
IsPrefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
\* a stream between two descriptors
Bytes(s, fd) == IF fd \in DOMAIN s.inq THEN s.inq[fd] ELSE <<>>
Sent(s, fd, b) == IF s.peer[fd] = -1 THEN s ELSE [s EXCEPT !.inq = (s.peer[fd] :> Bytes(s, s.peer[fd]) \o b) @@ @]
Received(s, fd, n) == [s EXCEPT !.inq[fd] = SubSeq(@, n + 1, Len(@))]
==============================================================================
