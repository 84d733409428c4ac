------------------------------ MODULE EventLoop ------------------------------
(* The event loop as its users see it.                                        *)
(*   q      accepted events the loop has not taken, in the order accepted:    *)
(*          [n (event name), v, pub (published, not only claimed), t]         *)
(*   at     the event being delivered: on, n, v, rest (listeners still to be  *)
(*          called, in order), cur (listener being called, -1 none)           *)
(*   hi     most slots that may still be held by events already served (the   *)
(*          loop gives slots back at the end of a batch)                      *)
(*   run    the loop is running, gone: it was destroyed                       *)
(*   det    the ring is without a loop: events published go nowhere           *)
(*   L      event name -> listeners, in the order of registration             *)
(*   disc   event name -> events dropped because the ring was full            *)
(* Configuration: size of the ring, names, listeners.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
NoEv == [on |-> FALSE, n |-> 0, v |-> 0, rest |-> <<>>, cur |-> -1]
Fresh(c) == [size |-> c.size, weak |-> c.weak, all |-> 0, q |-> <<>>, at |-> NoEv, hi |-> 0, run |-> FALSE, gone |-> FALSE, det |-> FALSE,
             L |-> [n \in 0..(c.names - 1) |-> <<>>], disc |-> [n \in 0..(c.names - 1) |-> 0]]
Lo(s) == IF s.at.on THEN 1 ELSE 0
CanAccept(s) == s.det \/ Len(s.q) + Lo(s) < s.size
Min(a, b) == IF a < b THEN a ELSE b
Accept0(s, n, v, t) == IF s.det THEN s ELSE [s EXCEPT !.q = Append(@, [n |-> n, v |-> v, pub |-> FALSE, t |-> t]),
                                 !.hi = Min(@, s.size - Len(s.q) - 1), !.all = IF s.weak = 1 THEN Min(@ + 1, s.size) ELSE 0]
Publish0(s, t) == [s EXCEPT !.q = [i \in DOMAIN s.q |-> IF s.q[i].t = t THEN [s.q[i] EXCEPT !.pub = TRUE] ELSE s.q[i]]]
\* (under weak memory order a publisher may see the progress of the loop late)
CanDrop(s) == ~s.det /\ IF s.weak = 1 THEN s.all = s.size ELSE Len(s.q) + s.hi >= s.size
Drop(s, n) == [s EXCEPT !.disc[n] = @ + 1]
CanTake(s) == s.run /\ ~s.at.on /\ s.q # <<>> /\ s.q[1].pub
Take(s) == LET e == s.q[1] IN
  [s EXCEPT !.q = Tail(@), !.hi = Min(@ + 1, s.size - Len(s.q) + 1),
            !.at = IF s.L[e.n] = <<>> THEN NoEv
                   ELSE [on |-> TRUE, n |-> e.n, v |-> e.v, rest |-> s.L[e.n], cur |-> -1]]
CanServe(s, l, v) == s.at.on /\ s.at.cur = -1 /\ s.at.rest # <<>> /\ s.at.rest[1] = l /\ s.at.v = v
Serve(s, l) == [s EXCEPT !.at.cur = l, !.at.rest = Tail(@)]
CanServed(s, l, v) == s.at.on /\ s.at.cur = l /\ s.at.v = v
Served(s) == [s EXCEPT !.at = IF s.at.rest = <<>> THEN NoEv ELSE [s.at EXCEPT !.cur = -1]]
Quiet(s) == ~s.at.on
Stop(s) == [s EXCEPT !.run = FALSE, !.hi = IF s.run THEN 0 ELSE @]
\* the loop is destroyed and the ring stays; another loop for the same ring
Unloop(s) == [s EXCEPT !.run = FALSE, !.hi = 0, !.q = <<>>, !.all = 0, !.det = TRUE]
Reloop(s) == [s EXCEPT !.det = FALSE]
Reg(s, n, l) == [s EXCEPT !.L[n] = Append(@, l)]
Unreg(s, n, l) == [s EXCEPT !.L[n] = SelectSeq(@, LAMBDA x : x # l)]
==============================================================================
